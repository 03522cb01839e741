// C01: random edit histories on two graphs, every call recorded with the
// complete projection of both graphs.
#include "vgraph.h"
#include "tpg/instrumented/tpgInstrumentedFactory.h"
using namespace vt;

struct H
{
    Rnd& r;
    Trace& t;
    World w;
    std::unique_ptr<TPG::TPGGraph> g[2];
    Ids ids;
    std::vector<std::pair<int, std::weak_ptr<Program::Program>>> progs;

    H(Rnd& r, Trace& t) : r(r), t(t)
    {
        w.srcs.emplace_back(Src::make("pa", "d", 1, 2));
        w.addOp(1);
        w.addOp(2);
        w.finish(2, 0);
        for (int i = 0; i < 2; i++)
            g[i] = fresh();
        t.emit(Obj()("e", "Reset"));
    }
    std::unique_ptr<TPG::TPGGraph> fresh()
    {
        if (r.chance(40))
            return std::unique_ptr<TPG::TPGGraph>(
                new TPG::TPGGraph(*w.env, std::make_unique<TPG::TPGInstrumentedFactory>()));
        return std::unique_ptr<TPG::TPGGraph>(new TPG::TPGGraph(*w.env));
    }
    std::shared_ptr<Program::Program> prog()
    {
        if (r.chance(45))
            for (int k = 0; k < 4; k++) {
                if (progs.empty())
                    break;
                auto p = r.pick(progs).second.lock();
                if (p)
                    return p;
            }
        auto p = std::make_shared<Program::Program>(*w.env);
        randomProgram(r, w, *p, 1);
        ids.p.erase(p.get());
        int id = ids.addP(p.get());
        progs.push_back({id, p});
        return p;
    }
    const TPG::TPGVertex* anyV(int i)
    {
        auto v = g[i]->getVertices();
        return v.empty() ? nullptr : r.pick(v);
    }
    const TPG::TPGEdge* anyE(int i)
    {
        auto& e = g[i]->getEdges();
        if (e.empty())
            return nullptr;
        auto it = e.begin();
        std::advance(it, r.in(0, (int64_t)e.size() - 1));
        return it->get();
    }
    // mostly from graph i, sometimes from the other one
    const TPG::TPGVertex* someV(int i)
    {
        auto v = anyV(r.chance(93) ? i : 1 - i);
        return v ? v : anyV(i);
    }
    const TPG::TPGEdge* someE(int i)
    {
        auto e = anyE(r.chance(93) ? i : 1 - i);
        return e ? e : anyE(i);
    }
    void done(Obj o)
    {
        Arr gsj;
        gsj.add(graphView(*g[0], ids)).add(graphView(*g[1], ids));
        Arr u;
        for (auto i = progs.begin(); i != progs.end();) {
            Arr x;
            x.add(i->first);
            x.add((int)i->second.use_count());
            u.add(x);
            i = i->second.expired() ? progs.erase(i) : std::next(i);
        }
        t.emit(o("graphs", gsj)("uses", u));
    }
    void sync()
    {
        ids.sync({g[0].get(), g[1].get()}, false);
    }
    void step()
    {
        int i = r.chance(80) ? 0 : 1;
        TPG::TPGGraph& G = *g[i];
        int c = (int)r.in(0, 99);
        size_t nv = G.getNbVertices(), ne = G.getEdges().size();
        auto ev = [&](const char* n) { return Obj()("e", n)("g", i + 1); };
        if (c < 10 || nv < 2) {
            if (nv > 7)
                return;
            auto& v = G.addNewTeam();
            ids.addV(&v);
            done(ev("Team")("v", ids.vertex(&v)));
        }
        else if (c < 17) {
            if (nv > 7)
                return;
            int a = (int)r.in(0, 3);
            auto& v = G.addNewAction(a);
            ids.addV(&v);
            done(ev("Action")("v", ids.vertex(&v))("a", a));
        }
        else if (c < 42) {
            if (ne > 12)
                return;
            auto s = someV(i), d = someV(i);
            int ps = ids.vertex(s), pd = ids.vertex(d), n = 0, pid;
            bool ok = true;
            {
                auto p = prog();
                pid = ids.prog(p.get());
                try {
                    auto& e = G.addNewEdge(*s, *d, p);
                    n = ids.addE(&e);
                }
                catch (std::runtime_error&) {
                    ok = false;
                }
            }
            done(ev("Edge")("n", n)("s", ps)("d", pd)("p", pid)("ok", ok));
        }
        else if (c < 48) {
            auto v = someV(i);
            int id = ids.vertex(v);
            G.removeVertex(*v);
            sync();
            done(ev("RemV")("v", id));
        }
        else if (c < 56) {
            auto e = someE(i);
            if (!e)
                return;
            int id = ids.edge(e);
            bool ok = true;
            try {
                G.removeEdge(*e);
            }
            catch (std::runtime_error&) {
                ok = false;
            }
            sync();
            done(ev("RemE")("x", id)("ok", ok));
        }
        else if (c < 64) {
            if (nv > 7)
                return;
            auto v = someV(i);
            int id = ids.vertex(v), n = 0;
            bool ok = true;
            std::vector<int> es;
            try {
                auto& x = G.cloneVertex(*v);
                n = ids.addV(&x);
                for (auto e : x.getOutgoingEdges())
                    es.push_back(ids.addE(e));
            }
            catch (std::runtime_error&) {
                ok = false;
            }
            done(ev("CloneV")("v", id)("n", n)("es", es)("ok", ok));
        }
        else if (c < 70) {
            auto e = someE(i);
            if (!e || ne > 12)
                return;
            int id = ids.edge(e), n = 0;
            bool ok = true;
            try {
                n = ids.addE(&G.cloneEdge(*e));
            }
            catch (std::runtime_error&) {
                ok = false;
            }
            done(ev("CloneE")("x", id)("n", n)("ok", ok));
        }
        else if (c < 80) {
            auto e = someE(i);
            auto d = someV(i);
            if (!e)
                return;
            bool ok;
            try {
                ok = G.setEdgeDestination(*e, *d);
            }
            catch (std::runtime_error&) {
                ok = false;
            }
            done(ev("SetDst")("x", ids.edge(e))("d", ids.vertex(d))("ok", ok));
        }
        else if (c < 91) {
            auto e = someE(i);
            auto s = someV(i);
            if (!e)
                return;
            bool ok;
            try {
                ok = G.setEdgeSource(*e, *s);
            }
            catch (std::runtime_error&) {
                ok = false;
            }
            done(ev("SetSrc")("x", ids.edge(e))("s", ids.vertex(s))("ok", ok));
        }
        else if (c < 96) {
            auto e = anyE(i);
            if (!e)
                return;
            int pid;
            {
                auto p = prog();
                pid = ids.prog(p.get());
                e->setProgram(p);
            }
            done(ev("SetProg")("x", ids.edge(e))("p", pid));
        }
        else if (c < 97 && r.chance(50)) {
            G.clear();
            sync();
            done(ev("Clear"));
        }
        else if (c < 99 && r.chance(50)) {
            // move: assignment, or construction of a new graph object
            if (r.chance(50)) {
                G = std::move(*g[1 - i]);
            }
            else {
                std::unique_ptr<TPG::TPGGraph> n(new TPG::TPGGraph(std::move(*g[1 - i])));
                g[i] = std::move(n);
                if (r.chance(50))
                    g[1 - i] = fresh();
            }
            sync();
            done(ev("Move")("j", 2 - i));
        }
    }
};

int main(int argc, char** argv)
{
    Rnd r(strtoull(argv[2], nullptr, 10));
    Trace t(argv[5]);
    for (int i = 0; i < atoi(argv[3]); i++) {
        H h(r, t);
        for (int s = 0; s < atoi(argv[4]); s++)
            h.step();
    }
    return 0;
}
