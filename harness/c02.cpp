// C02: evolution histories (initialisation, population steps, removal of roots)
// and single calls of every graph mutator, with complete projections.
#include "vgraph.h"
#include "mutator/tpgMutator.h"
#include "tpg/instrumented/tpgInstrumentedFactory.h"
using namespace vt;
namespace TM = Mutator::TPGMutator;

struct H
{
    Rnd& r;
    Trace& t;
    std::unique_ptr<World> w;
    std::unique_ptr<TPG::TPGGraph> g;
    Ids ids;
    Mutator::RNG rng;
    Mutator::MutationParameters P;
    Archive empty;

    static int pct(double p)
    {
        return p <= 0 ? 0 : p >= 1 ? 100 : 50;
    }
    double prob()
    {
        int c = (int)r.in(0, 9);
        return c < 3 ? 0.0 : c < 5 ? 1.0 : r.in(10, 90) / 100.0;
    }
    H(Rnd& r, Trace& t) : r(r), t(t), w(randomWorld(r)), rng(r.next())
    {
        if (r.chance(30))
            g.reset(new TPG::TPGGraph(*w->env, std::make_unique<TPG::TPGInstrumentedFactory>()));
        else
            g.reset(new TPG::TPGGraph(*w->env));
        t.emit(Obj()("e", "Reset"));
        draw();
        // parameters that must be refused, on an empty or non empty graph
        if (r.chance(50))
            refused();
        init();
        if (r.chance(30))
            refused();
    }
    void draw()
    {
        auto& q = P.tpg;
        q.nbActions = (size_t)r.in(2, 5);
        q.maxInitOutgoingEdges = (size_t)r.in(2, std::min<int64_t>(4, q.nbActions));
        q.maxOutgoingEdges = q.maxInitOutgoingEdges + (size_t)r.in(0, 2);
        q.nbRoots = (size_t)r.in(1, 14);
        drawP();
        P.prog.maxProgramSize = (size_t)r.in(2, 8);
        P.prog.minConstValue = -20;
        P.prog.maxConstValue = 20;
    }
    void drawP()
    {
        auto& q = P.tpg;
        q.pEdgeDeletion = prob();
        q.pEdgeAddition = prob();
        q.pProgramMutation = r.chance(25) ? 1.0 : r.in(5, 90) / 100.0;
        q.pEdgeDestinationChange = prob();
        q.pEdgeDestinationIsAction = prob();
        q.forceProgramBehaviorChangeOnMutation = r.chance(30);
    }
    Obj pj() const
    {
        auto& q = P.tpg;
        return Obj()("n", q.nbActions)("init", q.maxInitOutgoingEdges)("max", q.maxOutgoingEdges)("roots", q.nbRoots)(
            "del", pct(q.pEdgeDeletion))("add", pct(q.pEdgeAddition))("chg", pct(q.pEdgeDestinationChange))(
            "act", pct(q.pEdgeDestinationIsAction))("mut", pct(q.pProgramMutation));
    }
    void done(Obj o)
    {
        ids.sync({g.get()});
        t.emit(o("params", pj())("graph", graphView(*g, ids))("dig", digests(*g, ids)));
    }
    void init()
    {
        TM::initRandomTPG(*g, P, rng);
        ids = Ids();
        done(Obj()("e", "Init")("ok", true));
    }
    void refused()
    {
        auto Q = P.tpg;
        int k = (int)r.in(0, 3);
        if (k == 0)
            P.tpg.nbActions = (size_t)r.in(0, 1), P.tpg.maxInitOutgoingEdges = P.tpg.nbActions;
        else if (k == 1)
            P.tpg.maxInitOutgoingEdges = P.tpg.nbActions + (size_t)r.in(1, 2);
        else
            P.tpg.maxInitOutgoingEdges = (size_t)r.in(0, 1);
        bool ok = true;
        try {
            TM::initRandomTPG(*g, P, rng);
        }
        catch (std::runtime_error&) {
            ok = false;
        }
        done(Obj()("e", "Init")("ok", ok));
        P.tpg = Q;
    }
    const TPG::TPGTeam* team(bool root)
    {
        std::vector<const TPG::TPGTeam*> c;
        if (root) {
            for (auto v : g->getRootVertices())
                if (auto x = dynamic_cast<const TPG::TPGTeam*>(v))
                    c.push_back(x);
        }
        else
            for (auto v : g->getVertices())
                if (auto x = dynamic_cast<const TPG::TPGTeam*>(v))
                    c.push_back(x);
        return c.empty() ? nullptr : r.pick(c);
    }
    void lists(std::vector<const TPG::TPGTeam*>& T, std::vector<const TPG::TPGAction*>& A, std::list<const TPG::TPGEdge*>& E)
    {
        for (auto v : g->getVertices()) {
            if (auto x = dynamic_cast<const TPG::TPGTeam*>(v))
                T.push_back(x);
            else
                A.push_back((const TPG::TPGAction*)v);
        }
        for (auto& e : g->getEdges())
            E.push_back(e.get());
    }
    template <class C> std::vector<int> names(const C& c)
    {
        std::vector<int> n;
        for (auto x : c)
            n.push_back(ids.v.count(x) ? ids.vertex((const TPG::TPGVertex*)x) : ids.edge((const TPG::TPGEdge*)x));
        return n;
    }
    void populate()
    {
        uint64_t thr = r.chance(30) ? 3 : r.in(0, 1);
        bool ok = true;
        try {
            TM::populateTPG(*g, empty, P, rng, thr);
        }
        catch (std::out_of_range&) {
            ok = false;
        }
        done(Obj()("e", "Populate")("ok", ok));
        if (!ok)
            init();
    }
    void trim(int pctKeep)
    {
        // what selection does: root teams leave
        int n = (int)r.in(0, 3);
        for (int rep = 0; rep <= n; rep++)
            for (auto v : g->getRootVertices())
                if (dynamic_cast<const TPG::TPGTeam*>(v) && r.chance(100 - pctKeep))
                    g->removeVertex(*v);
        done(Obj()("e", "Look"));
    }
    void step()
    {
        int c = (int)r.in(0, 99);
        if (g->getNbVertices() > 40 || g->getEdges().size() > 110) {
            trim(20);
            if (g->getNbVertices() > 40)
                init();
            return;
        }
        if (c < 28) {
            drawP();
            P.tpg.nbRoots = (size_t)r.in(1, 14);
            populate();
        }
        else if (c < 40)
            trim(r.chance(10) ? 0 : 60);
        else if (c < 43) {
            draw();
            init();
        }
        else if (c < 52) {
            auto x = team(r.chance(60));
            if (!x || x->getOutgoingEdges().size() < 3)
                return;
            int id = ids.vertex(x);
            TM::removeRandomEdge(*g, *x, rng);
            done(Obj()("e", "RemEdge")("v", id));
        }
        else if (c < 64) {
            auto x = team(r.chance(60));
            if (!x)
                return;
            std::list<const TPG::TPGEdge*> pre;
            for (auto& e : g->getEdges())
                if (r.chance(60))
                    pre.push_back(e.get());
            bool some = false;
            for (auto e : pre)
                some |= e->getSource() != x && e->getDestination() != x;
            if (!some)
                return;
            auto nm = names(pre);
            TM::addRandomEdge(*g, *x, pre, rng);
            done(Obj()("e", "AddEdge")("v", ids.vertex(x))("pre", nm));
            // keep the graph acyclic for what follows: this call alone gives
            // no such guarantee on old teams
            g->removeEdge(*x->getOutgoingEdges().back());
            done(Obj()("e", "Look"));
        }
        else if (c < 86) {
            // a fresh root: clone of an existing root, then mutate parts of it
            auto x = team(true);
            if (!x || x->getOutgoingEdges().empty())
                return;
            drawP();
            std::vector<const TPG::TPGTeam*> T;
            std::vector<const TPG::TPGAction*> A;
            std::list<const TPG::TPGEdge*> E;
            lists(T, A, E);
            auto tn = names(T), an = names(A), en = names(E);
            auto& n = (const TPG::TPGTeam&)g->cloneVertex(*x);
            ids.sync({g.get()});
            done(Obj()("e", "Clone")("from", ids.vertex(x))("v", ids.vertex(&n)));
            std::list<std::shared_ptr<Program::Program>> np;
            bool ok = true;
            const size_t max0 = P.tpg.maxOutgoingEdges;
            Obj o;
            if (c < 72) {
                const TPG::TPGEdge* e = n.getOutgoingEdges().front();
                if (r.chance(50))
                    e = n.getOutgoingEdges().back();
                int eid = ids.edge(e);
                bool dest = r.chance(50);
                try {
                    if (dest)
                        TM::mutateEdgeDestination(*g, e, T, A, P, rng);
                    else
                        TM::mutateOutgoingEdge(*g, e, T, A, np, P, rng);
                }
                catch (std::out_of_range&) {
                    ok = false;
                }
                o = Obj()("e", dest ? "MutDest" : "MutOut")("x", eid);
            }
            else {
                if (r.chance(50))
                    P.tpg.maxOutgoingEdges = std::max<size_t>(P.tpg.maxInitOutgoingEdges, (size_t)r.in(2, 5));
                try {
                    TM::mutateTPGTeam(*g, empty, n, T, A, E, np, P, rng);
                }
                catch (std::out_of_range&) {
                    ok = false;
                }
                o = Obj()("e", "MutTeam")("v", ids.vertex(&n));
            }
            ids.sync({g.get()});
            std::vector<int> nn;
            for (auto& p : np)
                nn.push_back(ids.prog(p.get()));
            done(o("ok", ok)("T", tn)("A", an)("E", en)("new", nn));
            P.tpg.maxOutgoingEdges = max0;
            // a team that was only partly mutated may go
            if (!ok || r.chance(60) || n.getOutgoingEdges().size() > P.tpg.maxOutgoingEdges) {
                g->removeVertex(n);
                done(Obj()("e", "Look"));
            }
        }
        else {
            drawP();
            populate();
        }
    }
};

int main(int argc, char** argv)
{
    Rnd r(strtoull(argv[2], nullptr, 10));
    Trace t(argv[5]);
    for (int i = 0; i < atoi(argv[3]); i++) {
        H h(r, t);
        for (int s = 0; s < atoi(argv[4]); s++)
            h.step();
    }
    return 0;
}
