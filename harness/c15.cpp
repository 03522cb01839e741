// C15: graphs are saved to files and loaded back.
#include "vpolicy.h"
#include "file/tpgGraphDotExporter.h"
#include "file/tpgGraphDotImporter.h"
#include "tpg/tpgExecutionEngine.h"
#include <sys/stat.h>
#include <unistd.h>
using namespace vt;

static std::map<uint64_t, int> bigIds;
static int nameOf(uint64_t id)
{
    if (id < 1000)
        return (int)id;
    return bigIds.emplace(id, 2000 + (int)bigIds.size()).first->second;
}
static std::string tmpdir;
static std::string fileName(int f)
{
    return tmpdir + "/f" + std::to_string(f) + ".dot";
}
struct Side
{
    Ids ids;
    std::unique_ptr<TPG::TPGGraph> g;
    Arr progs() const
    {
        std::map<int, const Program::Program*> m;
        for (auto& e : g->getEdges())
            m[ids.prog(&e->getProgram())] = &e->getProgram();
        Arr a;
        for (auto& x : m)
            a.add(progJson(*x.second)("id", x.first));
        return a;
    }
    Obj view(Obj o)
    {
        return o("graph", graphView(*g, ids))("progs", progs());
    }
};
struct Driver
{
    Rnd& r;
    World& w;
    Trace& t;
    Side a, b;
    std::unique_ptr<File::TPGGraphDotExporter> ex;
    std::unique_ptr<File::TPGGraphDotImporter> im;
    std::map<int, int> root; // of the saved files (0: all)
    int loaded = -1;         // file in b
    bool fresh = false;      // a has not changed since the file in b was saved

    Driver(Rnd& r, World& w, Trace& t) : r(r), w(w), t(t)
    {
        b.g.reset(new TPG::TPGGraph(*w.env));
    }
    void graph()
    {
        a.ids.sync({a.g.get()});
        t.emit(a.view(Obj()("e", "Graph")));
        fresh = false;
        ex.reset(); // may go on with the same exporter, see save
    }
    // `again`: go on with the same exporter
    void save(int f, const TPG::TPGVertex* v, bool again)
    {
        std::string err;
        try {
            if (!ex || !again)
                ex.reset(new File::TPGGraphDotExporter(fileName(f).c_str(), *a.g));
            else
                ex->setNewFilePath(fileName(f).c_str());
            if (v)
                ex->printSubGraph(v);
            else
                ex->print();
        }
        catch (std::exception& e) {
            err = "refused";
        }
        root[f] = v ? a.ids.vertex(v) : 0;
        if (f == loaded)
            loaded = -1;
        t.emit(a.view(Obj()("e", "Export")("f", f)("root", root[f])("error", err)));
    }
    void load(int f, bool again)
    {
        std::string err;
        try {
            if (!im || !again)
                im.reset(new File::TPGGraphDotImporter(fileName(f).c_str(), *w.env, *b.g));
            else {
                if (r.chance(70))
                    im->setNewFilePath(fileName(f).c_str());
                else
                    im.reset(new File::TPGGraphDotImporter(fileName(f).c_str(), *w.env, *b.g));
                im->importGraph();
            }
        }
        catch (std::exception& e) {
            err = "refused";
        }
        b.ids = Ids();
        b.ids.sync({b.g.get()});
        t.emit(b.view(Obj()("e", "Import")("f", f)("error", err)));
        loaded = f;
    }
    void swap()
    {
        im.reset();
        ex.reset();
        std::swap(a, b);
        b.g.reset(new TPG::TPGGraph(*w.env));
        b.ids = Ids();
        t.emit(a.view(Obj()("e", "Swap")));
        loaded = -1;
    }
};

static bool looping(const TPG::TPGVertex* v, std::set<const TPG::TPGVertex*>& open)
{
    if (!open.insert(v).second)
        return true;
    for (auto e : v->getOutgoingEdges())
        if (looping(e->getDestination(), open))
            return true;
    open.erase(v);
    return dynamic_cast<const TPG::TPGTeam*>(v) && v->getOutgoingEdges().empty();
}
static void randomGraph(Rnd& r, World& w, Policy& p, bool acyclic, bool longProgs)
{
    int nt = (int)r.in(acyclic ? 1 : 0, 6), na = (int)r.in(acyclic ? 1 : 0, 4);
    std::vector<const TPG::TPGVertex*> A, T;
    int a = 0, n = 0;
    std::set<uint64_t> used;
    while (n < nt || a < na) {
        if (a >= na || (n < nt && r.chance(50))) {
            T.push_back(&p.g->addNewTeam());
            n++;
        }
        else {
            uint64_t id;
            do
                id = r.chance(70) ? (uint64_t)r.in(0, 9) : r.chance(50) ? (uint64_t)r.in(2000000000, 5000000000) : r.next();
            while (!used.insert(id).second);
            A.push_back(&p.g->addNewAction(id));
            a++;
        }
    }
    for (size_t i = T.size(); i > 1; i--)
        std::swap(T[i - 1], T[(size_t)r.in(0, (int64_t)i - 1)]);
    p.order = T;
    p.order.insert(p.order.end(), A.begin(), A.end());
    auto prog = [&]() {
        auto q = p.prog();
        if (longProgs && r.chance(15))
            for (int k = (int)r.in(50, 400); k > 0; k--)
                randomLine(r, w, q->addNewLine());
        else if (r.chance(5))
            while (q->getNbLines())
                q->removeLine(0);
        if (longProgs)
            q->identifyIntrons();
        return q;
    };
    if (T.empty())
        return;
    int ne = (int)r.in(0, 10) + (acyclic ? (int)T.size() : 0);
    for (int k = 0; k < ne; k++) {
        size_t i = acyclic && k < (int)T.size() ? (size_t)k : (size_t)r.in(0, (int64_t)T.size() - 1);
        p.g->addNewEdge(*T[i], acyclic ? *p.after(i) : *r.pick(p.order), prog());
    }
}
static void world(Rnd& r, Trace& t, int steps)
{
    std::unique_ptr<World> w(randomWorld(r));
    t.emit(w->envEvent());
    bool acyclic = r.chance(65), longProgs = !acyclic && r.chance(25);
    Policy p(r, *w);
    randomGraph(r, *w, p, acyclic, longProgs);
    Driver d(r, *w, t);
    d.a.g = std::move(p.g);
    d.graph();
    // edits go through this policy, which shares the graph with the driver
    auto edit = [&]() {
        auto& g = *d.a.g;
        if (g.getEdges().empty())
            return;
        auto it = g.getEdges().begin();
        std::advance(it, r.in(0, (int64_t)g.getEdges().size() - 1));
        const TPG::TPGEdge* e = it->get();
        if (p.order.empty()) { // loaded graph: keep it acyclic
            int c = (int)r.in(0, 2);
            if (c == 0)
                g.setEdgeSource(*e, *e->getSource());
            else if (c == 1)
                g.cloneEdge(*e);
            else if (e->getSource()->getOutgoingEdges().size() > 1)
                g.removeEdge(*e);
            return;
        }
        size_t s = p.posOf(e->getSource()), x = p.posOf(e->getDestination());
        switch (r.in(0, 4)) {
        case 0: { // evaluated last by a team
            size_t n = acyclic ? (size_t)r.in(0, (int64_t)std::max<size_t>(1, x) - 1) : (size_t)r.in(0, (int64_t)p.order.size() - 1);
            if ((e->getSource()->getOutgoingEdges().size() > 1 || n == s) && dynamic_cast<const TPG::TPGTeam*>(p.order[n]))
                g.setEdgeSource(*e, *p.order[n]);
            break;
        }
        case 1:
            g.setEdgeDestination(*e, acyclic ? *p.after(s) : *r.pick(p.order));
            break;
        case 2:
            if (e->getSource()->getOutgoingEdges().size() > 1)
                g.removeEdge(*e);
            break;
        case 3:
            e->setProgram(p.prog());
            break;
        default:
            g.addNewEdge(*e->getSource(), acyclic ? *p.after(s) : *r.pick(p.order), p.prog());
        }
    };
    bool same = false;
    for (int s = 0; s < steps; s++) {
        int c = (int)r.in(0, 99);
        auto vs = d.a.g->getVertices();
        if (c < 25) {
            auto keep = std::move(d.ex);
            for (int k = (int)r.in(1, 4); k > 0; k--)
                edit();
            d.graph();
            d.ex = std::move(keep); // the same exporter, later
            same = false;
        }
        else if (c < 60) {
            const TPG::TPGVertex* v = vs.empty() || r.chance(60) ? nullptr : r.pick(vs);
            d.save((int)r.in(1, 3), v, r.chance(60));
        }
        else if (c < 97 && !d.root.empty()) {
            auto it = d.root.begin();
            std::advance(it, r.in(0, (int64_t)d.root.size() - 1));
            d.load(it->first, r.chance(50));
        }
        else if (c >= 97 && d.loaded > 0 && d.b.g->getNbVertices() > 0) {
            d.swap();
            p.order.clear();
        }
        // the decisions of what is saved and loaded at once
        if (acyclic && r.chance(30) && d.a.g->getNbRootVertices() > 0) {
            auto roots = d.a.g->getRootVertices();
            auto root = r.pick(roots);
            d.save(9, root, r.chance(60));
            d.load(9, r.chance(50));
            auto broots = d.b.g->getRootVertices();
            std::set<const TPG::TPGVertex*> open;
            if (broots.size() == 1 && !looping(broots[0], open)) {
                TPG::TPGExecutionEngine e(*w->env);
                for (int k = 0; k < 3; k++) {
                    w->randomData(r);
                    t.emit(Obj()("e", "Data")("data", w->data()));
                    std::vector<int> x, y;
                    for (auto v : e.executeFromRoot(*root))
                        x.push_back(d.a.ids.vertex(v));
                    for (auto v : e.executeFromRoot(*broots[0]))
                        y.push_back(d.b.ids.vertex(v));
                    t.emit(Obj()("e", "Run")("root", d.a.ids.vertex(root))("path", x)("hroot", d.b.ids.vertex(broots[0]))(
                        "hpath", y)("follows", true));
                }
            }
        }
    }
    (void)same;
}

// every graph of 2 teams and 2 actions with `ne` edges and 2 programs
static void enumerate(Rnd& r, Trace& t, int ne, int part, int parts, int dups)
{
    std::unique_ptr<World> w(randomWorld(r, false));
    t.emit(w->envEvent());
    std::shared_ptr<Program::Program> ps[2];
    for (auto& p : ps)
        p.reset(new Program::Program(*w->env));
    randomProgram(r, *w, *ps[0], 2);
    if (dups)
        ps[1].reset(new Program::Program(*ps[0]));
    else
        randomProgram(r, *w, *ps[1], 3);
    int total = 2; // with or without a move
    for (int i = 0; i < ne; i++)
        total *= 16;
    for (int k = part; k < total; k += parts) {
        Driver d(r, *w, t);
        d.a.g.reset(new TPG::TPGGraph(*w->env));
        auto& g = *d.a.g;
        const TPG::TPGVertex* v[4];
        v[2] = &g.addNewAction(7);
        v[0] = &g.addNewTeam();
        v[3] = &g.addNewAction(9);
        v[1] = &g.addNewTeam();
        int c = k / 2;
        std::vector<const TPG::TPGEdge*> es;
        for (int i = 0; i < ne; i++, c /= 16)
            es.push_back(&g.addNewEdge(*v[c & 1], *v[(c >> 1) & 3], ps[(c >> 3) & 1]));
        if (k % 2)
            g.setEdgeSource(*es[0], *v[(k / 2) & 1]);
        d.graph();
        d.save(1, nullptr, false);
        d.load(1, false);
        d.save(2, v[k / 2 % 3 ? 0 : 1], true);
        d.load(2, true);
    }
}

int main(int argc, char** argv)
{
    std::string mode = argv[1];
    Rnd r(strtoull(argv[2], nullptr, 10));
    int n = atoi(argv[3]), steps = atoi(argv[4]);
    actName() = nameOf;
    tmpdir = std::string(argv[5]) + ".d";
    if (mkdir(tmpdir.c_str(), 0700) && errno != EEXIST)
        return 3;
    {
        Trace t(argv[5]);
        if (mode == "enum") // n: part, steps: parts * 10 + edges
            enumerate(r, t, steps % 10, n, steps / 10, n % 2);
        else
            for (int i = 0; i < n; i++)
                world(r, t, steps);
    }
    for (int f : {1, 2, 3, 9})
        unlink(fileName(f).c_str());
    rmdir(tmpdir.c_str());
    return 0;
}
