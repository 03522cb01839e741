// Identities and projection of TPG graphs.
#ifndef VGRAPH_H
#define VGRAPH_H
#include "vt.h"
namespace vt {
    // How action identifiers are written (identifiers may exceed the integers
    // of the specification).
    inline std::function<int(uint64_t)>& actName()
    {
        static std::function<int(uint64_t)> f = [](uint64_t x) { return (int)x; };
        return f;
    }
    // Gives stable ids to vertices, edges and programs. Pointers of elements
    // that left the graph are forgotten (addresses are reused).
    struct Ids
    {
        std::map<const void*, int> v, e;
        std::map<const Program::Program*, int> p;
        int nv = 1, ne = 1, np = 1;
        int vertex(const TPG::TPGVertex* x) const
        {
            auto i = v.find(x);
            return i == v.end() ? -1 : i->second;
        }
        int edge(const TPG::TPGEdge* x) const
        {
            auto i = e.find(x);
            return i == e.end() ? -1 : i->second;
        }
        int prog(const Program::Program* x) const
        {
            auto i = p.find(x);
            return i == p.end() ? -1 : i->second;
        }
        int addV(const TPG::TPGVertex* x)
        {
            return v[x] = nv++;
        }
        int addE(const TPG::TPGEdge* x)
        {
            return e[x] = 1000 + ne++;
        }
        int addP(const Program::Program* x)
        {
            return p[x] = np++;
        }
        // Forget everything that is in none of the graphs, then name the new.
        // Only valid when no element was freed and reallocated in between
        // (use between single calls) -- or when identity does not matter.
        void sync(const std::vector<const TPG::TPGGraph*>& gs, bool names = true)
        {
            std::set<const void*> lv, le;
            for (auto g : gs) {
                for (auto x : g->getVertices())
                    lv.insert(x);
                for (auto& x : g->getEdges())
                    le.insert(x.get());
            }
            for (auto i = v.begin(); i != v.end();)
                i = lv.count(i->first) ? std::next(i) : v.erase(i);
            for (auto i = e.begin(); i != e.end();)
                i = le.count(i->first) ? std::next(i) : e.erase(i);
            if (!names)
                return;
            std::set<const void*> lp;
            for (auto g : gs)
                for (auto& x : g->getEdges())
                    lp.insert(&x->getProgram());
            for (auto i = p.begin(); i != p.end();)
                i = lp.count(i->first) ? std::next(i) : p.erase(i);
            for (auto g : gs) {
                for (auto x : g->getVertices())
                    if (!v.count(x))
                        addV(x);
                // in outgoing order, so that clones are named in order
                for (auto x : g->getVertices())
                    for (auto y : x->getOutgoingEdges())
                        if (le.count(y) && !e.count(y))
                            addE(y);
                for (auto x : g->getVertices())
                    for (auto y : x->getOutgoingEdges())
                        if (le.count(y) && !p.count(&y->getProgram()))
                            addP(&y->getProgram());
                for (auto& y : g->getEdges()) {
                    if (!e.count(y.get()))
                        addE(y.get());
                    if (!p.count(&y->getProgram()))
                        addP(&y->getProgram());
                }
            }
        }
    };

    // content of a program, marks excluded
    inline std::string digest(const Program::Program& p)
    {
        uint64_t h = 1469598103934665603ull;
        auto mix = [&](uint64_t v) {
            h ^= v + 0x9E3779B97F4A7C15ull;
            h *= 1099511628211ull;
            h ^= h >> 29;
        };
        for (size_t i = 0; i < p.getNbLines(); i++) {
            auto& l = p.getLine(i);
            mix(l.getInstructionIndex());
            mix(l.getDestinationIndex());
            for (size_t k = 0; k < p.getEnvironment().getMaxNbOperands(); k++) {
                mix(l.getOperand(k).first);
                mix(l.getOperand(k).second);
            }
            mix(77);
        }
        for (size_t i = 0; i < p.getEnvironment().getNbConstant(); i++)
            mix((uint64_t)(int64_t)(int)p.getConstantAt(i));
        char b[24];
        snprintf(b, sizeof b, "%016llx", (unsigned long long)h);
        return b;
    }
    // [[prog id, digest], ...] of the programs of a graph
    inline Arr digests(const TPG::TPGGraph& g, const Ids& ids)
    {
        std::map<int, std::string> m;
        for (auto& e : g.getEdges())
            m[ids.prog(&e->getProgram())] = digest(e->getProgram());
        Arr a;
        for (auto& x : m) {
            Arr b;
            b.add(x.first);
            b.add(x.second);
            a.add(b);
        }
        return a;
    }
    inline Obj graphView(const TPG::TPGGraph& g, const Ids& ids)
    {
        Arr verts, kind, act, outs, ins, edges, roots;
        auto vs = g.getVertices();
        for (auto v : vs) {
            verts.add(ids.vertex(v));
            auto a = dynamic_cast<const TPG::TPGAction*>(v);
            kind.add(a ? "A" : dynamic_cast<const TPG::TPGTeam*>(v) ? "T" : "?");
            act.add(a ? actName()(a->getActionID()) : -1);
            Arr o, i;
            for (auto e : v->getOutgoingEdges())
                o.add(ids.edge(e));
            for (auto e : v->getIncomingEdges())
                i.add(ids.edge(e));
            outs.add(o);
            ins.add(i);
        }
        for (auto& e : g.getEdges()) {
            Arr x;
            x.add(ids.edge(e.get()));
            x.add(ids.vertex(e->getSource()));
            x.add(ids.vertex(e->getDestination()));
            x.add(ids.prog(&e->getProgram()));
            edges.add(x);
        }
        for (auto v : g.getRootVertices())
            roots.add(ids.vertex(v));
        Obj o;
        o("verts", verts)("kind", kind)("act", act)("outs", outs)("ins", ins)("edges", edges)("roots", roots);
        o("nroots", g.getNbRootVertices())("nverts", g.getNbVertices());
        return o;
    }
} // namespace vt
#endif
