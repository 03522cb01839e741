// Random acyclic policies over a World, and their complete projection.
#ifndef VPOLICY_H
#define VPOLICY_H
#include "vgraph.h"
namespace vt {
    struct Policy
    {
        Rnd& r;
        World& w;
        std::unique_ptr<TPG::TPGGraph> g;
        Ids ids;
        std::vector<const TPG::TPGVertex*> order; // edges go forward only
        std::vector<std::shared_ptr<Program::Program>> pool;

        Policy(Rnd& r, World& w, std::unique_ptr<TPG::TPGFactory> f = nullptr) : r(r), w(w)
        {
            if (f)
                g.reset(new TPG::TPGGraph(*w.env, std::move(f)));
            else
                g.reset(new TPG::TPGGraph(*w.env));
        }
        std::shared_ptr<Program::Program> prog()
        {
            if (!pool.empty() && r.chance(30))
                return r.pick(pool);
            auto p = std::make_shared<Program::Program>(*w.env);
            randomProgram(r, w, *p, (int)r.in(1, r.chance(30) ? 8 : 4));
            if (r.chance(85))
                p->identifyIntrons();
            if (r.chance(60))
                pool.push_back(p);
            return p;
        }
        // random forward destination of the vertex at position i of order
        const TPG::TPGVertex* after(size_t i)
        {
            // prefer the next ones: long paths
            if (r.chance(45) && i + 1 < order.size())
                return order[std::min(order.size() - 1, i + 1 + (size_t)r.in(0, 1))];
            return order[(size_t)r.in((int64_t)i + 1, (int64_t)order.size() - 1)];
        }
        void build(int nteams, int nactions, int maxEdges)
        {
            std::vector<const TPG::TPGVertex*> A, T;
            // interleave creations, so that vertex order and depth differ
            int t = 0, a = 0;
            while (t < nteams || a < nactions) {
                if (a >= nactions || (t < nteams && r.chance(50))) {
                    T.push_back(&g->addNewTeam());
                    t++;
                }
                else {
                    A.push_back(&g->addNewAction((uint64_t)(r.chance(80) ? a : r.in(0, 4))));
                    a++;
                }
            }
            for (size_t i = T.size(); i > 1; i--)
                std::swap(T[i - 1], T[(size_t)r.in(0, (int64_t)i - 1)]);
            order = T;
            order.insert(order.end(), A.begin(), A.end());
            for (size_t i = 0; i < T.size(); i++) {
                int n = (int)r.in(1, maxEdges);
                for (int k = 0; k < n; k++)
                    g->addNewEdge(*T[i], *after(i), prog());
            }
            ids.sync({g.get()});
        }
        size_t posOf(const TPG::TPGVertex* v) const
        {
            for (size_t i = 0; i < order.size(); i++)
                if (order[i] == v)
                    return i;
            return 0;
        }
        const TPG::TPGEdge* anyEdge()
        {
            auto& e = g->getEdges();
            auto it = e.begin();
            std::advance(it, r.in(0, (int64_t)e.size() - 1));
            return it->get();
        }
        // a random edit that keeps the graph acyclic
        void edit()
        {
            auto e = anyEdge();
            int c = (int)r.in(0, 4);
            if (c == 0)
                g->setEdgeDestination(*e, *after(posOf(e->getSource())));
            else if (c == 1)
                e->setProgram(prog());
            else if (c == 2 && e->getSource()->getOutgoingEdges().size() > 1)
                g->removeEdge(*e);
            else if (c == 3 && g->getEdges().size() < 30) {
                size_t i = posOf(e->getSource());
                g->addNewEdge(*order[i], *after(i), prog());
            }
            else {
                Program::Program& p = e->getProgram();
                if (p.getNbLines() > 0) {
                    randomLine(r, w, p.getLine((size_t)r.in(0, (int64_t)p.getNbLines() - 1)));
                    p.identifyIntrons();
                }
            }
            ids.sync({g.get()});
        }
        Arr progs() const
        {
            std::map<int, const Program::Program*> m;
            for (auto& e : g->getEdges())
                m[ids.prog(&e->getProgram())] = &e->getProgram();
            Arr a;
            for (auto& x : m)
                a.add(progJson(*x.second)("id", x.first));
            return a;
        }
        Obj event(const char* name) const
        {
            return Obj()("e", name)("graph", graphView(*g, ids))("progs", progs());
        }
        std::vector<int> path(const std::vector<const TPG::TPGVertex*>& p) const
        {
            std::vector<int> v;
            for (auto x : p)
                v.push_back(ids.vertex(x));
            return v;
        }
    };
} // namespace vt
#endif
