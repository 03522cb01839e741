// C03: inference histories on random acyclic policies.
#include "vpolicy.h"
#include "tpg/tpgExecutionEngine.h"
using namespace vt;

static void world(Rnd& r, Trace& t, int steps)
{
    std::unique_ptr<World> w(randomWorld(r));
    t.emit(w->envEvent());
    Policy p(r, *w);
    p.build((int)r.in(1, 7), (int)r.in(1, 4), (int)r.in(2, 5));
    t.emit(p.event("Graph"));
    w->randomData(r);
    t.emit(Obj()("e", "Data")("data", w->data()));
    Archive arch(100000, 1.0);
    std::unique_ptr<TPG::TPGExecutionEngine> eng(new TPG::TPGExecutionEngine(*w->env));
    size_t seen = 0;
    for (int s = 0; s < steps; s++) {
        int c = (int)r.in(0, 99);
        if (c < 20) {
            w->randomData(r);
            t.emit(Obj()("e", "Data")("data", w->data()));
        }
        else if (c < 34) {
            p.edit();
            t.emit(p.event("Graph"));
        }
        else if (c < 38)
            eng.reset(new TPG::TPGExecutionEngine(*w->env));
        else if (c < 44) {
            auto e = p.anyEdge();
            eng->setArchive(nullptr);
            t.emit(Obj()("e", "Edge")("x", p.ids.edge(e))("bid", enc(eng->evaluateEdge(*e))));
        }
        else if (c < 50) {
            auto v = p.anyEdge()->getSource();
            eng->setArchive(nullptr);
            auto& e = eng->evaluateTeam(*(const TPG::TPGTeam*)v);
            t.emit(Obj()("e", "Team")("v", p.ids.vertex(v))("x", p.ids.edge(&e)));
        }
        else if (c < 54)
            t.emit(p.event("Same"));
        else {
            const TPG::TPGVertex* root = r.chance(50) ? p.order[0] : r.pick(p.order);
            bool rec = r.chance(60);
            eng->setArchive(rec ? &arch : nullptr);
            auto path = eng->executeFromRoot(*root);
            Obj o;
            o("e", "Run")("root", p.ids.vertex(root))("path", p.path(path));
            if (rec) {
                Arr a;
                for (; seen < arch.getNbRecordings(); seen++) {
                    Arr x;
                    x.add(p.ids.prog(arch.at(seen).prog));
                    x.add(enc(arch.at(seen).result));
                    a.add(x);
                }
                o("recs", a);
            }
            t.emit(o);
        }
    }
}
int main(int argc, char** argv)
{
    Rnd r(strtoull(argv[2], nullptr, 10));
    Trace t(argv[5]);
    for (int i = 0; i < atoi(argv[3]); i++)
        world(r, t, atoi(argv[4]));
    return 0;
}
