// C04: drives programs and execution engines through random histories and
// records every call (record), or replays the programs enumerated by
// spec/MCMachine.tla and compares the results (replay).
#include "vt.h"
using namespace vt;
typedef std::map<int, std::unique_ptr<Program::Program>> Progs;

static Arr progsJson(const Progs& ps)
{
    Arr a;
    for (auto& p : ps) {
        Obj o = progJson(*p.second);
        o("id", p.first);
        a.add(o);
    }
    return a;
}

static void setFrom(Program::Line& l, const Program::Line& src, size_t n)
{
    l.setInstructionIndex(src.getInstructionIndex());
    l.setDestinationIndex(src.getDestinationIndex());
    for (size_t k = 0; k < n; k++)
        l.setOperand(k, src.getOperand(k).first, src.getOperand(k).second);
}

static void world(Rnd& r, Trace& t, int steps)
{
    std::unique_ptr<World> w(randomWorld(r));
    t.emit(w->envEvent());
    w->randomData(r);
    t.emit(Obj()("e", "Data")("data", w->data()));
    Progs ps;
    std::unique_ptr<Program::ProgramExecutionEngine> eng; // reused across programs
    // second data set: clones, used through setDataSources
    std::vector<std::unique_ptr<Data::DataHandler>> clones;
    int nextId = 1;
    auto ev = [&](const char* e, int id) { return Obj()("e", e)("id", id); };
    auto done = [&](Obj o) { t.emit(o("progs", progsJson(ps))); };
    auto anyId = [&]() {
        auto it = ps.begin();
        std::advance(it, r.in(0, (int64_t)ps.size() - 1));
        return it->first;
    };
    auto exec = [&](int id) {
        double v;
        Program::Program& p = *ps[id];
        int how = (int)r.in(0, 3);
        if (how == 0 || !eng) {
            eng.reset(new Program::ProgramExecutionEngine(p));
            v = eng->executeProgram();
        }
        else if (how == 3) {
            // same content through copies of the handlers
            clones.clear();
            std::vector<std::reference_wrapper<const Data::DataHandler>> refs;
            for (auto& s : w->srcs) {
                clones.emplace_back(s->dh->clone());
                refs.push_back(*clones.back());
            }
            Program::ProgramExecutionEngine e2(*w->env);
            e2.setProgram(p);
            e2.setDataSources(refs);
            v = e2.executeProgram();
            if (r.chance(50))
                v = e2.executeProgram();
        }
        else {
            eng->setProgram(p);
            v = eng->executeProgram();
            if (how == 2)
                v = eng->executeProgram(); // again without setProgram
        }
        t.emit(ev("Exec", id)("res", enc(v)));
    };
    for (int s = 0; s < steps; s++) {
        int c = (int)r.in(0, 99);
        if (ps.empty() || (c < 6 && ps.size() < 4)) {
            int id = nextId++;
            ps[id].reset(new Program::Program(*w->env));
            done(ev("New", id));
            int n = (int)r.in(1, 6);
            for (int i = 0; i < n; i++) {
                auto& ln = ps[id]->addNewLine();
                if (i > 0 && r.chance(12))
                    copyLine(ln, ps[id]->getLine((size_t)r.in(0, i - 1)), *w);
                else
                    randomLine(r, *w, ln);
                done(ev("Insert", id)("ok", true)("at", i)("line", lineJson(*ps[id], i)));
            }
            continue;
        }
        int id = anyId();
        Program::Program& p = *ps[id];
        int n = (int)p.getNbLines();
        if (c < 24) {
            int at = (int)r.in(0, n + (r.chance(10) ? 2 : 0));
            bool ok = true;
            if (n > 14 && at <= n)
                continue;
            try {
                Program::Line& ln = p.addNewLine(at);
                if (n > 0 && r.chance(12)) { // a neighbour, mostly
                    int from = r.chance(70) ? std::max(0, at - 1) : (int)r.in(0, n - 1);
                    copyLine(ln, p.getLine((size_t)(from >= at ? from + 1 : from)), *w);
                }
                else
                    randomLine(r, *w, ln);
            }
            catch (std::out_of_range&) {
                ok = false;
            }
            Obj o = ev("Insert", id)("ok", ok)("at", at);
            if (ok)
                o("line", lineJson(p, at));
            done(o);
        }
        else if (c < 30) {
            int at = (int)r.in(0, std::max(0, n - 1) + (r.chance(10) ? 2 : 0));
            if (at < 0)
                at = 0;
            bool ok = true;
            try {
                p.removeLine(at);
            }
            catch (std::out_of_range&) {
                ok = false;
            }
            done(ev("Remove", id)("ok", ok)("at", at));
        }
        else if (c < 36) {
            int a = (int)r.in(0, n), b = (int)r.in(0, n);
            if (r.chance(80) && n > 0) {
                a %= n;
                b %= n;
            }
            bool ok = true;
            try {
                p.swapLines(a, b);
            }
            catch (std::out_of_range&) {
                ok = false;
            }
            done(ev("Swap", id)("ok", ok)("a", a)("b", b));
        }
        else if (c < 44) {
            if (!n)
                continue;
            int at = (int)r.in(0, n - 1);
            randomLine(r, *w, p.getLine(at));
            done(ev("Set", id)("at", at)("line", lineJson(p, at)));
        }
        else if (c < 50) {
            if (!w->ncst)
                continue;
            int k = (int)r.in(0, w->ncst - 1), v = (int)r.in(-20, 20);
            p.getConstantHandler().setDataAt(typeid(Data::Constant), k, Data::Constant{v});
            done(ev("Const", id)("k", k)("v", v));
        }
        else if (c < 66) {
            uint64_t cnt = p.identifyIntrons();
            done(ev("Mark", id)("n", cnt));
            exec(id);
        }
        else if (c < 70) {
            p.clearIntrons();
            done(ev("Clear", id));
            if (r.chance(60))
                exec(id);
        }
        else if (c < 77) {
            if (ps.size() >= 4)
                continue;
            int nid = nextId++;
            ps[nid].reset(new Program::Program(p));
            done(ev("Copy", nid)("from", id));
            if (r.chance(50))
                exec(nid);
        }
        else if (c < 79) {
            ps.erase(id);
            eng.reset();
            done(ev("Drop", id));
        }
        else if (c < 85) {
            w->randomData(r);
            t.emit(Obj()("e", "Data")("data", w->data()));
        }
        else if (c < 91) {
            int b = anyId();
            t.emit(Obj()("e", "Compare")("a", id)("b", b)("same", p.hasIdenticalBehavior(*ps[b])));
            // near-copies are where identity verdicts are hard
            if (ps.size() < 4 && n > 0) {
                int nid = nextId++;
                ps[nid].reset(new Program::Program(p));
                done(ev("Copy", nid)("from", id));
                int at = (int)r.in(0, n - 1);
                Program::Line& q = ps[nid]->getLine(at);
                int what = (int)r.in(0, 3);
                size_t no = w->env->getMaxNbOperands();
                if (what == 0)
                    q.setDestinationIndex((uint64_t)r.in(0, w->nreg - 1));
                else if (what == 1) {
                    size_t k = (size_t)r.in(0, (int64_t)no - 1);
                    q.setOperand(k, q.getOperand(k).first, (uint64_t)r.in(0, (int64_t)w->env->getLargestAddressSpace() - 1));
                }
                else if (what == 2)
                    randomLine(r, *w, q);
                if (what < 3)
                    done(ev("Set", nid)("at", at)("line", lineJson(*ps[nid], at)));
                else if (w->ncst) {
                    int k = (int)r.in(0, w->ncst - 1), v = (int)r.in(-20, 20);
                    ps[nid]->getConstantHandler().setDataAt(typeid(Data::Constant), k, Data::Constant{v});
                    done(ev("Const", nid)("k", k)("v", v));
                }
                if (r.chance(50)) {
                    uint64_t cnt = ps[nid]->identifyIntrons();
                    done(ev("Mark", nid)("n", cnt));
                }
                if (r.chance(50)) {
                    uint64_t cnt = ps[id]->identifyIntrons();
                    done(ev("Mark", id)("n", cnt));
                }
                t.emit(Obj()("e", "Compare")("a", id)("b", nid)("same", ps[id]->hasIdenticalBehavior(*ps[nid])));
                t.emit(Obj()("e", "Compare")("a", nid)("b", id)("same", ps[nid]->hasIdenticalBehavior(*ps[id])));
                exec(id);
                exec(nid);
                if (r.chance(70)) {
                    ps.erase(nid);
                    eng.reset();
                    done(ev("Drop", nid));
                }
            }
        }
        else
            exec(id);
    }
}

// --------------------------------------------------------------- replay
// lines: tab separated "nlines i d s0 l0 s1 l1 ... ; cst ; res0 res1 res2"
static int replay(const char* in)
{
    World w;
    w.srcs.emplace_back(Src::make("pa", "d", 1, 2));
    w.addOp(2);
    w.addOp(7);
    w.addOp(4);
    w.finish(3, 1);
    static const int D[3][2] = {{0, 0}, {5, -7}, {1, 30}};
    std::ifstream f(in);
    long n = 0, bad = 0;
    int nl;
    while (f >> nl) {
        Program::Program p(*w.env);
        std::ostringstream desc;
        for (int i = 0; i < nl; i++) {
            int ii, d, s0, l0, s1, l1;
            f >> ii >> d >> s0 >> l0 >> s1 >> l1;
            desc << "[" << ii << " " << d << " " << s0 << "," << l0 << " " << s1 << "," << l1 << "]";
            auto& ln = p.addNewLine();
            ln.setInstructionIndex(ii);
            ln.setDestinationIndex(d);
            ln.setOperand(0, s0, l0);
            ln.setOperand(1, s1, l1);
        }
        int c, res[3];
        f >> c >> res[0] >> res[1] >> res[2];
        p.getConstantHandler().setDataAt(typeid(Data::Constant), 0, Data::Constant{c});
        std::unique_ptr<Program::Program> q(new Program::Program(p));
        q->identifyIntrons();
        Program::Program z(*q);
        z.clearIntrons();
        for (int k = 0; k < 3; k++) {
            w.srcs[0]->set(0, D[k][0]);
            w.srcs[0]->set(1, D[k][1]);
            Program::ProgramExecutionEngine e(p);
            int a = enc(e.executeProgram());
            e.setProgram(*q);
            int b = enc(e.executeProgram());
            e.setProgram(z);
            int d = enc(e.executeProgram());
            if (a != res[k] || b != res[k] || d != res[k]) {
                if (bad++ < 5)
                    printf("MISMATCH %s cst=%d data=%d,%d expected %d got all=%d marked=%d cleared=%d\n", desc.str().c_str(), c,
                           D[k][0], D[k][1], res[k], a, b, d);
            }
        }
        n++;
    }
    printf("REPLAYED %ld BAD %ld\n", n, bad);
    return 0;
}

int main(int argc, char** argv)
{
    if (argc > 2 && !strcmp(argv[1], "replay"))
        return replay(argv[2]);
    // record SEED WORLDS STEPS OUT
    Rnd r(strtoull(argv[2], nullptr, 10));
    Trace t(argv[5]);
    int worlds = atoi(argv[3]), steps = atoi(argv[4]);
    for (int i = 0; i < worlds; i++)
        world(r, t, steps);
    return 0;
}
