// C17: instrumented graphs and engines: every counter after every use.
#include "vlearn.h"
#include "vpolicy.h"
#include "tpg/instrumented/tpgActionInstrumented.h"
#include "tpg/instrumented/tpgEdgeInstrumented.h"
#include "tpg/instrumented/tpgExecutionEngineInstrumented.h"
#include "tpg/instrumented/tpgInstrumentedFactory.h"
#include "tpg/instrumented/tpgTeamInstrumented.h"
using namespace vt;

static Obj counts(Obj o, const TPG::TPGGraph& g, const Ids& ids)
{
    Arr v, e;
    for (auto x : g.getVertices()) {
        auto i = dynamic_cast<const TPG::TPGVertexInstrumentation*>(x);
        v.add(Arr().add(ids.vertex(x)).add(i ? (long)i->getNbVisits() : -1));
    }
    for (auto& x : g.getEdges()) {
        auto i = dynamic_cast<const TPG::TPGEdgeInstrumented*>(x.get());
        e.add(Arr().add(ids.edge(x.get())).add(i ? (long)i->getNbVisits() : -1).add(i ? (long)i->getNbTraversal() : -1));
    }
    return o("v", v)("ed", e);
}

static void world(Rnd& r, Trace& t, int steps, bool many)
{
    std::unique_ptr<World> w(randomWorld(r));
    t.emit(w->envEvent());
    TPG::TPGInstrumentedFactory fac;
    Policy p(r, *w, std::make_unique<TPG::TPGInstrumentedFactory>());
    p.build((int)r.in(1, 7), (int)r.in(1, 5), (int)r.in(2, 5));
    t.emit(p.event("Graph"));
    w->randomData(r);
    t.emit(Obj()("e", "Data")("data", w->data()));
    Archive arch(1000, 1.0);
    std::unique_ptr<TPG::TPGExecutionEngine> eng[3];
    eng[0].reset(new TPG::TPGExecutionEngine(*w->env));
    eng[1] = fac.createTPGExecutionEngine(*w->env, nullptr);
    eng[2] = p.g->getFactory().createTPGExecutionEngine(*w->env, r.chance(50) ? &arch : nullptr);
    auto ie = [&](int k) { return (TPG::TPGExecutionEngineInstrumented*)eng[k].get(); };
    auto hist = [&](int k) {
        Arr a;
        for (auto& x : ie(k)->getTraceHistory())
            a.add(p.path(x));
        t.emit(Obj()("e", "Hist")("eng", k)("hist", a));
    };
    struct Past
    {
        std::vector<std::vector<int>> data;
        const TPG::TPGVertex* root;
        std::vector<int> path;
    };
    std::vector<Past> past; // inferences since the counters were last reset
    bool plainUse = true;   // nothing but inferences since then, on an unchanged graph
    auto reset = [&] {
        fac.resetTPGGraphCounters(*p.g);
        t.emit(Obj()("e", "Reset"));
        past.clear();
        plainUse = true;
    };
    // most of the time, the same few contents come back
    std::vector<std::vector<std::vector<int>>> pool;
    for (int s = 0; s < steps; s++) {
        int c = (int)r.in(0, 99);
        if (c < 20) {
            w->randomData(r);
            t.emit(Obj()("e", "Data")("data", w->data()));
        }
        else if (c < 24) {
            p.edit();
            t.emit(p.event("Graph"));
            plainUse = false;
        }
        else if (c < 27) {
            auto e = p.anyEdge();
            double b = eng[1]->evaluateEdge(*e);
            t.emit(Obj()("e", "Edge")("x", p.ids.edge(e))("bid", enc(b)));
        }
        else if (c < 29) {
            auto v = p.anyEdge()->getSource();
            auto& e = eng[1]->evaluateTeam(*(const TPG::TPGTeam*)v);
            t.emit(Obj()("e", "Team")("v", p.ids.vertex(v))("x", p.ids.edge(&e)));
            plainUse = false;
        }
        else if (c < 35)
            reset();
        else if (c < 38)
            hist((int)r.in(1, 2));
        else if (c < 40) {
            int k = (int)r.in(1, 2);
            ie(k)->clearTraceHistory();
            t.emit(Obj()("e", "ClearHist")("eng", k));
        }
        else if (c < 60)
            t.emit(counts(Obj()("e", "Count"), *p.g, p.ids));
        else {
            const TPG::TPGVertex* root = r.chance(60) ? p.order[0] : r.pick(p.order);
            int k = r.chance(15) ? 0 : (int)r.in(1, 2);
            auto path = p.path(eng[k]->executeFromRoot(*root));
            t.emit(Obj()("e", "Run")("eng", k)("root", p.ids.vertex(root))("path", path));
            if (k) {
                Past x;
                for (auto& s : w->srcs)
                    x.data.push_back(s->vals());
                x.root = root;
                x.path = path;
                past.push_back(x);
            }
        }
    }
    t.emit(counts(Obj()("e", "Count"), *p.g, p.ids));
    hist(1);
    hist(2);
    // several threads at once; with many inferences, more than 16 bits can count
    if (many || r.chance(70)) {
        if (r.chance(40))
            reset();
        int nt = many ? 8 : (int)r.in(2, 8);
        struct Job
        {
            const TPG::TPGVertex* root;
            int n;
            std::vector<int> path;
            bool same = true;
        };
        std::vector<Job> jobs;
        for (int i = 0; i < nt; i++)
            jobs.push_back({r.chance(60) ? p.order[0] : r.pick(p.order), many ? (int)r.in(15000, 25000) : (int)r.in(1, 4000), {}, true});
        std::vector<std::thread> th;
        std::mutex m;
        std::condition_variable cv;
        bool go = false;
        for (auto& j : jobs)
            th.emplace_back([&] {
                auto e = fac.createTPGExecutionEngine(*w->env, nullptr);
                {
                    std::unique_lock<std::mutex> l(m);
                    cv.wait(l, [&] { return go; });
                }
                for (int i = 0; i < j.n; i++) {
                    auto q = p.path(e->executeFromRoot(*j.root));
                    if (i == 0)
                        j.path = q;
                    else
                        j.same = j.same && q == j.path;
                }
            });
        {
            std::lock_guard<std::mutex> l(m);
            go = true;
        }
        cv.notify_all();
        for (auto& x : th)
            x.join();
        Arr a;
        for (auto& j : jobs) {
            a.add(Obj()("root", p.ids.vertex(j.root))("n", j.n)("path", j.path)("same", j.same));
            Past x;
            for (auto& s : w->srcs)
                x.data.push_back(s->vals());
            x.root = j.root;
            x.path = j.path;
            past.push_back(x);
        }
        t.emit(Obj()("e", "Threads")("runs", a));
        t.emit(counts(Obj()("e", "Count"), *p.g, p.ids));
    }
    // removal of the unused parts, and the same inferences again
    if (!plainUse && r.chance(70)) {
        reset();
        for (int i = (int)r.in(1, 6); i > 0; i--) {
            w->randomData(r);
            t.emit(Obj()("e", "Data")("data", w->data()));
            const TPG::TPGVertex* root = r.chance(70) ? p.order[0] : r.pick(p.order);
            Past x;
            for (auto& s : w->srcs)
                x.data.push_back(s->vals());
            x.root = root;
            x.path = p.path(eng[1]->executeFromRoot(*root));
            t.emit(Obj()("e", "Run")("eng", 1)("root", p.ids.vertex(root))("path", x.path));
            past.push_back(x);
        }
    }
    fac.clearUnusedTPGGraphElements(*p.g);
    std::set<const TPG::TPGVertex*> live;
    for (auto v : p.g->getVertices())
        live.insert(v);
    // what is left keeps its name
    Ids ids = p.ids;
    ids.sync({p.g.get()});
    std::swap(p.ids, ids);
    t.emit(p.event("Prune"));
    t.emit(counts(Obj()("e", "Count"), *p.g, p.ids));
    if (!plainUse)
        return;
    for (auto& x : past) {
        if (!live.count(x.root)) { // cannot be: it was visited
            t.emit(Obj()("e", "Lost"));
            continue;
        }
        for (size_t i = 0; i < w->srcs.size(); i++)
            for (int k = 0; k < w->srcs[i]->size(); k++)
                w->srcs[i]->set(k, x.data[i][(size_t)k]);
        t.emit(Obj()("e", "Data")("data", w->data()));
        auto path = p.path(eng[1]->executeFromRoot(*x.root));
        t.emit(Obj()("e", "Run")("eng", 1)("root", p.ids.vertex(x.root))("path", path)("was", x.path));
    }
    t.emit(counts(Obj()("e", "Count"), *p.g, p.ids));
}

template <class B> struct Ag : public B
{
    using B::B;
    mutable std::mutex m;
    mutable std::map<const TPG::TPGVertex*, int> n; // inferences per root
    std::shared_ptr<Learn::EvaluationResult> evaluateJob(TPG::TPGExecutionEngine& tee, const Learn::Job& job, uint64_t gen,
                                                         Learn::LearningMode mode,
                                                         Learn::LearningEnvironment& le) const override
    {
        auto& log = ((VEnv&)le).core.log;
        log.clear();
        auto res = B::evaluateJob(tee, job, gen, mode, le);
        std::lock_guard<std::mutex> g(m);
        for (auto& l : log)
            n[job.getRoot()] += (int)l.acts.size();
        return res;
    }
};
template <class B> static void training(Rnd& r, Trace& t, int gens, int threads)
{
    LearnCfg c;
    auto p = randomParams(r, c, 6);
    p.mutation.tpg.pEdgeDestinationIsAction = 0.0; // see KF_C02_dest
    p.nbThreads = (size_t)threads;
    if (p.ratioDeletedRoots > 0.7)
        p.ratioDeletedRoots = 0.5;
    VEnv le(c);
    Ag<B> la(le, someInstr(c.ncst > 0).set, p, TPG::TPGInstrumentedFactory());
    la.init(r.next());
    TPG::TPGInstrumentedFactory fac;
    for (int g = 0; g < gens; g++) {
        la.trainOneGeneration((uint64_t)g);
        auto tpg = la.getTPGGraph();
        fac.resetTPGGraphCounters(*tpg);
        la.n.clear();
        la.evaluateAllRoots((uint64_t)g, r.chance(50) ? Learn::LearningMode::VALIDATION : Learn::LearningMode::TRAINING);
        Ids ids;
        ids.sync({tpg.get()});
        Arr n;
        for (auto& x : la.n)
            n.add(Arr().add(ids.vertex(x.first)).add(x.second));
        t.emit(counts(Obj()("e", "Train")("graph", graphView(*tpg, ids))("n", n), *tpg, ids));
    }
}
int main(int argc, char** argv)
{
    Rnd r(strtoull(argv[2], nullptr, 10));
    Trace t(argv[5]);
    int n = atoi(argv[3]);
    for (int i = 0; i < n; i++) {
        world(r, t, atoi(argv[4]), i == 1);
        if (i % 4 == 3) {
            if (r.chance(40))
                training<Learn::LearningAgent>(r, t, 3, 1);
            else
                training<Learn::ParallelLearningAgent>(r, t, 3, (int)r.in(1, 4));
        }
    }
    return 0;
}
