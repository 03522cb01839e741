// C11/C12: training histories of sequential and parallel agents, with every
// environment call, every evaluation result and the complete records.
#include "vlearn.h"
#include "learn/adversarialEvaluationResult.h"
#include "learn/classificationEvaluationResult.h"
#include "log/laLogger.h"
using namespace vt;
using Learn::LearningMode;
typedef std::multimap<std::shared_ptr<Learn::EvaluationResult>, const TPG::TPGVertex*> Results;

struct Rec
{
    Trace& t;
    Ids ids;
    Nums seeds;
    std::mutex m;
    std::set<const TPG::TPGVertex*> past; // every vertex ever recorded
    Learn::LearningAgent* la = nullptr;
    Learn::LearningParameters p;
    Results last;
    explicit Rec(Trace& t) : t(t)
    {
    }
    Arr res(const TPG::TPGVertex* v, const Learn::EvaluationResult& e)
    {
        Arr x = ratio(e.getResult(), e.getNbEvaluation());
        return Arr().add(ids.vertex(v)).add(x);
    }
    Arr results(const Results& rs)
    {
        Arr a;
        for (auto& x : rs)
            a.add(res(x.second, *x.first));
        return a;
    }
    Obj state(Obj o, bool fresh = false)
    {
        auto& g = *la->getTPGGraph();
        if (fresh)
            ids = Ids();
        ids.sync({&g});
        Arr verts, edges, roots, recs, best;
        std::set<const TPG::TPGVertex*> live;
        for (auto v : g.getVertices()) {
            live.insert(v);
            past.insert(v);
            verts.add(Arr().add(ids.vertex(v)).add(dynamic_cast<const TPG::TPGAction*>(v) ? "A" : "T"));
            std::shared_ptr<Learn::EvaluationResult> e;
            bool skip = la->isRootEvalSkipped(*v, e);
            if (e)
                recs.add(Arr().add(ids.vertex(v)).add(ratio(e->getResult(), e->getNbEvaluation())).add(skip));
        }
        for (auto v : g.getRootVertices())
            roots.add(ids.vertex(v));
        for (auto& e : g.getEdges())
            edges.add(Arr().add(ids.vertex(e->getSource())).add(ids.vertex(e->getDestination())));
        int stale = 0;
        for (auto v : past)
            if (!live.count(v)) {
                std::shared_ptr<Learn::EvaluationResult> e;
                la->isRootEvalSkipped(*v, e); // only its address is used
                stale += e != nullptr;
            }
        auto& b = la->getBestRoot();
        if (b.first)
            best.add(ids.vertex(b.first)).add(ratio(b.second->getResult(), b.second->getNbEvaluation()));
        return o("verts", verts)("edges", edges)("roots", roots)("recs", recs)("best", best)("stale", stale);
    }
};

struct Lg : public Log::LALogger
{
    Rec& R;
    bool fresh = false;
    Lg(Learn::LearningAgent& la, Rec& R, std::ostream& o) : Log::LALogger(la, o), R(R)
    {
    }
    void logHeader() override
    {
    }
    void logNewGeneration(uint64_t&) override
    {
        fresh = true;
        for (auto v : R.la->getTPGGraph()->getRootVertices())
            if (dynamic_cast<const TPG::TPGTeam*>(v))
                fresh = false;
    }
    void logAfterPopulateTPG() override
    {
        R.t.emit(R.state(Obj()("e", "Populated"), fresh));
    }
    void logAfterEvaluate(Results& rs) override
    {
        R.t.emit(R.state(Obj()("e", "Evaluated")("results", R.results(rs))));
        R.last = rs;
    }
    void logAfterDecimate() override
    {
        Arr of;
        for (auto& x : R.last)
            if (x.first->getResult() == R.la->getBestScoreLastGen())
                of.add(R.ids.vertex(x.second));
        R.t.emit(R.state(Obj()("e", "Decimated")("top", of)));
        R.last.clear();
    }
    void logAfterValidate(Results& rs) override
    {
        R.t.emit(R.state(Obj()("e", "Validated")("results", R.results(rs))));
    }
    void logEndOfTraining() override
    {
    }
};

template <class Base> struct Agent : public Base
{
    Rec& R;
    template <class... A> Agent(Rec& R, A&&... a) : Base(std::forward<A>(a)...), R(R)
    {
    }
    std::shared_ptr<Learn::EvaluationResult> evaluateJob(TPG::TPGExecutionEngine& tee, const Learn::Job& job,
                                                         uint64_t gen, LearningMode mode,
                                                         Learn::LearningEnvironment& le) const override
    {
        VEnv& v = dynamic_cast<VEnv&>(le);
        v.core.log.clear();
        v.core.players = {job.getRoot()};
        Environment penv(this->env.getInstructionSet(), v.getDataSources(), this->env.getNbRegisters(),
                         this->env.getNbConstant());
        v.core.penv = &penv;
        auto r = Base::evaluateJob(tee, job, gen, mode, le);
        v.core.penv = nullptr;
        std::lock_guard<std::mutex> lock(R.m);
        Arr its;
        for (auto& l : v.core.log)
            its.add(iterJson(l, R.seeds));
        R.t.emit(Obj()("e", "Job")("root", R.ids.vertex(job.getRoot()))("mode", (int)mode)("gen", gen)("iters", its)(
            "res", ratio(r->getResult(), r->getNbEvaluation())));
        return r;
    }
};

template <class Base> static void history(Rnd& r, Trace& t, int steps, int threads)
{
    LearnCfg c;
    Learn::LearningParameters p = randomParams(r, c);
    p.nbThreads = (size_t)threads;
    InstrSet& is = someInstr(c.ncst > 0);
    VEnv le(c, !r.chance(20));
    Rec R(t);
    R.p = p;
    Agent<Base> la(R, le, is.set, p);
    R.la = &la;
    std::ofstream nul("/dev/null");
    Lg lg(la, R, nul);
    t.emit(Obj()("e", "New")("roots", p.mutation.tpg.nbRoots)("ratio", (int)(p.ratioDeletedRoots * 8))(
        "iters", p.nbIterationsPerPolicyEvaluation)("maxacts", p.maxNbActionsPerEval)(
        "maxeval", p.maxNbEvaluationPerPolicy)("nact", c.nbActions)("val", p.doValidation));
    auto init = [&]() {
        la.init(r.next());
        t.emit(R.state(Obj()("e", "Init")("zero", la.getBestScoreLastGen() == 0.0), true));
    };
    init();
    int gen = 0;
    for (int s = 0; s < steps; s++) {
        int k = (int)r.in(0, 99);
        if (k < 70) {
            t.emit(Obj()("e", "Gen")("gen", gen));
            try {
                la.trainOneGeneration((uint64_t)gen);
            }
            catch (std::out_of_range&) { // known finding of C02
                if (p.mutation.tpg.pEdgeDestinationIsAction == 0.0)
                    throw;
                init();
                continue;
            }
            t.emit(Obj()("e", "GenEnd"));
            if (!r.chance(10))
                gen++;
        }
        else if (k < 82) {
            auto vs = la.getTPGGraph()->getVertices();
            auto v = r.pick(vs);
            auto mode = r.chance(50) ? LearningMode::TRAINING : r.chance(50) ? LearningMode::VALIDATION : LearningMode::TESTING;
            t.emit(Obj()("e", "One")("gen", gen)("mode", (int)mode)("v", R.ids.vertex(v)));
            auto e = la.evaluateOneRoot((uint64_t)gen, mode, v);
            t.emit(R.state(Obj()("e", "OneEnd")("res", ratio(e->getResult(), e->getNbEvaluation()))));
        }
        else if (k < 90) {
            auto mode = r.chance(50) ? LearningMode::TRAINING : r.chance(50) ? LearningMode::VALIDATION : LearningMode::TESTING;
            if (la.getTPGGraph()->getNbRootVertices() == 0)
                continue;
            t.emit(Obj()("e", "All")("gen", gen)("mode", (int)mode));
            auto rs = la.evaluateAllRoots((uint64_t)gen, mode);
            t.emit(R.state(Obj()("e", "AllEnd")("results", R.results(rs))));
        }
        else if (k < 94) {
            la.forgetPreviousResults();
            t.emit(R.state(Obj()("e", "Forget")));
        }
        else if (k < 97) {
            if (!la.getBestRoot().first)
                continue;
            la.keepBestPolicy();
            t.emit(R.state(Obj()("e", "KeepBest")));
        }
        else
            init();
    }
}

// ---------------------------------------- selection on every small population
// kinds, scores (two rounds) and number of deletions of up to 4 roots, plus
// one team below the first root team; part k of m
static void selection(Rnd& r, Trace& t, int maxRoots, int part, int parts)
{
    LearnCfg c;
    InstrSet& is = someInstr(false);
    std::ofstream nul("/dev/null");
    long num = 0;
    for (int D = 0; D <= maxRoots; D++) {
        Learn::LearningParameters p = randomParams(r, c);
        p.mutation.tpg.nbRoots = 8;
        p.ratioDeletedRoots = D / 8.0;
        p.maxNbEvaluationPerPolicy = 3;
        VEnv le(c);
        Rec R(t);
        Learn::LearningAgent la(le, is.set, p);
        R.la = &la;
        t.emit(Obj()("e", "New")("roots", 8)("ratio", D)("iters", 1)("maxacts", 1)("maxeval", 3)("nact", c.nbActions)(
            "val", false));
        for (int n = 1; n <= maxRoots; n++) {
            long cases = 1;
            for (int i = 0; i < n; i++)
                cases *= 6;
            for (long k = 0; k < cases; k++) {
                if (num++ % parts != part)
                    continue;
                auto& g = *la.getTPGGraph();
                la.forgetPreviousResults();
                g.clear();
                R.ids = Ids();
                R.past.clear();
                std::vector<const TPG::TPGVertex*> vs;
                std::vector<int> sc;
                long x = k;
                const TPG::TPGVertex* under = nullptr;
                for (int i = 0; i < n; i++) {
                    bool team = x % 2;
                    x /= 2;
                    vs.push_back(team ? (const TPG::TPGVertex*)&g.addNewTeam()
                                      : (const TPG::TPGVertex*)&g.addNewAction((uint64_t)i));
                    sc.push_back((int)(x % 3));
                    x /= 3;
                    if (team && !under && r.chance(50)) {
                        under = &g.addNewTeam();
                        g.addNewEdge(*vs.back(), *under, std::make_shared<Program::Program>(la.getEnvironment()));
                    }
                }
                t.emit(R.state(Obj()("e", "Build"), true));
                auto res = [&](int v, int w) { return std::make_shared<Learn::EvaluationResult>((double)v / w, (size_t)w); };
                if (r.chance(60)) { // an earlier generation
                    Results rs;
                    for (int i = 0; i < n; i++)
                        if (r.chance(70))
                            rs.emplace(res((int)r.in(0, 2), 1), vs[i]);
                    if (rs.empty())
                        rs.emplace(res(1, 1), vs[0]);
                    Arr a = R.results(rs);
                    la.updateEvaluationRecords(rs);
                    t.emit(R.state(Obj()("e", "Update")("results", a)));
                }
                Results rs;
                std::vector<int> order;
                for (int i = 0; i < n; i++)
                    order.insert(order.begin() + r.in(0, (int64_t)order.size()), i);
                for (int i : order)
                    rs.emplace(res(sc[i], 1), vs[i]);
                Arr a = R.results(rs), of;
                std::map<int, double> byId;
                for (auto& y : rs)
                    byId[R.ids.vertex(y.second)] = y.first->getResult();
                la.updateBestScoreLastGen(rs);
                for (auto& y : byId)
                    if (y.second == la.getBestScoreLastGen())
                        of.add(y.first);
                la.decimateWorstRoots(rs);
                // the map keeps exactly the entries of the survivors
                Arr left = R.results(rs);
                la.updateEvaluationRecords(rs);
                t.emit(R.state(Obj()("e", "Select")("results", a)("left", left)("top", of)));
            }
        }
    }
}

// ------------------------------------------------------- algebra of results
static Obj resJson(Learn::EvaluationResult& e)
{
    Obj o;
    o("n", e.getNbEvaluation());
    Arr s, n;
    if (auto c = dynamic_cast<Learn::ClassificationEvaluationResult*>(&e)) {
        o("kind", "C");
        for (size_t i = 0; i < c->getScorePerClass().size(); i++) {
            s.add(ratio(c->getScorePerClass()[i], std::max<size_t>(1, c->getNbEvaluationPerClass()[i])));
            n.add(c->getNbEvaluationPerClass()[i]);
        }
    }
    else if (auto a = dynamic_cast<Learn::AdversarialEvaluationResult*>(&e)) {
        o("kind", "A");
        for (size_t i = 0; i < a->getSize(); i++)
            s.add(ratio(a->getScoreOf((int)i), std::max<size_t>(1, e.getNbEvaluation())));
    }
    else {
        o("kind", "E");
        s.add(ratio(e.getResult(), std::max<size_t>(1, e.getNbEvaluation())));
    }
    double x = e.getResult() * 5040;
    o("s", s)("cn", n)("g", std::isnan(x) || std::fabs(x) > 1e8 ? QNAN : (int)std::lround(x));
    return o;
}
static std::shared_ptr<Learn::EvaluationResult> randomResult(Rnd& r, char kind, int n)
{
    auto sc = [&](int w) { return w == 0 ? 0.0 : (double)r.in(-4 * w, 4 * w) / w; };
    if (kind == 'E') {
        size_t w = (size_t)r.in(0, 4);
        return std::make_shared<Learn::EvaluationResult>(sc((int)w), w);
    }
    if (kind == 'C') {
        std::vector<double> s;
        std::vector<size_t> w;
        for (int i = 0; i < n; i++) {
            w.push_back((size_t)r.in(0, 3));
            s.push_back(sc((int)w.back()));
        }
        return std::make_shared<Learn::ClassificationEvaluationResult>(s, w);
    }
    size_t w = (size_t)r.in(0, 4);
    if (n == 2)
        return std::make_shared<Learn::AdversarialEvaluationResult>(
            std::initializer_list<double>{sc((int)w), sc((int)w)}, w);
    return std::make_shared<Learn::AdversarialEvaluationResult>(
        std::initializer_list<double>{sc((int)w), sc((int)w), sc((int)w)}, w);
}
static void algebra(Rnd& r, Trace& t, int steps)
{
    for (int s = 0; s < steps; s++) {
        char kind = "ECA"[r.in(0, 2)];
        int n = (int)r.in(2, 3);
        auto a = randomResult(r, kind, n);
        t.emit(Obj()("e", "Res")("r", resJson(*a)));
        int k = (int)r.in(1, 4);
        for (int i = 0; i < k; i++) {
            char kk = r.chance(85) ? kind : "ECA"[r.in(0, 2)];
            auto b = randomResult(r, kk, r.chance(90) ? n : 5 - n);
            bool ok = true;
            try {
                *a += *b;
            }
            catch (std::runtime_error&) {
                ok = false;
            }
            t.emit(Obj()("e", "Merge")("b", resJson(*b))("ok", ok)("r", resJson(*a)));
        }
    }
}

int main(int argc, char** argv)
{
    std::string mode = argv[1];
    Rnd r(strtoull(argv[2], nullptr, 10));
    int n = atoi(argv[3]), steps = atoi(argv[4]);
    Trace t(argv[5]);
    for (int i = 0; i < (mode == "select" ? 1 : n); i++) {
        if (mode == "select")
            selection(r, t, n, steps / 100, steps % 100);
        else if (mode == "algebra")
            algebra(r, t, steps);
        else {
            int k = (int)r.in(0, 9);
            if (k < 5)
                history<Learn::LearningAgent>(r, t, steps, 1);
            else if (k < 7)
                history<Learn::ParallelLearningAgent>(r, t, steps, 1);
            else
                history<Learn::ParallelLearningAgent>(r, t, steps, (int)r.in(2, 4));
        }
    }
    return 0;
}
