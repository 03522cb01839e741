// C14: confusion tables, F1 scores, and selection of classification agents.
#include "vlearn.h"
using namespace vt;
using Learn::LearningMode;
typedef std::multimap<std::shared_ptr<Learn::EvaluationResult>, const TPG::TPGVertex*> Results;

static int fx(double x)
{
    double y = x * 1e6;
    return std::isnan(y) || std::fabs(y) > 1e9 ? 999999999 : (int)std::llround(y);
}
static Arr tableJson(const std::vector<std::vector<uint64_t>>& t)
{
    Arr a;
    for (auto& row : t) {
        Arr b;
        for (auto x : row)
            b.add((int)x);
        a.add(b);
    }
    return a;
}

// ---------------------------------------------------- histories of guesses
struct GEnv : public CEnv
{
    using CEnv::CEnv;
    void setClass(uint64_t c)
    {
        currentClass = c;
    }
};
static void guesses(Rnd& r, Trace& t, int steps)
{
    LearnCfg c;
    c.nbActions = (int)r.in(1, 6);
    std::vector<std::unique_ptr<GEnv>> es;
    es.emplace_back(new GEnv(c));
    auto show = [&](Obj o, size_t i) {
        t.emit(o("i", (int)i + 1)("table", tableJson(es[i]->getClassificationTable()))("score", fx(es[i]->getScore())));
    };
    show(Obj()("e", "NewEnv")("n", c.nbActions), 0);
    int right = (int)r.in(0, 90), classes = (int)r.in(1, c.nbActions);
    for (int s = 0; s < steps; s++) {
        size_t i = (size_t)r.in(0, (int64_t)es.size() - 1);
        int k = (int)r.in(0, 99);
        if (k < 88) {
            uint64_t cl = (uint64_t)r.in(0, classes - 1), g = r.chance(right) ? cl : (uint64_t)r.in(0, c.nbActions - 1);
            if (r.chance(3))
                g = (uint64_t)(c.nbActions + r.in(0, 2));
            es[i]->setClass(cl);
            bool ok = true;
            try {
                es[i]->doAction(g);
            }
            catch (std::runtime_error&) {
                ok = false;
            }
            show(Obj()("e", "Guess")("class", (int)cl + 1)("guess", (int)g + 1)("ok", ok), i);
        }
        else if (k < 92) {
            es[i]->reset(r.next(), r.chance(50) ? LearningMode::TRAINING : LearningMode::TESTING, 0, 0);
            show(Obj()("e", "Reset"), i);
        }
        else if (k < 94 && es.size() < 4) {
            es.emplace_back(new GEnv(*es[i]));
            t.emit(Obj()("e", "Copy")("i", (int)i + 1)("table", tableJson(es.back()->getClassificationTable()))(
                "score", fx(es.back()->getScore())));
        }
        else
            show(Obj()("e", "Look"), i);
    }
}

// ------------------------------------------------------------- trainings
static Obj resJson(const Learn::EvaluationResult& e)
{
    Obj o;
    Arr s, n;
    if (auto c = dynamic_cast<const Learn::ClassificationEvaluationResult*>(&e))
        for (size_t i = 0; i < c->getScorePerClass().size(); i++) {
            s.add(fx(c->getScorePerClass()[i]));
            n.add((int)c->getNbEvaluationPerClass()[i]);
        }
    return o("g", fx(e.getResult()))("tot", e.getNbEvaluation())("s", s)("n", n);
}
struct Rec
{
    Trace& t;
    Ids ids;
    std::mutex m;
    std::set<const TPG::TPGVertex*> past;
    Learn::LearningAgent* la = nullptr;
    Results last;
    explicit Rec(Trace& t) : t(t)
    {
    }
    Arr results(const Results& rs)
    {
        Arr a;
        for (auto& x : rs)
            a.add(Arr().add(ids.vertex(x.second)).add(resJson(*x.first)));
        return a;
    }
    Obj state(Obj o, bool fresh = false)
    {
        auto& g = *la->getTPGGraph();
        if (fresh)
            ids = Ids();
        ids.sync({&g});
        Arr verts, edges, roots, recs, best;
        std::set<const TPG::TPGVertex*> live;
        for (auto v : g.getVertices()) {
            live.insert(v);
            past.insert(v);
            verts.add(Arr().add(ids.vertex(v)).add(dynamic_cast<const TPG::TPGAction*>(v) ? "A" : "T"));
            std::shared_ptr<Learn::EvaluationResult> e;
            la->isRootEvalSkipped(*v, e);
            if (e)
                recs.add(Arr().add(ids.vertex(v)).add(resJson(*e)));
        }
        for (auto v : g.getRootVertices())
            roots.add(ids.vertex(v));
        for (auto& e : g.getEdges())
            edges.add(Arr().add(ids.vertex(e->getSource())).add(ids.vertex(e->getDestination())));
        int stale = 0;
        for (auto v : past)
            if (!live.count(v)) {
                std::shared_ptr<Learn::EvaluationResult> e;
                la->isRootEvalSkipped(*v, e); // only its address is used
                stale += e != nullptr;
            }
        auto& b = la->getBestRoot();
        if (b.first)
            best.add(ids.vertex(b.first)).add(fx(b.second->getResult())).add((int)b.second->getNbEvaluation());
        return o("verts", verts)("edges", edges)("roots", roots)("recs", recs)("best", best)("stale", stale);
    }
};
struct Lg : public Log::LALogger
{
    Rec& R;
    bool fresh = false;
    Lg(Learn::LearningAgent& la, Rec& R, std::ostream& o) : Log::LALogger(la, o), R(R)
    {
    }
    void logHeader() override
    {
    }
    void logNewGeneration(uint64_t&) override
    {
        fresh = true;
        for (auto v : R.la->getTPGGraph()->getRootVertices())
            if (dynamic_cast<const TPG::TPGTeam*>(v))
                fresh = false;
    }
    void logAfterPopulateTPG() override
    {
        R.t.emit(R.state(Obj()("e", "Populated"), fresh));
    }
    void logAfterEvaluate(Results& rs) override
    {
        R.t.emit(R.state(Obj()("e", "Evaluated")("results", R.results(rs))));
    }
    void logAfterDecimate() override
    {
        R.t.emit(R.state(Obj()("e", "Decimated")("top", fx(R.la->getBestScoreLastGen()))));
    }
    void logAfterValidate(Results& rs) override
    {
        R.t.emit(R.state(Obj()("e", "Validated")("results", R.results(rs))));
    }
    void logEndOfTraining() override
    {
    }
};
template <class Base> struct Agent : public Base
{
    Rec& R;
    template <class... A> Agent(Rec& R, A&&... a) : Base(std::forward<A>(a)...), R(R)
    {
    }
    std::shared_ptr<Learn::EvaluationResult> evaluateJob(TPG::TPGExecutionEngine& tee, const Learn::Job& job,
                                                         uint64_t gen, LearningMode mode,
                                                         Learn::LearningEnvironment& le) const override
    {
        CEnv& v = dynamic_cast<CEnv&>(le);
        v.core.log.clear();
        v.guesses.clear();
        v.core.players = {job.getRoot()};
        Environment penv(this->env.getInstructionSet(), v.getDataSources(), this->env.getNbRegisters(),
                         this->env.getNbConstant());
        v.core.penv = &penv;
        auto r = Base::evaluateJob(tee, job, gen, mode, le);
        v.core.penv = nullptr;
        std::lock_guard<std::mutex> lock(R.m);
        Arr its;
        for (size_t k = 0; k < v.core.log.size(); k++) {
            auto& l = v.core.log[k];
            Arr gs;
            if (k < v.guesses.size())
                for (int x : v.guesses[k])
                    gs.add(Arr().add(x / 100 + 1).add(x % 100 + 1));
            its.add(Obj()("mode", l.mode)("iter", l.iter)("gen", l.gen)("limit", l.limit)("acts", l.acts)("exp", l.expected)(
                "late", l.late)("guesses", gs));
        }
        R.t.emit(Obj()("e", "Job")("root", R.ids.vertex(job.getRoot()))("mode", (int)mode)("gen", gen)("iters", its)(
            "res", resJson(*r)));
        return r;
    }
};
static Obj newEvent(const Learn::LearningParameters& p, const LearnCfg& c)
{
    return Obj()("e", "New")("roots", p.mutation.tpg.nbRoots)("ratio", (int)(p.ratioDeletedRoots * 8))(
        "iters", p.nbIterationsPerPolicyEvaluation)("maxacts", p.maxNbActionsPerEval)(
        "maxeval", p.maxNbEvaluationPerPolicy)("nact", c.nbActions)("val", p.doValidation);
}
template <class Base> static void training(Rnd& r, Trace& t, int steps, int threads)
{
    LearnCfg c;
    Learn::LearningParameters p = randomParams(r, c, 14);
    c.nbActions = (int)r.in(2, 3);
    p.mutation.tpg.nbActions = (size_t)c.nbActions;
    p.mutation.tpg.maxInitOutgoingEdges = 2;
    p.nbThreads = (size_t)threads;
    p.maxNbEvaluationPerPolicy = (size_t)r.in(1, 20);
    c.maxLen = (int)r.in(2, 9);
    p.maxNbActionsPerEval = (uint64_t)r.in(2, 9);
    InstrSet& is = someInstr(c.ncst > 0);
    CEnv le(c, !r.chance(20));
    Rec R(t);
    Agent<Learn::ClassificationLearningAgent<Base>> la(R, le, is.set, p);
    R.la = &la;
    std::ofstream nul("/dev/null");
    Lg lg(la, R, nul);
    t.emit(newEvent(p, c));
    auto init = [&]() {
        la.init(r.next());
        t.emit(R.state(Obj()("e", "Init"), true));
    };
    init();
    int gen = 0;
    for (int s = 0; s < steps; s++) {
        int k = (int)r.in(0, 99);
        if (k < 84) {
            t.emit(Obj()("e", "Gen")("gen", gen));
            try {
                la.trainOneGeneration((uint64_t)gen);
            }
            catch (std::out_of_range&) { // known finding of C02
                if (p.mutation.tpg.pEdgeDestinationIsAction == 0.0)
                    throw;
                init();
                continue;
            }
            t.emit(Obj()("e", "GenEnd"));
            gen++;
        }
        else if (k < 96) {
            auto v = r.pick(la.getTPGGraph()->getVertices());
            auto mode = r.chance(50) ? LearningMode::TRAINING : LearningMode::TESTING;
            t.emit(Obj()("e", "One")("gen", gen)("mode", (int)mode)("v", R.ids.vertex(v)));
            la.evaluateOneRoot((uint64_t)gen, mode, v);
            t.emit(R.state(Obj()("e", "OneEnd")));
        }
        else
            init();
    }
}

// ---------------------------------------- selection on constructed populations
static void selection(Rnd& r, Trace& t, int cases)
{
    LearnCfg c;
    InstrSet& is = someInstr(false);
    std::ofstream nul("/dev/null");
    Learn::LearningParameters p = randomParams(r, c);
    c.nbActions = (int)r.in(1, 4);
    p.mutation.tpg.nbActions = (size_t)c.nbActions;
    CEnv le(c);
    Rec R(t);
    Learn::ClassificationLearningAgent<Learn::LearningAgent> la(le, is.set, p);
    R.la = &la;
    t.emit(newEvent(p, c));
    for (int k = 0; k < cases; k++) {
        int n = (int)r.in(1, r.chance(30) ? 24 : 14), range = (int)r.in(1, 4), actions = n > 14 || r.chance(50) ? 0 : (int)r.in(10, 60);
        auto& g = *la.getTPGGraph();
        la.forgetPreviousResults();
        g.clear();
        R.ids = Ids();
        R.past.clear();
        std::vector<const TPG::TPGVertex*> vs;
        const TPG::TPGVertex* under = nullptr;
        for (int i = 0; i < n; i++) {
            bool team = !r.chance(actions);
            vs.push_back(team ? (const TPG::TPGVertex*)&g.addNewTeam()
                              : (const TPG::TPGVertex*)&g.addNewAction((uint64_t)(i % c.nbActions)));
            if (team && !under && r.chance(50)) {
                under = &g.addNewTeam();
                g.addNewEdge(*vs.back(), *under, std::make_shared<Program::Program>(la.getEnvironment()));
            }
        }
        t.emit(R.state(Obj()("e", "Build"), true));
        Results rs;
        std::vector<int> order;
        for (int i = 0; i < n; i++)
            order.insert(order.begin() + r.in(0, (int64_t)order.size()), i);
        bool skew = r.chance(50); // specialists
        bool experts = r.chance(35); // experts of one class that are bad elsewhere, among generalists
        int nexp = c.nbActions * (int)r.in(1, 3);
        for (int i : order) {
            std::vector<double> s;
            std::vector<size_t> w;
            for (int a = 0; a < c.nbActions; a++) {
                int x = (int)r.in(0, range);
                if (skew)
                    x = i % c.nbActions == a ? x + range : x / 2;
                if (experts)
                    x = i >= nexp ? (int)r.in(3, 4) : i % c.nbActions == a ? 5 + i / c.nbActions : 0;
                s.push_back(x / 8.0);
                w.push_back((size_t)r.in(1, 3));
            }
            rs.emplace(std::make_shared<Learn::ClassificationEvaluationResult>(s, w), vs[i]);
        }
        if (r.chance(10)) {
            Results bad;
            for (auto v : vs)
                bad.emplace(std::make_shared<Learn::EvaluationResult>(0.5, 1), v);
            bool refused = false;
            try {
                la.decimateWorstRoots(bad);
            }
            catch (std::runtime_error&) {
                refused = true;
            }
            t.emit(R.state(Obj()("e", "Refuse")("refused", refused)));
        }
        Arr a = R.results(rs);
        la.updateBestScoreLastGen(rs);
        la.decimateWorstRoots(rs);
        Arr left = R.results(rs);
        la.updateEvaluationRecords(rs);
        t.emit(R.state(Obj()("e", "Select")("results", a)("left", left)));
    }
}

int main(int argc, char** argv)
{
    std::string mode = argv[1];
    Rnd r(strtoull(argv[2], nullptr, 10));
    int n = atoi(argv[3]), steps = atoi(argv[4]);
    Trace t(argv[5]);
    for (int i = 0; i < n; i++) {
        if (mode == "guess")
            guesses(r, t, steps);
        else if (mode == "select") {
            // the deletion ratio is a parameter of the agent
            selection(r, t, steps);
        }
        else if (r.chance(50))
            training<Learn::LearningAgent>(r, t, steps, 1);
        else
            training<Learn::ParallelLearningAgent>(r, t, steps, (int)r.in(1, 4));
    }
    return 0;
}
