// C13: adversarial trainings: every match of every round, with the policies
// that played, the environment's call log and the results.
#include "vlearn.h"
#include "learn/adversarialJob.h"
using namespace vt;
using Learn::LearningMode;
typedef std::multimap<std::shared_ptr<Learn::EvaluationResult>, const TPG::TPGVertex*> Results;

struct Rec
{
    Trace& t;
    Ids ids;
    Nums seeds;
    std::mutex m;
    Learn::LearningParameters p;
    int agents = 2;
    bool custom = false;
    TPG::TPGGraph* g = nullptr;
    Rnd r{1};
    bool restarted = false; // no team root left: the next population step starts from scratch
    explicit Rec(Trace& t) : t(t)
    {
    }
    void sync()
    {
        ids.sync({g});
    }
    void round(LearningMode mode, uint64_t gen)
    {
        sync();
        Arr verts, roots;
        for (auto v : g->getVertices())
            verts.add(ids.vertex(v));
        for (auto v : g->getRootVertices())
            roots.add(ids.vertex(v));
        t.emit(Obj()("e", "Round")("mode", (int)mode)("gen", gen)("verts", verts)("roots", roots)("custom", custom)("fresh", restarted));
        restarted = false;
    }
    void end(const Results& rs)
    {
        Arr a;
        for (auto& x : rs)
            a.add(Arr().add(ids.vertex(x.second)).add(ratio(x.first->getResult(), x.first->getNbEvaluation())));
        t.emit(Obj()("e", "RoundEnd")("results", a));
    }
};

struct Agent : public Learn::AdversarialLearningAgent
{
    Rec& R;
    Agent(Rec& R, AEnv& le, const Instructions::Set& is, const Learn::LearningParameters& p, size_t n)
        : Learn::AdversarialLearningAgent(le, is, p, n), R(R)
    {
    }
    std::shared_ptr<Learn::EvaluationResult> evaluateJob(TPG::TPGExecutionEngine& tee, const Learn::Job& job, uint64_t gen,
                                                         LearningMode mode, Learn::LearningEnvironment& le) const override
    {
        auto& aj = dynamic_cast<const Learn::AdversarialJob&>(job);
        auto& env = dynamic_cast<AEnv&>(le);
        EnvCore& core = env.core;
        core.log.clear();
        core.players = aj.getRoots();
        {
            // no match may use a policy that left the graph
            std::lock_guard<std::mutex> l(R.m);
            auto vs = R.g->getVertices();
            bool live = true;
            for (auto v : core.players)
                live = live && std::find(vs.begin(), vs.end(), v) != vs.end();
            if (!live) {
                R.t.emit(Obj()("e", "Dead")("n", aj.getSize()));
                throw std::logic_error("a match uses a removed policy");
            }
        }
        // actions the policies choose are asked to a fresh engine on the same data
        std::unique_ptr<Environment> penv(
            new Environment(this->env.getInstructionSet(), le.getDataSources(), this->env.getNbRegisters(), this->env.getNbConstant()));
        core.penv = penv.get();
        auto r = Learn::AdversarialLearningAgent::evaluateJob(tee, job, gen, mode, le);
        core.penv = nullptr;
        core.players.clear();
        auto res = std::dynamic_pointer_cast<Learn::AdversarialEvaluationResult>(r);
        std::lock_guard<std::mutex> l(R.m);
        Arr ps, its, sc;
        for (auto v : aj.getRoots())
            ps.add(R.ids.vertex(v));
        for (auto& i : core.log)
            its.add(Obj()("iter", i.iter)("gen", i.gen)("mode", i.mode)("seed", R.seeds(i.seed))("limit", i.limit)("acts", i.acts)(
                "exp", i.expected)("sc", i.scores)("w", i.weight)("late", i.late));
        if (res)
            for (size_t i = 0; i < res->getSize(); i++)
                sc.add(ratio(res->getScoreOf((int)i), res->getNbEvaluation()));
        R.t.emit(Obj()("e", "Match")("players", ps)("pos", (int)aj.getPosOfStudiedRoot())("iters", its)("sc", sc)("n", r->getNbEvaluation()));
        return r;
    }
    std::queue<std::shared_ptr<Learn::Job>> makeJobs(LearningMode mode, TPG::TPGGraph* g = nullptr) override
    {
        if (!R.custom)
            return Learn::AdversarialLearningAgent::makeJobs(mode, g);
        // matches of a user: any policies, one studied position or none
        std::queue<std::shared_ptr<Learn::Job>> q;
        auto roots = this->tpg->getRootVertices();
        size_t idx = 0;
        for (size_t k = 0; k < roots.size() * 2; k++) {
            std::vector<const TPG::TPGVertex*> pl;
            for (int i = 0; i < R.agents; i++)
                pl.push_back(R.r.pick(roots));
            int pos = (int)R.r.in(-1, R.agents - 1);
            if (k < roots.size())
                pl[(size_t)std::max(0, pos)] = roots[k];
            auto j = std::make_shared<Learn::AdversarialJob>(
                Learn::AdversarialJob({}, this->rng.getUnsignedInt64(0, UINT64_MAX), idx++, (int16_t)pos));
            for (auto v : pl)
                j->addRoot(v);
            q.push(j);
        }
        return q;
    }
};
struct Lg : public Log::LALogger
{
    Rec& R;
    uint64_t gen = 0;
    Lg(Learn::LearningAgent& la, Rec& R, std::ostream& o) : Log::LALogger(la, o), R(R)
    {
    }
    void logHeader() override
    {
    }
    void logNewGeneration(uint64_t& g) override
    {
        gen = g;
        bool team = false;
        for (auto v : R.g->getRootVertices())
            team = team || !dynamic_cast<const TPG::TPGAction*>(v);
        if (!team) {
            R.restarted = true;
            R.ids = Ids();
        }
    }
    void logAfterPopulateTPG() override
    {
        R.round(LearningMode::TRAINING, gen);
    }
    void logAfterEvaluate(Results& rs) override
    {
        R.end(rs);
    }
    void logAfterDecimate() override
    {
        R.sync();
        if (R.p.doValidation)
            R.round(LearningMode::VALIDATION, gen);
    }
    void logAfterValidate(Results& rs) override
    {
        R.end(rs);
    }
    void logEndOfTraining() override
    {
    }
};

int main(int argc, char** argv)
{
    uint64_t seed = strtoull(argv[1], nullptr, 10);
    int n = atoi(argv[2]), gens = atoi(argv[3]);
    Trace t(argv[argc - 1]);
    Rnd r(seed);
    std::ofstream nul("/dev/null");
    for (int i = 0; i < n; i++) {
        LearnCfg c;
        auto p = randomParams(r, c, 6);
        int agents = (int)r.in(1, 4);
        p.nbIterationsPerJob = (uint64_t)r.in(1, 3);
        p.nbIterationsPerPolicyEvaluation = (uint64_t)r.in(1, (int)(agents * (int)p.nbIterationsPerJob * 2 + 2));
        p.nbThreads = (size_t)r.in(0, 4);
        if (r.chance(25))
            p.ratioDeletedRoots = r.chance(50) ? 0.0 : 1.0;
        p.mutation.tpg.pEdgeDestinationIsAction = r.chance(60) ? 0.0 : p.mutation.tpg.pEdgeDestinationIsAction;
        auto& is = someInstr(c.ncst > 0).set;
        AEnv le(c, agents, (size_t)r.in(1, 3), true);
        le.varying = r.chance(60);
        Rec R(t);
        R.p = p;
        R.agents = agents;
        R.custom = r.chance(25);
        R.r = Rnd(r.next());
        Agent la(R, le, is, p, (size_t)agents);
        R.g = la.getTPGGraph().get();
        Lg lg(la, R, nul);
        t.emit(Obj()("e", "New")("agents", agents)("iters", p.nbIterationsPerPolicyEvaluation)("perjob", p.nbIterationsPerJob)(
            "maxacts", p.maxNbActionsPerEval)("keepnum", 8 - (int)std::lround(p.ratioDeletedRoots * 8))("keepden", 8));
        for (int k = 0; k < 2; k++) {
            la.init(r.next());
            R.ids = Ids();
            t.emit(Obj()("e", "Init"));
            try {
                for (int g = 0; g < gens; g++)
                    la.trainOneGeneration((uint64_t)g);
            }
            catch (std::out_of_range&) { // known finding of C02
                if (p.mutation.tpg.pEdgeDestinationIsAction == 0.0)
                    throw;
                break;
            }
        }
    }
    return 0;
}
