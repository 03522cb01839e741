// Learning environments and agents of the drivers: every call the library
// makes on an environment is recorded, together with the action the policy
// under evaluation chooses on the same data (asked to a fresh engine).
#ifndef VLEARN_H
#define VLEARN_H
#include "vgraph.h"
#include "learn/adversarialEvaluationResult.h"
#include "learn/adversarialLearningAgent.h"
#include "learn/adversarialLearningEnvironment.h"
#include "learn/classificationEvaluationResult.h"
#include "learn/classificationLearningAgent.h"
#include "learn/classificationLearningEnvironment.h"
#include "learn/parallelLearningAgent.h"
#include "log/laLogger.h"
#include "tpg/tpgExecutionEngine.h"
#include <chrono>
#include <condition_variable>
#include <mutex>
#include <thread>
namespace vt {
    struct LearnCfg
    {
        int nbActions = 3, nd = 3, ni = 2; // actions, size of the two sources
        int maxLen = 4;                    // episodes last 0..maxLen actions
        int scoreRange = 4;                // scores -scoreRange..scoreRange
        int salt = 0;
        int nreg = 4, ncst = 0;
    };
    struct IterLog
    {
        uint64_t seed;
        int mode, iter, gen;
        int limit;                             // the episode ends after so many actions
        std::vector<int> acts, expected, who;  // done, chosen by the policy
        std::vector<int> scores;               // one per agent
        int asked = 0;                         // number of score readings
        int weight = 1;                        // evaluations the scores stand for
        bool late = false;                     // acted on a terminal environment
    };
    inline uint64_t mixu(uint64_t a, uint64_t b)
    {
        Rnd r(a * 31 + b * 7919 + 17);
        r.s ^= b;
        return r.next();
    }

    struct EnvCore
    {
        LearnCfg c;
        Data::PrimitiveTypeArray<double> d;
        Data::PrimitiveTypeArray<int> k;
        int copy = 0;
        // evaluation under way (set by the agent of the driver)
        std::vector<const TPG::TPGVertex*> players;
        const Environment* penv = nullptr;
        std::vector<IterLog> log;
        uint64_t h = 0;
        static int nextCopy()
        {
            static std::mutex m;
            static int n = 0;
            std::lock_guard<std::mutex> g(m);
            return n++;
        }
        explicit EnvCore(const LearnCfg& c) : c(c), d(c.nd), k(c.ni), copy(nextCopy())
        {
        }
        EnvCore(const EnvCore& o) : c(o.c), d(o.d), k(o.k), copy(nextCopy()), h(o.h)
        {
        }
        std::vector<std::reference_wrapper<const Data::DataHandler>> refs()
        {
            return {d, k};
        }
        void redraw()
        {
            Rnd r(h);
            for (int i = 0; i < c.nd; i++)
                // never only zeros: no program would be novel on such data
                d.setDataAt(typeid(double), i, (double)(i == 0 ? r.in(1, 3) : r.in(-3, 3)));
            for (int i = 0; i < c.ni; i++)
                k.setDataAt(typeid(int), i, (int)r.in(-3, 3));
        }
        void start(uint64_t seed, int mode, uint64_t iter, uint64_t gen)
        {
            h = mixu(mixu(seed, (uint64_t)mode), (uint64_t)c.salt);
            IterLog l;
            l.seed = seed;
            l.mode = mode;
            l.iter = (int)iter;
            l.gen = (int)gen;
            l.limit = (int)(h % (uint64_t)(c.maxLen + 1));
            log.push_back(l);
            redraw();
        }
        void act(uint64_t a)
        {
            if (log.empty())
                start(0, -1, 0, 0);
            IterLog& l = log.back();
            int exp = -1, w = -1;
            if (penv && !players.empty()) {
                w = (int)(l.acts.size() % players.size());
                TPG::TPGExecutionEngine e(*penv, nullptr);
                exp = (int)((const TPG::TPGAction*)e.executeFromRoot(*players[w]).back())->getActionID();
            }
            if (over())
                l.late = true;
            l.acts.push_back((int)a);
            l.expected.push_back(exp);
            l.who.push_back(w);
            // every other step leaves the data, so that data recur
            h = mixu(h, a + 1 + (h & 1));
            if (h % 4 != 0)
                redraw();
        }
        bool over() const
        {
            return !log.empty() && (int)log.back().acts.size() >= log.back().limit;
        }
        int score(int pos)
        {
            uint64_t x = mixu(h, 99 + (uint64_t)pos);
            return (int)(x % (uint64_t)(2 * c.scoreRange + 1)) - c.scoreRange;
        }
    };

    struct VEnv : public Learn::LearningEnvironment
    {
        mutable EnvCore core;
        bool copyable;
        VEnv(const LearnCfg& c, bool copyable = true)
            : Learn::LearningEnvironment((uint64_t)c.nbActions), core(c), copyable(copyable)
        {
        }
        VEnv(const VEnv& o) = default;
        Learn::LearningEnvironment* clone() const override
        {
            return new VEnv(*this);
        }
        bool isCopyable() const override
        {
            return copyable;
        }
        std::vector<std::reference_wrapper<const Data::DataHandler>> getDataSources() override
        {
            return core.refs();
        }
        void reset(size_t seed, Learn::LearningMode mode, uint16_t it, uint64_t gen) override
        {
            core.start(seed, (int)mode, it, gen);
        }
        void doAction(uint64_t a) override
        {
            Learn::LearningEnvironment::doAction(a);
            core.act(a);
        }
        bool isTerminal() const override
        {
            return core.over();
        }
        double getScore() const override
        {
            int s = core.score(0);
            if (!core.log.empty()) {
                core.log.back().scores = {s};
                core.log.back().asked++;
            }
            return s;
        }
    };

    inline std::shared_ptr<Learn::AdversarialEvaluationResult> advResult(const std::vector<int>& s, size_t n)
    {
        typedef std::initializer_list<double> L;
        auto mk = [&](L l) { return std::make_shared<Learn::AdversarialEvaluationResult>(l, n); };
        switch (s.size()) {
        case 1: return mk(L{(double)s[0]});
        case 2: return mk(L{(double)s[0], (double)s[1]});
        case 3: return mk(L{(double)s[0], (double)s[1], (double)s[2]});
        default: return mk(L{(double)s[0], (double)s[1], (double)s[2], (double)s[3]});
        }
    }
    // several agents act in turn
    struct AEnv : public Learn::AdversarialLearningEnvironment
    {
        mutable EnvCore core;
        int agents;
        size_t weight;
        bool copyable;
        bool varying = false; // the weight depends on the episode
        AEnv(const LearnCfg& c, int agents, size_t weight = 1, bool copyable = true)
            : Learn::AdversarialLearningEnvironment((uint64_t)c.nbActions), core(c), agents(agents), weight(weight),
              copyable(copyable)
        {
        }
        AEnv(const AEnv& o) = default;
        Learn::LearningEnvironment* clone() const override
        {
            return new AEnv(*this);
        }
        bool isCopyable() const override
        {
            return copyable;
        }
        std::vector<std::reference_wrapper<const Data::DataHandler>> getDataSources() override
        {
            return core.refs();
        }
        void reset(size_t seed, Learn::LearningMode mode, uint16_t it, uint64_t gen) override
        {
            core.start(seed, (int)mode, it, gen);
        }
        void doAction(uint64_t a) override
        {
            Learn::LearningEnvironment::doAction(a);
            core.act(a);
        }
        bool isTerminal() const override
        {
            return core.over();
        }
        std::shared_ptr<Learn::AdversarialEvaluationResult> getScores() const override
        {
            std::vector<int> s;
            for (int i = 0; i < agents; i++)
                s.push_back(core.score(i));
            size_t w = varying ? 1 + (core.h >> 9) % 3 : weight;
            if (!core.log.empty()) {
                core.log.back().scores = s;
                core.log.back().weight = (int)w;
                core.log.back().asked++;
            }
            return advResult(s, w);
        }
    };
    // guesses of the class of the current sample
    struct CEnv : public Learn::ClassificationLearningEnvironment
    {
        mutable EnvCore core;
        bool copyable;
        std::vector<std::vector<int>> guesses; // per episode: class * 100 + guess
        CEnv(const LearnCfg& c, bool copyable = true)
            : Learn::ClassificationLearningEnvironment((uint64_t)c.nbActions), core(c), copyable(copyable)
        {
        }
        CEnv(const CEnv& o) = default;
        Learn::LearningEnvironment* clone() const override
        {
            return new CEnv(*this);
        }
        bool isCopyable() const override
        {
            return copyable;
        }
        std::vector<std::reference_wrapper<const Data::DataHandler>> getDataSources() override
        {
            return core.refs();
        }
        void sample()
        { // some classes are rare
            currentClass = (core.h >> 8) % 5 == 0 ? (core.h >> 16) % (uint64_t)core.c.nbActions : (core.h >> 16) % 2;
        }
        void reset(size_t seed, Learn::LearningMode mode, uint16_t it, uint64_t gen) override
        {
            Learn::ClassificationLearningEnvironment::reset(seed, mode, it, gen);
            core.start(seed, (int)mode, it, gen);
            guesses.emplace_back();
            sample();
        }
        void doAction(uint64_t a) override
        {
            if (guesses.empty())
                guesses.emplace_back();
            guesses.back().push_back((int)(currentClass * 100 + a));
            Learn::ClassificationLearningEnvironment::doAction(a);
            core.act(a);
            sample();
        }
        bool isTerminal() const override
        {
            return core.over();
        }
    };

    // (numerator, denominator) of a mean of integers over n evaluations;
    // an undefined or non-rational one is shown as such
    inline Arr ratio(double result, size_t n)
    {
        Arr a;
        double x = result * (double)n;
        if (std::isnan(x) || std::isinf(x))
            return a.add(QNAN).add((int)n);
        double y = std::round(x);
        if (std::fabs(x - y) > 1e-6 * (1 + std::fabs(x)))
            return a.add(ODD).add((int)n);
        return a.add((int)y).add((int)n);
    }
    // names for large numbers (seeds)
    struct Nums
    {
        std::map<uint64_t, int> m;
        int operator()(uint64_t x)
        {
            auto i = m.find(x);
            return i != m.end() ? i->second : (m[x] = (int)m.size() + 1);
        }
    };
    inline Obj iterJson(const IterLog& l, Nums& seeds)
    {
        return Obj()("seed", seeds(l.seed))("mode", l.mode)("iter", l.iter)("gen", l.gen)("limit", l.limit)(
            "acts", l.acts)("exp", l.expected)("who", l.who)("scores", l.scores)("asked", l.asked)("late", l.late);
    }

    struct InstrSet
    {
        std::vector<std::unique_ptr<Instructions::Instruction>> own;
        Instructions::Set set;
        InstrSet(std::initializer_list<int> codes)
        {
            for (int c : codes) {
                own.emplace_back(op(c).make());
                set.add(*own.back());
            }
        }
    };
    // one instruction set shared by every agent of a process
    inline InstrSet& someInstr(bool cst)
    {
        static InstrSet a{1, 2, 3, 5, 6, 7, 12, 15}, b{1, 2, 3, 4, 5, 6, 7, 13};
        return cst ? b : a;
    }

    inline Learn::LearningParameters randomParams(Rnd& r, LearnCfg& c, int maxRoots = 8)
    {
        Learn::LearningParameters p;
        c.nbActions = (int)r.in(2, 4);
        c.nd = (int)r.in(2, 4);
        c.ni = (int)r.in(1, 3);
        c.maxLen = (int)r.in(1, 5);
        c.scoreRange = (int)r.in(1, 5);
        c.salt = (int)r.in(0, 1000000);
        c.nreg = (int)r.in(2, 5);
        c.ncst = r.chance(40) ? (int)r.in(1, 3) : 0;
        auto& q = p.mutation.tpg;
        q.nbActions = (size_t)c.nbActions;
        q.nbRoots = (size_t)r.in(2, maxRoots);
        q.maxInitOutgoingEdges = (size_t)r.in(2, std::min(3, c.nbActions));
        q.maxOutgoingEdges = q.maxInitOutgoingEdges + (size_t)r.in(0, 2);
        q.pEdgeDeletion = r.in(1, 9) / 10.0;
        q.pEdgeAddition = r.in(1, 9) / 10.0;
        q.pProgramMutation = r.in(1, 10) / 10.0;
        q.pEdgeDestinationChange = r.in(0, 10) / 10.0;
        q.pEdgeDestinationIsAction = r.chance(50) ? 0.0 : r.in(1, 8) / 10.0;
        q.forceProgramBehaviorChangeOnMutation = r.chance(30);
        auto& g = p.mutation.prog;
        g.maxProgramSize = (size_t)r.in(3, 8);
        g.pConstantMutation = 0.3;
        g.minConstValue = -5;
        g.maxConstValue = 5;
        p.archiveSize = (size_t)r.in(0, 12);
        p.archivingProbability = r.chance(30) ? 1.0 : r.in(1, 9) / 10.0;
        p.nbIterationsPerPolicyEvaluation = (uint64_t)r.in(1, 3);
        p.maxNbActionsPerEval = (uint64_t)r.in(1, 6);
        static const std::vector<int> eighths = {0, 1, 2, 4, 4, 4, 5, 6, 7, 8};
        p.ratioDeletedRoots = r.pick(eighths) / 8.0;
        p.maxNbEvaluationPerPolicy = (size_t)r.in(1, 8);
        p.nbRegisters = (size_t)c.nreg;
        p.nbProgramConstant = (size_t)c.ncst;
        p.nbThreads = 1;
        p.doValidation = r.chance(40);
        return p;
    }
} // namespace vt
#endif
