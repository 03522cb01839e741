// C09/C10: complete trainings of every kind of agent, observed generation by
// generation: repeated, interleaved with other agents, re-initialised, and
// with several threads under imposed completion orders.
#include "vlearn.h"
#include <algorithm>
#include <atomic>
using namespace vt;
using Learn::LearningMode;
typedef std::multimap<std::shared_ptr<Learn::EvaluationResult>, const TPG::TPGVertex*> Results;

struct Dig
{
    uint64_t h = 1469598103934665603ull;
    void operator()(uint64_t v)
    {
        h ^= v + 0x9E3779B97F4A7C15ull;
        h *= 1099511628211ull;
        h ^= h >> 29;
    }
    void operator()(const std::string& s)
    {
        for (char c : s)
            (*this)((uint64_t)(unsigned char)c);
    }
    std::string str() const
    {
        char b[24];
        snprintf(b, sizeof b, "%016llx", (unsigned long long)h);
        return b;
    }
};
static std::string num(double d)
{
    char b[40];
    snprintf(b, sizeof b, "%.17g", d);
    return b;
}
static EnvCore& coreOf(Learn::LearningEnvironment& le)
{
    if (auto x = dynamic_cast<VEnv*>(&le))
        return x->core;
    if (auto x = dynamic_cast<AEnv*>(&le))
        return x->core;
    return dynamic_cast<CEnv&>(le).core;
}

// Imposes the order in which the jobs of a round end (as far as possible)
struct Gate
{
    std::mutex m;
    std::condition_variable cv;
    std::vector<int> order;
    size_t pos = 0;
    bool on = false;
    int gaveUp = 0;
    void start(const std::vector<int>& o)
    {
        std::lock_guard<std::mutex> l(m);
        order = o;
        pos = 0;
        on = true;
    }
    void pass(int idx)
    {
        std::unique_lock<std::mutex> l(m);
        if (!on || std::find(order.begin() + (long)std::min(pos, order.size()), order.end(), idx) == order.end())
            return;
        bool mine = cv.wait_for(l, std::chrono::milliseconds(400), [&]() { return pos < order.size() && order[pos] == idx; });
        if (mine)
            pos++;
        else {
            gaveUp++;
            on = false; // not this many workers: let everything run freely
        }
        cv.notify_all();
    }
};
static Gate gate;
static std::atomic<int> jitter{0};

struct Shared
{
    Trace& t;
    std::mutex m;
    std::map<std::thread::id, int> th;
    bool events = false;
    explicit Shared(Trace& t) : t(t)
    {
    }
    int thread()
    {
        auto i = th.find(std::this_thread::get_id());
        return i != th.end() ? i->second : (th[std::this_thread::get_id()] = (int)th.size() + 1);
    }
};

struct Cfg
{
    int kind;
    LearnCfg c;
    Learn::LearningParameters p;
    int agents = 2;
    uint64_t seed;
    bool copyable = true;
};
static Cfg makeCfg(uint64_t s, bool big)
{
    Rnd r(s);
    Cfg c;
    c.kind = (int)r.in(0, 4);
    c.p = randomParams(r, c.c, big ? 8 : 6);
    c.seed = r.next();
    c.agents = (int)r.in(1, 3);
    c.p.nbIterationsPerJob = (size_t)r.in(1, 2);
    if (c.kind == 2)
        c.p.nbIterationsPerPolicyEvaluation = (uint64_t)r.in(1, 5);
    c.p.archiveSize = r.chance(20) ? 0 : (size_t)r.in(1, 40);
    if (r.chance(60))
        c.p.archivingProbability = r.in(1, 4) / 10.0;
    c.copyable = !r.chance(10);
    if (c.kind >= 3 && c.p.ratioDeletedRoots == 1.0)
        c.p.ratioDeletedRoots = 0.5;
    return c;
}

struct Runner
{
    virtual ~Runner() = default;
    virtual Learn::LearningAgent& agent() = 0;
    virtual void begin(Obj head) = 0;
    virtual bool step(Obj head) = 0;
};
struct Round // what the jobs of one generation did
{
    std::map<std::pair<int, std::pair<uint64_t, int>>, std::string> jobs; // (phase, (idx, root)) -> digest
};

template <class Base, class EnvT> struct RunnerT : public Runner
{
    struct A : public Base
    {
        RunnerT& R;
        template <class... X> A(RunnerT& R, X&&... x) : Base(std::forward<X>(x)...), R(R)
        {
        }
        std::shared_ptr<Learn::EvaluationResult> evaluateJob(TPG::TPGExecutionEngine& tee, const Learn::Job& job,
                                                             uint64_t gen, LearningMode mode,
                                                             Learn::LearningEnvironment& le) const override
        {
            EnvCore& core = coreOf(le);
            core.log.clear();
            auto adv = dynamic_cast<const Learn::AdversarialJob*>(&job);
            int root = R.index.count(job.getRoot()) ? R.index[job.getRoot()] : -1;
            uint64_t idx = adv ? job.getIdx() : (uint64_t)root;
            if (R.S.events) {
                std::lock_guard<std::mutex> l(R.S.m);
                R.S.t.emit(Obj()("e", "JB")("th", R.S.thread())("copy", core.copy)("idx", job.getIdx())("id", idx));
            }
            int j = jitter.load();
            if (j)
                std::this_thread::sleep_for(std::chrono::microseconds((idx * 7919 + (uint64_t)j) % 300));
            auto r = Base::evaluateJob(tee, job, gen, mode, le);
            Dig d;
            for (auto& l : core.log) {
                d(l.seed);
                d((uint64_t)l.mode);
                d((uint64_t)l.iter);
                d((uint64_t)l.gen);
                for (int a : l.acts)
                    d((uint64_t)a);
                for (int a : l.scores)
                    d((uint64_t)(a + 100));
                d(12345);
            }
            d(num(r->getResult()));
            d(r->getNbEvaluation());
            gate.pass((int)job.getIdx());
            {
                std::lock_guard<std::mutex> l(R.S.m);
                std::string& s = R.round.jobs[{(int)mode, {idx, root}}];
                s += d.str(); // a second evaluation of the same job would show
                if (R.S.events)
                    R.S.t.emit(Obj()("e", "JE")("th", R.S.thread())("idx", job.getIdx())("id", idx));
            }
            return r;
        }
    };
    struct Lg : public Log::LALogger
    {
        RunnerT& R;
        Lg(Learn::LearningAgent& la, RunnerT& R, std::ostream& o) : Log::LALogger(la, o), R(R)
        {
        }
        void logHeader() override
        {
        }
        void logNewGeneration(uint64_t&) override
        {
        }
        void roundBegin(int mode)
        {
            R.number();
            if (R.S.events)
                R.S.t.emit(Obj()("e", "Round")("mode", mode)("jobs", R.cfg.kind == 2 ? -1 : (int)R.la->getTPGGraph()->getNbRootVertices())(
                    "par", R.threads > 1 && R.cfg.copyable && R.cfg.kind != 0 && R.cfg.kind != 4)("threads", R.threads));
        }
        void logAfterPopulateTPG() override
        {
            roundBegin(0);
        }
        std::string show(Results& rs)
        {
            std::string s;
            for (auto& x : rs)
                s += std::to_string(R.index.count(x.second) ? R.index[x.second] : -1) + "=" + num(x.first->getResult()) +
                     "/" + std::to_string(x.first->getNbEvaluation()) + " ";
            return s;
        }
        void logAfterEvaluate(Results& rs) override
        {
            if (R.S.events)
                R.S.t.emit(Obj()("e", "RoundEnd"));
            R.res = show(rs);
        }
        void logAfterDecimate() override
        {
            if (R.cfg.p.doValidation)
                roundBegin(1);
        }
        void logAfterValidate(Results& rs) override
        {
            if (R.S.events)
                R.S.t.emit(Obj()("e", "RoundEnd"));
            R.val = show(rs);
        }
        void logEndOfTraining() override
        {
        }
    };

    Shared& S;
    Cfg cfg;
    int threads;
    std::ofstream nul{"/dev/null"};
    std::unique_ptr<EnvT> le;
    std::unique_ptr<A> la;
    std::unique_ptr<Lg> lg;
    std::map<const TPG::TPGVertex*, int> index;
    Round round;
    std::string res, val;
    uint64_t gen = 0;

    RunnerT(Shared& S, const Cfg& c, int threads) : S(S), cfg(c), threads(threads)
    {
        cfg.p.nbThreads = (size_t)threads;
        auto& is = someInstr(cfg.c.ncst > 0).set;
        if constexpr (std::is_same<EnvT, AEnv>::value)
            le.reset(new AEnv(cfg.c, cfg.agents, 1 + cfg.seed % 2, cfg.copyable || threads > 1));
        else
            le.reset(new EnvT(cfg.c, cfg.copyable));
        if constexpr (std::is_same<EnvT, AEnv>::value)
            la.reset(new A(*this, *le, is, cfg.p, (size_t)cfg.agents));
        else
            la.reset(new A(*this, *le, is, cfg.p));
        lg.reset(new Lg(*la, *this, nul));
    }
    Learn::LearningAgent& agent() override
    {
        return *la;
    }
    void number()
    {
        index.clear();
        int k = 0;
        for (auto v : la->getTPGGraph()->getVertices())
            index[v] = k++;
    }
    std::string graph()
    {
        number();
        auto& g = *la->getTPGGraph();
        Dig d;
        std::map<const Program::Program*, int> pi;
        for (auto v : g.getVertices()) {
            auto a = dynamic_cast<const TPG::TPGAction*>(v);
            d(a ? a->getActionID() : 1000);
            for (auto e : v->getOutgoingEdges()) {
                d((uint64_t)index[e->getDestination()]);
                auto p = &e->getProgram();
                if (!pi.count(p)) {
                    int n = (int)pi.size();
                    pi[p] = n;
                    d(digest(*p));
                    for (size_t i = 0; i < p->getNbLines(); i++)
                        d((uint64_t)p->isIntron(i));
                }
                d((uint64_t)pi[p]);
            }
        }
        for (auto v : g.getRootVertices())
            d((uint64_t)index[v]);
        return std::to_string(g.getNbVertices()) + "-" + d.str();
    }
    std::string archive()
    {
        auto& a = la->getArchive();
        Dig d;
        std::map<uint64_t, int> pi;
        std::map<size_t, int> hi;
        size_t n = a.getNbRecordings();
        for (size_t i = 0; i < n; i++) {
            auto& x = a.at(i);
            int k = (int)pi.size();
            d((uint64_t)pi.emplace(x.progId, k).first->second);
            if (!hi.count(x.dataHash)) {
                int q = (int)hi.size();
                hi[x.dataHash] = q;
                auto it = a.getDataHandlers().find(x.dataHash);
                if (it == a.getDataHandlers().end())
                    d(666);
                else {
                    for (int j = 0; j < cfg.c.nd; j++)
                        d((uint64_t)(100 + enc(*it->second[0].get().getDataAt(typeid(double), (size_t)j).template getSharedPointer<const double>())));
                    for (int j = 0; j < cfg.c.ni; j++)
                        d((uint64_t)(100 + *it->second[1].get().getDataAt(typeid(int), (size_t)j).template getSharedPointer<const int>()));
                }
            }
            d((uint64_t)hi[x.dataHash]);
            d(num(x.result));
        }
        return std::to_string(n) + "-" + std::to_string(a.getNbDataHandlers()) + "-" + d.str();
    }
    Obj obs(bool thrown)
    {
        Obj o;
        std::string g = graph(), b = "none";
        auto& best = la->getBestRoot();
        if (best.first && index.count(best.first))
            b = std::to_string(index[best.first]) + "=" + num(best.second->getResult()) + "/" + std::to_string(best.second->getNbEvaluation());
        else if (best.first)
            b = "gone";
        int recs = 0;
        for (auto v : la->getTPGGraph()->getVertices()) {
            std::shared_ptr<Learn::EvaluationResult> e;
            la->isRootEvalSkipped(*v, e);
            recs += e != nullptr;
        }
        Dig d;
        for (auto& j : round.jobs) {
            d((uint64_t)j.first.first);
            d(j.first.second.first);
            d(j.second);
        }
        o("graph", g)("best", b)("score", num(la->getBestScoreLastGen()))("recs", recs)("archive", archive())("emptyarch", la->getArchive().getNbRecordings() == 0 && la->getArchive().getNbDataHandlers() == 0)("res", res)(
            "val", val)("evals", d.str())("thrown", thrown);
        return o;
    }
    void begin(Obj head) override
    {
        la->init(cfg.seed);
        gen = 0;
        round.jobs.clear();
        res = val = "";
        S.t.emit(head("obs", obs(false)));
    }
    bool step(Obj head) override
    {
        round.jobs.clear();
        res = val = "";
        bool thrown = false;
        try {
            la->trainOneGeneration(gen++);
        }
        catch (std::out_of_range&) { // known finding of C02
            if (cfg.p.mutation.tpg.pEdgeDestinationIsAction == 0.0)
                throw;
            thrown = true;
        }
        S.t.emit(head("obs", obs(thrown)));
        return !thrown;
    }
};
static std::unique_ptr<Runner> makeRunner(Shared& S, const Cfg& c, int threads)
{
    switch (c.kind) {
    case 0: return std::unique_ptr<Runner>(new RunnerT<Learn::LearningAgent, VEnv>(S, c, threads));
    case 1: return std::unique_ptr<Runner>(new RunnerT<Learn::ParallelLearningAgent, VEnv>(S, c, threads));
    case 2: return std::unique_ptr<Runner>(new RunnerT<Learn::AdversarialLearningAgent, AEnv>(S, c, threads));
    case 3: return std::unique_ptr<Runner>(new RunnerT<Learn::ClassificationLearningAgent<>, CEnv>(S, c, threads));
    default:
        return std::unique_ptr<Runner>(
            new RunnerT<Learn::ClassificationLearningAgent<Learn::LearningAgent>, CEnv>(S, c, threads));
    }
}

static std::vector<std::unique_ptr<char[]>> junk;
static void shuffleHeap(Rnd& r)
{
    for (int i = 0; i < 50; i++)
        junk.emplace_back(new char[(size_t)r.in(8, 400)]);
    for (int i = 0; i < 30; i++)
        junk.erase(junk.begin() + r.in(0, (int64_t)junk.size() - 1));
}

static Obj B(int run, const std::string& key)
{
    return Obj()("e", "Begin")("run", run)("key", key);
}
static Obj G(int run)
{
    return Obj()("e", "Obs")("run", run);
}

int main(int argc, char** argv)
{
    std::string mode = argv[1];
    uint64_t seed = strtoull(argv[2], nullptr, 10);
    int n = atoi(argv[3]), gens = atoi(argv[4]);
    Rnd heap((uint64_t)atoi(argv[5]) * 77 + 5); // where things lie in memory, which agents interleave
    std::string orders = argv[6];
    Trace t(argv[argc - 1]);
    Shared S(t);
    std::vector<std::vector<int>> ord;
    if (orders != "-") {
        std::ifstream f(orders);
        std::string line;
        while (std::getline(f, line)) {
            std::vector<int> v;
            std::istringstream is(line);
            int x;
            while (is >> x)
                v.push_back(x);
            ord.push_back(v);
        }
    }
    Rnd r(seed);
    int run = 0;
    for (int i = 0; i < n; i++) {
        uint64_t cs = r.next();
        std::string key = "c" + std::to_string(cs % 1000000);
        if (mode == "repro") {
            Cfg c = makeCfg(cs, true), other = makeCfg(r.next(), false);
            int threads = (int)r.in(1, 3);
            if (c.kind == 0 || c.kind == 4)
                threads = 1;
            shuffleHeap(heap);
            // a fresh agent, alone
            auto a = makeRunner(S, c, threads);
            a->begin(B(++run, key));
            for (int g = 0; g < gens && a->step(G(run)); g++)
                ;
            // a fresh agent among others
            auto x = makeRunner(S, other, 1);
            shuffleHeap(heap);
            auto b = makeRunner(S, c, threads);
            int rb = ++run, rx = ++run;
            x->begin(B(rx, "o" + key));
            b->begin(B(rb, key));
            bool xo = true;
            for (int g = 0; g < gens; g++) {
                if (xo && heap.chance(60))
                    xo = x->step(G(rx));
                if (heap.chance(50))
                    shuffleHeap(heap);
                if (!b->step(G(rb)))
                    break;
            }
            // the first one again, initialised again (twice)
            a->begin(B(++run, key));
            for (int g = 0; g < gens - 1 && a->step(G(run)); g++)
                ;
            a->agent().keepBestPolicy();
            a->begin(B(++run, key));
            for (int g = 0; g < gens && a->step(G(run)); g++)
                ;
            // the other one, with another seed before
            a.reset();
            b.reset();
            Cfg c2 = c;
            c2.seed ^= 12345;
            auto d = makeRunner(S, c2, threads);
            d->begin(B(++run, "s" + key));
            for (int g = 0; g < 2 && d->step(G(run)); g++)
                ;
            d->agent().init(c.seed);
            d.reset();
        }
        else {
            // sequential, then several threads under several schedules
            Cfg c = makeCfg(cs, false);
            if (c.kind == 0 || c.kind == 4)
                c.kind = c.kind == 0 ? 1 : 3;
            c.copyable = true;
            if (mode == "sched") { // as many roots as the imposed order has jobs, every one evaluated
                c.p.mutation.tpg.nbRoots = ord.empty() ? 4 : ord[0].size();
                if (c.kind == 2)
                    c.kind = 1;
            }
            gate.on = false;
            jitter = 0;
            S.events = true;
            Cfg q = c;
            if (c.kind == 1 || c.kind == 3) { // with the plain agents
                q.kind = c.kind == 1 ? 0 : 4;
                auto a = makeRunner(S, q, 1);
                a->begin(B(++run, key));
                for (int g = 0; g < gens && a->step(G(run)); g++)
                    ;
            }
            auto a = makeRunner(S, c, (int)r.in(0, 1));
            a->begin(B(++run, key));
            for (int g = 0; g < gens && a->step(G(run)); g++)
                ;
            if (mode == "sched") {
                size_t from = (size_t)r.in(0, (int64_t)ord.size() - 1);
                for (size_t k = 0; k < std::min<size_t>(ord.size(), 12); k++) {
                    auto b = makeRunner(S, c, 3);
                    b->begin(B(++run, key));
                    for (int g = 0; g < gens; g++) {
                        gate.start(ord[(from + k * 7 + (size_t)g) % ord.size()]);
                        if (!b->step(G(run)))
                            break;
                    }
                    gate.on = false;
                }
            }
            else
                for (int k = 0; k < 3; k++) {
                    auto b = makeRunner(S, c, (int)r.in(2, 8));
                    jitter = (int)heap.in(0, 1000);
                    b->begin(B(++run, key));
                    for (int g = 0; g < gens && b->step(G(run)); g++)
                        ;
                }
        }
    }
    if (gate.gaveUp)
        fprintf(stderr, "orders not followed: %d\n", gate.gaveUp);
    return 0;
}
