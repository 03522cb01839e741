// C21: trainings observed by recording loggers attached before and after the
// loggers of the library, whose output is parsed.
#include "vlearn.h"
#include "learn/learningAgent.h"
#include "log/laBasicLogger.h"
#include "log/laPolicyStatsLogger.h"
#include "tpg/policyStats.h"
#include <unistd.h>
using namespace vt;
typedef std::multimap<std::shared_ptr<Learn::EvaluationResult>, const TPG::TPGVertex*> Results;

static std::chrono::system_clock::time_point origin;
static int64_t now(bool up = false) // in 0.1 ms since the beginning of the training
{
    auto ns = std::chrono::duration_cast<std::chrono::nanoseconds>(std::chrono::system_clock::now() - origin).count();
    return ns / 100000 + (up && ns % 100000 ? 1 : 0);
}
static int micro(double x)
{
    return std::isnan(x) ? QNAN : std::fabs(x) > 1000 ? ODD : (int)std::llround(x * 1e6);
}
// "-12.34" in hundredths
static int hundredths(const std::string& s)
{
    size_t p = s.find('.');
    if (p == std::string::npos || s.size() != p + 3 || p == 0 || s.size() > 9)
        return ODD;
    std::string d = s.substr(0, p) + s.substr(p + 1);
    char* e;
    long v = strtol(d.c_str(), &e, 10);
    return *e ? ODD : (int)v;
}
static std::vector<std::string> words(const std::string& s)
{
    std::istringstream i(s);
    std::vector<std::string> w;
    std::string x;
    while (i >> x)
        w.push_back(x);
    return w;
}

struct Ctl
{
    Trace& t;
    Rnd& r;
    Learn::LearningAgent* la = nullptr;
    std::map<const TPG::TPGVertex*, int> num; // addresses, never forgotten
    std::stringstream table, policy;
    size_t tpos = 0, ppos = 0;
    volatile bool stop = false;
    bool training = false;
    int raiseAt = -1; // countdown of notifications
    int who = 0;
    bool napping = false;
    int id(const TPG::TPGVertex* v)
    {
        if (!v)
            return 0;
        auto i = num.emplace(v, (int)num.size() + 1);
        return i.first->second;
    }
    std::string news(std::stringstream& s, size_t& pos)
    {
        std::string x = s.str().substr(pos);
        pos += x.size();
        return x;
    }
    Ctl(Trace& t, Rnd& r) : t(t), r(r)
    {
    }
};
struct Rec : public Log::LALogger
{
    Ctl& C;
    int who;
    bool after; // attached after the loggers of the library
    Rec(Learn::LearningAgent& la, Ctl& C, std::ostream& o, bool after) : Log::LALogger(la, o), C(C), who(++C.who), after(after)
    {
    }
    void note(const char* what, Obj o)
    {
        auto in = now();
        auto& g = *C.la->getTPGGraph();
        Arr roots;
        for (auto v : g.getRootVertices())
            roots.add(C.id(v));
        o("e", "Note")("who", who)("what", what)("roots", roots)("nv", g.getNbVertices());
        bool raise = C.training && C.raiseAt >= 0 && C.raiseAt-- == 0;
        if (raise)
            C.stop = true;
        o("raise", raise);
        if (!after && C.napping && C.r.chance(35))
            std::this_thread::sleep_for(std::chrono::milliseconds(C.r.in(8, 45)));
        C.t.emit(o("in", in)("out", now(true)));
    }
    Obj results(Results& rs)
    {
        Arr v, s;
        for (auto& x : rs) {
            v.add(C.id(x.second));
            s.add(micro(x.first->getResult()));
        }
        return Obj()("ids", v)("res", s);
    }
    void logHeader() override
    {
    }
    void logNewGeneration(uint64_t& g) override
    {
        note("new", Obj()("gen", g));
    }
    void logAfterPopulateTPG() override
    {
        note("pop", Obj());
    }
    void logAfterEvaluate(Results& rs) override
    {
        note("eval", results(rs));
    }
    void logAfterDecimate() override
    {
        auto& b = C.la->getBestRoot();
        Obj o;
        o("best", C.id(b.first))("bs", b.first ? micro(b.second->getResult()) : 0);
        if (after && who == 2) {
            std::string s = C.news(C.policy, C.ppos);
            Obj p;
            p("len", s.size());
            unsigned long long g = 0;
            double score = 0;
            int used = 0;
            bool ok = sscanf(s.c_str(), "Generation %llu - Score %lf%n", &g, &score, &used) == 2;
            bool stats = false;
            if (ok && b.first) {
                TPG::PolicyStats ps;
                ps.setEnvironment(C.la->getTPGGraph()->getEnvironment());
                ps.analyzePolicy(b.first);
                std::ostringstream x;
                x << ps;
                // exactly one description, of this policy
                size_t at = s.find("# PolicyStats");
                stats = at != std::string::npos && s.compare(at, x.str().size(), x.str()) == 0 &&
                        words(s.substr((size_t)used, at - (size_t)used)).empty() &&
                        words(s.substr(at + x.str().size())) == std::vector<std::string>{"=========="};
            }
            p("ok", ok)("gen", g)("score", micro(score))("stats", stats);
            o("pol", p);
        }
        note("decim", o);
    }
    void logAfterValidate(Results& rs) override
    {
        note("valid", results(rs));
    }
    void logEndOfTraining() override
    {
        Obj o;
        if (after && who == 2) {
            std::string s = C.news(C.table, C.tpos);
            Arr row;
            auto w = words(s);
            for (size_t i = 0; i < w.size(); i++) {
                char* e;
                long v = i < 2 ? strtol(w[i].c_str(), &e, 10) : hundredths(w[i]);
                row.add((int)(i < 2 && *e ? ODD : v));
            }
            o("row", row)("line", !s.empty() && s.back() == '\n' && s.find('\n') == s.size() - 1);
        }
        note("end", o);
    }
};

static std::string fingerprint(Learn::LearningAgent& la)
{
    auto& g = *la.getTPGGraph();
    Ids ids;
    ids.sync({&g});
    auto& b = la.getBestRoot();
    return graphView(g, ids).str() + digests(g, ids).b +
           (b.first ? std::to_string(ids.vertex(b.first)) + ":" + std::to_string(b.second->getResult()) : "none");
}
struct Plan // what is done to the agent, to be repeated without loggers
{
    std::vector<std::pair<int, int>> todo; // (first generation, how many)
};

// standard output, while the progress bar is printed
struct Capture
{
    FILE* f = tmpfile();
    int old;
    Capture()
    {
        fflush(stdout);
        old = dup(1);
        dup2(fileno(f), 1);
    }
    std::string end()
    {
        fflush(stdout);
        dup2(old, 1);
        close(old);
        std::string s;
        rewind(f);
        int c;
        while ((c = fgetc(f)) != EOF)
            s += (char)c;
        fclose(f);
        return s;
    }
};
static Obj bar(const std::string& s)
{
    int n = 0;
    for (size_t p = s.find("\rTraining ["); p != std::string::npos; p = s.find("\rTraining [", p + 1))
        n++;
    int pct = -1, at = -1;
    size_t p = s.rfind("] ");
    if (p != std::string::npos) {
        double x;
        if (sscanf(s.c_str() + p, "] %lf%%", &x) == 1)
            pct = (int)std::lround(x * 100);
    }
    std::string end = s.find("Training completed") != std::string::npos ? "completed" : "none";
    p = s.find("Training alted at generation ");
    if (p != std::string::npos) {
        end = end == "none" ? "alted" : "both";
        sscanf(s.c_str() + p, "Training alted at generation %d.", &at);
    }
    return Obj()("len", s.size())("n", n)("pct", pct)("end", end)("at", at);
}

template <class Make> static void training(Rnd& r, Trace& t, int steps, Learn::LearningParameters& p, Make make)
{
    p.mutation.tpg.pEdgeDestinationIsAction = 0.0; // see KF_C02_dest
    p.nbGenerations = (uint64_t)r.in(0, 4);
    uint64_t seed = r.next();
    std::ofstream nul("/dev/null");
    Plan plan;
    std::string with, without;
    {
        auto la = make();
        Ctl C(t, r);
        C.la = la.get();
        C.napping = r.chance(50);
        origin = std::chrono::system_clock::now();
        la->init(seed);
        Rec a(*la, C, nul, false);
        auto c1 = now();
        Log::LABasicLogger table(*la, C.table);
        auto c2 = now(true);
        Log::LAPolicyStatsLogger policy(*la, C.policy);
        Rec b(*la, C, nul, true);
        std::vector<std::unique_ptr<Rec>> more;
        Arr head;
        for (auto& w : words(C.news(C.table, C.tpos)))
            head.add(w);
        t.emit(Obj()("e", "Start")("val", p.doValidation)("ngen", p.nbGenerations)("head", head)("c1", c1)("c2", c2));
        for (int s = 0; s < steps; s++) {
            int k = (int)r.in(0, 9);
            if (k < 5) {
                int g = (int)r.in(0, 30);
                t.emit(Obj()("e", "One")("gen", g));
                la->trainOneGeneration((uint64_t)g);
                t.emit(Obj()("e", "OneEnd"));
                plan.todo.push_back({g, 1});
            }
            else if (k < 9) {
                C.stop = r.chance(10);
                C.training = true;
                C.raiseAt = r.chance(40) ? (int)r.in(0, (int)p.nbGenerations * 12) : -1;
                bool pb = r.chance(50);
                t.emit(Obj()("e", "Train")("stop", (bool)C.stop));
                Capture cap;
                uint64_t n = la->train(C.stop, pb);
                std::string o = cap.end();
                C.training = false;
                t.emit(Obj()("e", "TrainEnd")("made", n)("pb", pb)("bar", bar(o)));
                plan.todo.push_back({0, (int)n});
            }
            else if (more.size() < 2) {
                more.emplace_back(new Rec(*la, C, nul, true));
                t.emit(Obj()("e", "Add")("who", more.back()->who));
            }
        }
        t.emit(Obj()("e", "Over")("table", C.news(C.table, C.tpos).size())("policy", C.news(C.policy, C.ppos).size()));
        with = fingerprint(*la);
    }
    {
        auto la = make();
        la->init(seed);
        for (auto& x : plan.todo)
            for (int g = 0; g < x.second; g++)
                la->trainOneGeneration((uint64_t)(x.first + g));
        without = fingerprint(*la);
    }
    t.emit(Obj()("e", "Same")("same", with == without));
}

int main(int argc, char** argv)
{
    Rnd r(strtoull(argv[2], nullptr, 10));
    int n = atoi(argv[3]), steps = atoi(argv[4]);
    Trace t(argv[5]);
    for (int i = 0; i < n; i++) {
        LearnCfg c;
        auto p = randomParams(r, c, 6);
        p.doValidation = r.chance(50);
        int kind = (int)r.in(0, 5);
        p.nbThreads = kind == 0 || kind == 3 ? 1 : (size_t)r.in(1, 3);
        if (kind < 3) {
            if (r.chance(40)) { // the best root may disappear
                p.ratioDeletedRoots = 1.0;
                p.mutation.tpg.nbRoots = (size_t)r.in(2, 3);
                if (r.chance(60)) { // the few first roots are soon removed
                    p.mutation.tpg.nbActions = 2;
                    c.nbActions = 2;
                    p.mutation.tpg.maxInitOutgoingEdges = 2;
                    p.mutation.tpg.pEdgeDestinationChange = r.in(0, 3) / 10.0;
                }
            }
        }
        else if (p.ratioDeletedRoots > 0.5)
            p.ratioDeletedRoots = 0.5;
        auto& is = someInstr(c.ncst > 0).set;
        typedef std::unique_ptr<Learn::LearningAgent> P;
        if (kind == 4) {
            int agents = (int)r.in(2, 3);
            AEnv le(c, agents);
            training(r, t, steps, p, [&]() { return P(new Learn::AdversarialLearningAgent(le, is, p, (size_t)agents)); });
        }
        else if (kind == 3 || kind == 5) {
            CEnv le(c);
            training(r, t, steps, p, [&]() -> P {
                if (kind == 3)
                    return P(new Learn::ClassificationLearningAgent<Learn::LearningAgent>(le, is, p));
                return P(new Learn::ClassificationLearningAgent<Learn::ParallelLearningAgent>(le, is, p));
            });
        }
        else {
            VEnv le(c);
            training(r, t, steps, p, [&]() -> P {
                if (kind == 0)
                    return P(new Learn::LearningAgent(le, is, p));
                return P(new Learn::ParallelLearningAgent(le, is, p));
            });
        }
    }
    return 0;
}
