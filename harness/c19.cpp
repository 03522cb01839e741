// C19: verdicts of the cycle detector on every small graph, on random larger
// ones, and during trainings.
#include "vlearn.h"
using namespace vt;
static int occurrences(const std::string& s, const char* x)
{
    int n = 0;
    for (size_t p = s.find(x); p != std::string::npos; p = s.find(x, p + 1))
        n++;
    return n;
}
static Arr succs(const TPG::TPGGraph& g)
{
    std::map<const TPG::TPGVertex*, int> idx;
    for (auto v : g.getVertices())
        idx.emplace(v, (int)idx.size() + 1);
    Arr a;
    for (auto v : g.getVertices()) {
        Arr b;
        for (auto e : v->getOutgoingEdges())
            b.add(idx[e->getDestination()]);
        a.add(b);
    }
    return a;
}
struct Bench
{
    LearnCfg c;
    VEnv le;
    Learn::LearningParameters p;
    Learn::LearningAgent la;
    std::stringstream o1, o2;
    Log::CycleDetectionLALogger l1, l2;
    Bench() : le(c), la(le, someInstr(false).set, p), l1(la, o1, true), l2(la, o2)
    {
    }
    Obj said(std::stringstream& o, Log::CycleDetectionLALogger& l, bool success)
    {
        o.str("");
        l.logAfterPopulateTPG();
        auto s = o.str();
        return Obj()("success", success)("cycle", occurrences(s, "A cycle was detected"))("none", occurrences(s, "No cycle detected"))(
            "length", s.size());
    }
    void check(Trace& t, bool both = true)
    {
        auto& g = *la.getTPGGraph();
        Ids ids;
        ids.sync({&g});
        auto before = graphView(g, ids).str();
        Arr a;
        a.add(said(o1, l1, true));
        if (both)
            a.add(said(o2, l2, false));
        ids.sync({&g});
        t.emit(Obj()("e", "Verdicts")("succ", succs(g))("said", a)("same", graphView(g, ids).str() == before));
    }
};
static void enumerate(Trace& t, int part, int parts, int nt, int na)
{
    Bench b;
    auto& g = *b.la.getTPGGraph();
    auto prog = std::make_shared<Program::Program>(b.la.getEnvironment());
    int w = nt + na;
    for (long x = part; x < 1L << (nt * w); x += parts) {
        g.clear();
        std::vector<const TPG::TPGVertex*> v;
        for (int i = 0; i < nt; i++)
            v.push_back(&g.addNewTeam());
        for (int i = 0; i < na; i++)
            v.push_back(&g.addNewAction((uint64_t)i));
        for (int i = 0; i < nt; i++)
            for (int j = 0; j < w; j++)
                if (x >> (i * w + j) & 1)
                    g.addNewEdge(*v[(size_t)i], *v[(size_t)j], prog);
        b.check(t);
    }
}
static void random(Rnd& r, Trace& t, int n)
{
    Bench b;
    auto& g = *b.la.getTPGGraph();
    auto prog = std::make_shared<Program::Program>(b.la.getEnvironment());
    for (int k = 0; k < n; k++) {
        g.clear();
        if (k % 50 == 0)
            b.check(t); // nothing in the graph
        int nt = (int)r.in(1, 11), na = (int)r.in(0, 5);
        std::vector<const TPG::TPGVertex*> v, team;
        for (int i = 0; i < nt + na; i++) {
            bool isT = team.size() < (size_t)nt && (i - (int)team.size() >= na || r.chance(60));
            v.push_back(isT ? (const TPG::TPGVertex*)&g.addNewTeam() : &g.addNewAction((uint64_t)r.in(0, 3)));
            if (isT)
                team.push_back(v.back());
        }
        int ne = (int)r.in(0, 3 * nt);
        // mostly forward in a random order, so that both verdicts are common
        std::vector<const TPG::TPGVertex*> order = v;
        for (size_t i = order.size(); i > 1; i--)
            std::swap(order[i - 1], order[(size_t)r.in(0, (int64_t)i - 1)]);
        std::map<const TPG::TPGVertex*, int> pos;
        for (auto x : order)
            pos.emplace(x, (int)pos.size());
        int back = r.chance(50) ? 0 : (int)r.in(1, 2);
        for (int i = 0; i < ne; i++) {
            auto s = r.pick(team);
            auto d = r.pick(v);
            bool isBack = pos[d] <= pos[s];
            if (isBack && back == 0) {
                auto dt = dynamic_cast<const TPG::TPGTeam*>(d);
                if (d == s || !dt)
                    continue;
                std::swap(s, d); // forward then
            }
            else if (isBack)
                back--;
            g.addNewEdge(*s, *d, prog);
        }
        b.check(t);
        // one edge moves, and moves back
        if (!g.getEdges().empty() && r.chance(50)) {
            auto it = g.getEdges().begin();
            std::advance(it, r.in(0, (int64_t)g.getEdges().size() - 1));
            auto& e = **it;
            auto d = e.getDestination();
            g.setEdgeDestination(e, *r.pick(v));
            b.check(t);
            g.setEdgeDestination(e, *d);
            b.check(t);
        }
    }
}
struct Rec : public Log::LALogger
{
    Trace& t;
    std::stringstream& o;
    Rec(Learn::LearningAgent& la, Trace& t, std::stringstream& o) : Log::LALogger(la), t(t), o(o)
    {
    }
    void logHeader() override
    {
    }
    void logNewGeneration(uint64_t&) override
    {
    }
    void logAfterPopulateTPG() override
    {
        auto s = o.str();
        t.emit(Obj()("e", "Populated")("succ", succs(*learningAgent.getTPGGraph()))("cycles", occurrences(s, "A cycle was"))(
            "nones", occurrences(s, "No cycle")));
    }
    void logAfterEvaluate(std::multimap<std::shared_ptr<Learn::EvaluationResult>, const TPG::TPGVertex*>&) override
    {
    }
    void logAfterDecimate() override
    {
    }
    void logAfterValidate(std::multimap<std::shared_ptr<Learn::EvaluationResult>, const TPG::TPGVertex*>&) override
    {
    }
    void logEndOfTraining() override
    {
    }
};
template <class A> static void training(Rnd& r, Trace& t, int gens)
{
    LearnCfg c;
    auto p = randomParams(r, c, 8);
    p.mutation.tpg.pEdgeDestinationIsAction = 0.0; // see KF_C02_dest
    p.nbThreads = (size_t)r.in(1, 3);
    p.doValidation = r.chance(30);
    if (p.ratioDeletedRoots > 0.7)
        p.ratioDeletedRoots = 0.5;
    VEnv le(c);
    A la(le, someInstr(c.ncst > 0).set, p);
    la.init(r.next());
    std::stringstream o;
    Rec rec(la, t, o); // before the detector: what it finds is what was said so far
    Log::CycleDetectionLALogger l(la, o, true);
    t.emit(Obj()("e", "Start"));
    for (int g = 0; g < gens; g++)
        la.trainOneGeneration((uint64_t)g);
    auto s = o.str();
    t.emit(Obj()("e", "End")("cycles", occurrences(s, "A cycle was"))("nones", occurrences(s, "No cycle"))("gens", gens));
}
int main(int argc, char** argv)
{
    std::string mode = argv[1];
    Trace t(argv[5]);
    if (mode == "enum") { // part parts*100 + teams*10 + actions
        int x = atoi(argv[4]);
        enumerate(t, atoi(argv[3]), x / 100, x / 10 % 10, x % 10);
        return 0;
    }
    Rnd r(strtoull(argv[2], nullptr, 10));
    random(r, t, atoi(argv[4]));
    for (int i = 0; i < atoi(argv[3]); i++)
        if (i % 2)
            training<Learn::ParallelLearningAgent>(r, t, 8);
        else
            training<Learn::LearningAgent>(r, t, 8);
    return 0;
}
