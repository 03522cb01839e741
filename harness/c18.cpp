// C18: statistics of policies and of executions, read from every accessor,
// the text report and the JSON file.
#include "vpolicy.h"
#include "tpg/instrumented/executionStats.h"
#include "tpg/instrumented/tpgExecutionEngineInstrumented.h"
#include "tpg/instrumented/tpgInstrumentedFactory.h"
#include "tpg/policyStats.h"
#include <json.h>
#include <unistd.h>
using namespace vt;

template <class M> static Arr pairs(const M& m)
{
    Arr a;
    for (auto& x : m)
        a.add(Arr().add(x.first).add(x.second));
    return a;
}
template <class M, class F> static Arr named(const M& m, F f)
{
    Arr a;
    for (auto& x : m)
        a.add(Arr().add(f(x.first)).add(x.second));
    return a;
}
static Arr locs(const std::map<std::pair<size_t, size_t>, size_t>& m)
{
    Arr a;
    for (auto& x : m)
        a.add(Arr().add(x.first.first).add(x.first.second).add(x.second));
    return a;
}
static Obj policyEvent(const char* name, const TPG::PolicyStats& s, const Ids& ids)
{
    return Obj()("e", name)("prog", named(s.nbUsePerProgram, [&](auto p) { return ids.prog(p); }))(
        "team", named(s.nbUsePerTPGTeam, [&](auto v) { return ids.vertex(v); }))(
        "action", named(s.nbUsePerTPGAction, [&](auto v) { return ids.vertex(v); }))("actid", pairs(s.nbUsagePerActionID))(
        "lines", s.nbLinesPerProgram)("introns", s.nbIntronPerProgram)("outs", s.nbOutgoingEdgesPerTeam)(
        "instr", pairs(s.nbUsagePerInstruction))("loc", locs(s.nbUsagePerDataLocation))(
        "levels", pairs(s.nbTPGVertexPerDepthLevel))("depth", s.maxPolicyDepth)("teams", s.nbDistinctTeams);
}
// the numbers of a printed report; an average times what it is an average of
struct Report
{
    std::vector<std::string> lines;
    explicit Report(const std::string& s)
    {
        std::istringstream i(s);
        std::string x;
        while (std::getline(i, x))
            lines.push_back(x);
    }
    std::string after(const std::string& k, size_t from = 0) const
    {
        for (size_t i = from; i < lines.size(); i++)
            if (lines[i].compare(0, k.size(), k) == 0)
                return lines[i].substr(k.size());
        return "";
    }
    long num(const std::string& k) const
    {
        auto s = after(k);
        return s.empty() ? -1 : atol(s.c_str());
    }
    static Arr braces(const std::string& s)
    {
        Arr a;
        size_t p = 0;
        while ((p = s.find('{', p)) != std::string::npos) {
            long x = 0, y = 0;
            if (sscanf(s.c_str() + p, "{%ld,%ld}", &x, &y) == 2)
                a.add(Arr().add(x).add(y));
            p++;
        }
        return a;
    }
    long times(const std::string& k, size_t n) const
    {
        return n == 0 ? 0 : lround(atof(after(k).c_str()) * (double)n);
    }
    Arr handlers() const
    {
        Arr a;
        for (size_t i = 0; i < lines.size(); i++) {
            const std::string h = "### DataHandler ";
            if (lines[i].compare(0, h.size(), h) == 0) {
                Obj o;
                o("src", atol(lines[i].c_str() + h.size()));
                o("acc", i + 1 < lines.size() && lines[i + 1].compare(0, 9, "Accesses:") == 0 ? atol(lines[i + 1].c_str() + 9) : -1);
                o("nloc", i + 2 < lines.size() && lines[i + 2].compare(0, 10, "Locations:") == 0 ? atol(lines[i + 2].c_str() + 10) : -1);
                o("loc", braces(i + 3 < lines.size() ? lines[i + 3] : ""));
                a.add(o);
            }
        }
        return a;
    }
};
static Obj textEvent(const TPG::PolicyStats& s)
{
    std::ostringstream o;
    o << s;
    Report r(o.str());
    return Obj()("e", "Text")("teams", r.num("Teams:"))("edges", r.num("Edges:"))("actions", r.num("Actions:"))(
        "depth", r.num("Stages"))("levels", Report::braces(r.after("Vertex/stage:")))(
        "useact", r.times("Use/action:", s.nbUsagePerActionID.size()))("actid", Report::braces(r.after("Use/action:")))(
        "progs", r.num("Programs:"))("lines", r.times("Line/prog:", s.nbLinesPerProgram.size()))(
        "introns", r.times("Intr/prog:", s.nbIntronPerProgram.size()))("useprog", r.times("Use/prog:", s.nbUsePerProgram.size()))(
        "useinstr", r.times("Use/instr:", s.nbUsagePerInstruction.size()))("instr", Report::braces(r.after("Use/instr:")))(
        "handlers", r.handlers());
}

static void policyWorld(Rnd& r, Trace& t, int steps)
{
    std::unique_ptr<World> w(randomWorld(r));
    t.emit(w->envEvent());
    Policy p(r, *w);
    p.build((int)r.in(1, 8), (int)r.in(1, 5), (int)r.in(1, 5));
    auto cyc = [&](int n) {
        while (n-- > 0) // any vertex, itself included
            p.g->setEdgeDestination(*p.anyEdge(), *r.pick(p.order));
        p.ids.sync({p.g.get()});
    };
    if (r.chance(40))
        cyc((int)r.in(1, 4));
    t.emit(p.event("Graph"));
    TPG::PolicyStats s;
    s.setEnvironment(*w->env);
    t.emit(policyEvent("Stats", s, p.ids));
    for (int i = 0; i < steps; i++) {
        int c = (int)r.in(0, 99);
        if (c < 12) {
            if (r.chance(30))
                cyc(1);
            else
                p.edit();
            // elements that are gone cannot be named anymore
            s.clear();
            t.emit(Obj()("e", "Clear"));
            t.emit(p.event("Graph"));
        }
        else if (c < 40) {
            // one element after the other
            auto e = p.anyEdge();
            int k = (int)r.in(0, 3);
            if (k == 0) {
                s.analyzeProgram(&e->getProgram());
                t.emit(Obj()("e", "Prog")("p", p.ids.prog(&e->getProgram())));
            }
            else if (k == 1 && e->getProgram().getNbLines() > 0) {
                size_t n = (size_t)r.in(0, (int64_t)e->getProgram().getNbLines() - 1);
                s.analyzeLine(&e->getProgram().getLine(n));
                t.emit(Obj()("e", "Line")("p", p.ids.prog(&e->getProgram()))("k", n + 1));
            }
            else if (k == 2) {
                s.analyzeTPGTeam((const TPG::TPGTeam*)e->getSource());
                t.emit(Obj()("e", "Team")("v", p.ids.vertex(e->getSource())));
            }
            else if (auto a = dynamic_cast<const TPG::TPGAction*>(r.pick(p.order))) {
                s.analyzeTPGAction(a);
                t.emit(Obj()("e", "Action")("v", p.ids.vertex(a)));
            }
        }
        else if (c < 90) {
            if (r.chance(25))
                s.setEnvironment(*w->env);
            s.clear();
            t.emit(Obj()("e", "Clear"));
            auto root = r.chance(50) ? p.order[0] : r.pick(p.order);
            s.analyzePolicy(root);
            t.emit(Obj()("e", "Policy")("root", p.ids.vertex(root)));
        }
        else if (r.chance(50)) {
            TPG::PolicyStats s2(s);
            std::swap(s, s2);
        }
        t.emit(policyEvent("Stats", s, p.ids));
        if (r.chance(40))
            t.emit(textEvent(s));
    }
}

static Arr works(const std::vector<TPG::TraceStats>& v, const Policy& p)
{
    Arr a;
    for (auto& x : v)
        a.add(Obj()("path", p.path(x.trace))("teams", x.nbEvaluatedTeams)("progs", x.nbEvaluatedPrograms)(
            "lines", x.nbExecutedLines)("instr", pairs(x.nbExecutionPerInstruction)));
    return a;
}
template <class M> static Arr nested(const M& m)
{
    Arr a;
    for (auto& x : m)
        a.add(Arr().add(x.first).add(pairs(x.second)));
    return a;
}
// total of n values of average x; -1 when x is no such average
static long total(double x, int n)
{
    long t = lround(x * n);
    return x == (double)t / (double)n ? t : -1;
}
static long near(double x, int n)
{
    return lround(x * n);
}
// the JSON file has 6 digits
static Arr jpairs(const Json::Value& v)
{
    Arr a;
    for (auto& k : v.getMemberNames())
        a.add(Arr().add(atol(k.c_str())).add((long)v[k].asUInt64()));
    return a;
}

static void execWorld(Rnd& r, Trace& t, int steps, const std::string& dir, bool big)
{
    std::unique_ptr<World> w(randomWorld(r));
    t.emit(w->envEvent());
    TPG::TPGInstrumentedFactory fac;
    Policy p(r, *w, std::make_unique<TPG::TPGInstrumentedFactory>());
    p.build((int)r.in(1, 7), (int)r.in(1, 5), (int)r.in(1, 5));
    if (big) // a long program
        for (auto& e : p.g->getEdges())
            if (r.chance(30)) {
                for (int i = (int)r.in(260, 400); i > 0; i--)
                    randomLine(r, *w, e->getProgram().addNewLine());
                break;
            }
    t.emit(p.event("Graph"));
    w->randomData(r);
    TPG::TPGExecutionEngineInstrumented e1(*w->env), e2(*w->env);
    TPG::TPGExecutionEngine e0(*w->env);
    TPG::TPGExecutionEngine* eng[3] = {&e0, &e1, &e2};
    TPG::TPGExecutionEngineInstrumented* ie[3] = {nullptr, &e1, &e2};
    TPG::ExecutionStats s;
    int n = 0;          // inferences counted since the last reset
    bool wrote = false; // analyzeExecution was the last analysis
    auto avg = [&](auto f) {
        Arr a;
        for (auto& x : s.getAvgNbExecutionPerInstruction())
            a.add(Arr().add(x.first).add(f(x.second, n)));
        return Obj()("n", n)("teams", f(s.getAvgEvaluatedTeams(), n))("progs", f(s.getAvgEvaluatedPrograms(), n))(
            "lines", f(s.getAvgExecutedLines(), n))("instr", a);
    };
    auto fresh = [&](int k) {
        ie[k]->clearTraceHistory();
        t.emit(Obj()("e", "ClearHist")("eng", k));
    };
    auto reset = [&] {
        fac.resetTPGGraphCounters(*p.g);
        t.emit(Obj()("e", "Reset"));
        n = 0;
    };
    auto read = [&] {
        t.emit(Obj()("e", "Read")("traces", works(s.getInferenceTracesStats(), p))("teams", pairs(s.getDistribEvaluatedTeams()))(
            "progs", pairs(s.getDistribEvaluatedPrograms()))("lines", pairs(s.getDistribExecutedLines()))(
            "instr", nested(s.getDistribNbExecutionPerInstruction()))(
            "used", named(s.getDistribUsedVertices(), [&](auto v) { return p.ids.vertex(v); })));
    };
    for (int i = 0; i < steps; i++) {
        int c = (int)r.in(0, 99);
        if (c < 10)
            w->randomData(r);
        else if (c < 14) {
            p.edit();
            t.emit(p.event("Graph"));
            reset();
            fresh(1);
            fresh(2);
            s.clearInferenceTracesStats();
            t.emit(Obj()("e", "ClearStats"));
            wrote = false;
        }
        else if (c < 18)
            reset();
        else if (c < 22)
            fresh((int)r.in(1, 2));
        else if (c < 60) {
            auto roots = p.g->getRootVertices();
            auto root = r.pick(roots);
            int k = r.chance(10) ? 0 : (int)r.in(1, 2);
            auto path = p.path(eng[k]->executeFromRoot(*root));
            t.emit(Obj()("e", "Run")("eng", k)("path", path));
            if (k)
                n++;
        }
        else if (c < 62 && big && n < 100000) {
            auto roots = p.g->getRootVertices();
            auto root = r.pick(roots);
            int k = (int)r.in(1, 2), q = (int)r.in(1000, 60000);
            auto path = p.path(eng[k]->executeFromRoot(*root));
            for (int j = 1; j < q; j++)
                eng[k]->executeFromRoot(*root);
            ie[k]->clearTraceHistory();
            t.emit(Obj()("e", "Many")("eng", k)("path", path)("n", q));
            n += q;
            wrote = false;
        }
        else if (c < 68 && n > 0) {
            s.analyzeInstrumentedGraph(p.g.get());
            t.emit(Obj()("e", "Graphs")("avg", avg(total)));
            wrote = false;
        }
        else if (c < 76) {
            int k = (int)r.in(1, 2);
            auto& h = ie[k]->getTraceHistory();
            if (h.empty())
                continue;
            size_t j = (size_t)r.in(0, (int64_t)h.size() - 1);
            s.analyzeInferenceTrace(h[j]);
            t.emit(Obj()("e", "OneTrace")("path", p.path(h[j])));
            read();
            wrote = false;
        }
        else if (c < 80) {
            s.clearInferenceTracesStats();
            t.emit(Obj()("e", "ClearStats"));
            read();
            wrote = false;
        }
        else if (c < 94 && n > 0) {
            int k = (int)r.in(1, 2);
            s.analyzeExecution(*ie[k], p.g.get());
            t.emit(Obj()("e", "Exec")("eng", k)("avg", avg(total)));
            read();
            wrote = true;
        }
        else
            read();
        // what is written are the averages of the last analysis
        if (n == 0 || n > 1000 || c < 60)
            wrote = false;
        if (wrote && r.chance(50)) {
            std::string f = dir + "/s.json";
            s.writeStatsToJson(f.c_str(), r.chance(50));
            std::ifstream in(f);
            Json::Value v;
            in >> v;
            auto& x = v["ExecutionStats"];
            Arr a;
            for (auto& k : x["avgNbExecutionPerInstruction"].getMemberNames())
                a.add(Arr().add(atol(k.c_str())).add(near(x["avgNbExecutionPerInstruction"][k].asDouble(), n)));
            Arr ni;
            for (auto& k : x["distributionNbExecutionPerInstruction"].getMemberNames())
                ni.add(Arr().add(atol(k.c_str())).add(jpairs(x["distributionNbExecutionPerInstruction"][k])));
            Arr tr;
            auto& ts = v["TracesStats"];
            for (unsigned k = 0; k < ts.size(); k++) {
                auto& y = ts[std::to_string(k)];
                Arr path;
                for (auto& z : y["trace"])
                    path.add((long)z.asUInt64());
                tr.add(Obj()("path", path)("teams", (long)y["nbEvaluatedTeams"].asUInt64())(
                    "progs", (long)y["nbEvaluatedPrograms"].asUInt64())("lines", (long)y["nbExecutedLines"].asUInt64())(
                    "instr", jpairs(y["nbExecutionPerInstruction"])));
            }
            t.emit(Obj()("e", "Json")("avg", Obj()("n", n)("teams", near(x["avgEvaluatedTeams"].asDouble(), n))(
                                                  "progs", near(x["avgEvaluatedPrograms"].asDouble(), n))(
                                                  "lines", near(x["avgExecutedLines"].asDouble(), n))("instr", a))(
                "traces", tr)("teams", jpairs(x["distributionEvaluatedTeams"]))("progs", jpairs(x["distributionEvaluatedPrograms"]))(
                "lines", jpairs(x["distributionExecutedLines"]))("instr", ni)("used", jpairs(x["distributionUsedVertices"])));
            unlink(f.c_str());
        }
    }
}

int main(int argc, char** argv)
{
    Rnd r(strtoull(argv[2], nullptr, 10));
    Trace t(argv[5]);
    std::string dir = std::string(argv[5]) + ".dir";
    if (system(("mkdir -p '" + dir + "'").c_str()))
        return 2;
    int n = atoi(argv[3]);
    for (int i = 0; i < n; i++)
        if (i % 2)
            execWorld(r, t, atoi(argv[4]), dir, i % 8 == 3);
        else
            policyWorld(r, t, atoi(argv[4]) / 2);
    rmdir(dir.c_str());
    return 0;
}
