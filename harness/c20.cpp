// C20: parameter files written, edited by hand, truncated and loaded.
#include <cinttypes>
#include <json.h>
#include "vt.h"
using namespace vt;
using LP = Learn::LearningParameters;
namespace PP = File::ParametersParser;

struct Field
{
    const char* name;
    const char* group; // "top", "mutation.tpg", "mutation.prog"
    char kind;         // u: unsigned, i: int32, b: bool, d: double
    std::function<std::string(const LP&)> get;
    std::function<void(LP&, const std::string&)> set;
};
static std::string real(double d, const char* f = "%.17g")
{
    char b[64];
    snprintf(b, sizeof b, f, d);
    return b;
}
static std::string six(const std::string& v)
{
    return real(strtod(real(strtod(v.c_str(), 0), "%.6g").c_str(), 0));
}
#define U(G, P, N)                                                                              \
    {                                                                                           \
        #N, G, 'u', [](const LP& p) { return std::to_string((unsigned long long)p.P N); },      \
            [](LP& p, const std::string& v) { p.P N = (decltype(p.P N))strtoull(v.c_str(), 0, 10); } \
    }
#define I(G, P, N)                                                                              \
    {                                                                                           \
        #N, G, 'i', [](const LP& p) { return std::to_string(p.P N); },                          \
            [](LP& p, const std::string& v) { p.P N = (int32_t)strtol(v.c_str(), 0, 10); }      \
    }
#define B(G, P, N)                                                                              \
    {                                                                                           \
        #N, G, 'b', [](const LP& p) { return std::string(p.P N ? "true" : "false"); },          \
            [](LP& p, const std::string& v) { p.P N = v == "true"; }                            \
    }
#define D(G, P, N)                                                                              \
    {                                                                                           \
        #N, G, 'd', [](const LP& p) { return real(p.P N); },                                    \
            [](LP& p, const std::string& v) { p.P N = strtod(v.c_str(), 0); }                   \
    }
#define NONE
#define T "top"
#define MT "mutation.tpg"
#define MP "mutation.prog"
static const std::vector<Field>& fields()
{
    static const std::vector<Field> f = {
        U(T, NONE, archiveSize),
        D(T, NONE, archivingProbability),
        B(T, NONE, doValidation),
        U(T, NONE, maxNbActionsPerEval),
        U(T, NONE, maxNbEvaluationPerPolicy),
        U(T, NONE, nbGenerations),
        U(T, NONE, nbIterationsPerJob),
        U(T, NONE, nbIterationsPerPolicyEvaluation),
        U(T, NONE, nbProgramConstant),
        U(T, NONE, nbRegisters),
        U(T, NONE, nbThreads),
        D(T, NONE, ratioDeletedRoots),
        B(MT, mutation.tpg., forceProgramBehaviorChangeOnMutation),
        U(MT, mutation.tpg., maxInitOutgoingEdges),
        U(MT, mutation.tpg., maxOutgoingEdges),
        U(MT, mutation.tpg., nbActions),
        U(MT, mutation.tpg., nbRoots),
        D(MT, mutation.tpg., pEdgeAddition),
        D(MT, mutation.tpg., pEdgeDeletion),
        D(MT, mutation.tpg., pEdgeDestinationChange),
        D(MT, mutation.tpg., pEdgeDestinationIsAction),
        D(MT, mutation.tpg., pProgramMutation),
        I(MP, mutation.prog., maxConstValue),
        U(MP, mutation.prog., maxProgramSize),
        I(MP, mutation.prog., minConstValue),
        D(MP, mutation.prog., pAdd),
        D(MP, mutation.prog., pConstantMutation),
        D(MP, mutation.prog., pDelete),
        D(MP, mutation.prog., pMutate),
        D(MP, mutation.prog., pSwap),
    };
    return f;
}
static Obj params(const LP& p)
{
    Obj o;
    for (auto& f : fields())
        o(f.name, f.get(p));
    return o;
}
static std::string draw(Rnd& r, char kind)
{
    switch (kind) {
    case 'b':
        return r.chance(50) ? "true" : "false";
    case 'i': {
        static const std::vector<std::string> v = {"0", "-1", "1", "2147483647", "-2147483648", "-100", "100"};
        return r.chance(40) ? r.pick(v) : std::to_string((int32_t)r.next());
    }
    case 'u': {
        static const std::vector<std::string> v = {"0",          "1",          "2",           "255",
                                                   "256",        "65535",      "65536",       "2147483647",
                                                   "2147483648", "4294967295", "4294967296",  "4294967297",
                                                   "9007199254740993", "9223372036854775807", "9223372036854775808",
                                                   "18446744073709551615"};
        return r.chance(50) ? r.pick(v) : std::to_string((unsigned long long)(r.next() >> r.in(0, 63)));
    }
    default: {
        static const std::vector<double> v = {0.0, 1.0, 0.5, 0.1, 1.0 / 3, 2.0 / 3, 0.9999999, 0.999999, 1e-7, 1e-300,
                                              0.12345678, 1e-5, 100, 123456789, 0.25, 0.05};
        if (r.chance(60))
            return real(r.pick(v));
        if (r.chance(50))
            return real((double)r.in(0, 1000) / 1000);
        return real((double)(r.next() >> 11) / 9007199254740992.0);
    }
    }
}
// a value as a number of a JSON text
static std::string spell(Rnd& r, const Field& f, const std::string& v)
{
    if (f.kind == 'd' && r.chance(50) && v.find_first_of("e.") == std::string::npos)
        return v + ".0";
    return v;
}
struct Member
{
    std::string group, name, value, text;
};
static Arr members(const std::vector<Member>& m)
{
    Arr a;
    for (auto& x : m)
        a.add(Arr().add(x.group).add(x.name).add(x.value));
    return a;
}
static std::vector<Member> someMembers(Rnd& r)
{
    std::vector<Member> m;
    int pct = (int)r.in(0, 3) * 33;
    for (auto& f : fields())
        if (r.chance(pct)) {
            auto v = draw(r, f.kind);
            m.push_back({f.group, f.name, v, spell(r, f, v)});
        }
    auto extra = [&](const char* g, const char* n, const char* v) {
        if (r.chance(25))
            m.push_back({g, n, v, v});
    };
    // unknown names, and sub-trees that the format does not define
    extra("top", "unknown", "3");
    extra("top", "nbregisters", "5");
    extra("mutation.tpg", "pEdge", "0.25");
    extra("mutation.prog", "pAddition", "0.75");
    extra("mutation.other", "pAdd", "0.125");
    extra("mutation.other", "nbRoots", "17");
    extra("other", "archiveSize", "19");
    extra("tpg", "nbActions", "23");
    extra("prog", "maxProgramSize", "29");
    for (size_t i = m.size(); i > 1; i--)
        std::swap(m[i - 1], m[(size_t)r.in(0, (int64_t)i - 1)]);
    return m;
}
static std::string jsonText(Rnd& r, const std::vector<Member>& m)
{
    auto note = [&]() -> std::string {
        switch (r.in(0, 5)) {
        case 0:
            return " // pAdd : 3, }\n";
        case 1:
            return " /* \"nbRoots\" : 3, { */ ";
        case 2:
            return "\n";
        default:
            return " ";
        }
    };
    // JsonCpp accepts comments between members only
    auto gap = [&]() -> std::string { return r.chance(30) ? "\n\t" : r.chance(50) ? " " : ""; };
    std::map<std::string, std::string> body; // group -> members
    for (auto& x : m) {
        auto& b = body[x.group];
        b += (b.empty() ? "" : ",") + note() + "\"" + x.name + "\"" + gap() + ":" + gap() + x.text + note();
    }
    std::vector<std::string> mut, top;
    for (auto& b : body) {
        if (b.first == "top") {
            if (!b.second.empty())
                top.push_back(b.second);
        }
        else if (b.first.rfind("mutation.", 0) == 0)
            mut.push_back("\"" + b.first.substr(9) + "\"" + gap() + ":" + gap() + "{" + b.second + "}");
        else
            top.push_back("\"" + b.first + "\" : {" + b.second + "}");
    }
    auto join = [&](std::vector<std::string> v) {
        for (size_t i = v.size(); i > 1; i--)
            std::swap(v[i - 1], v[(size_t)r.in(0, (int64_t)i - 1)]);
        std::string s;
        for (auto& x : v)
            s += (s.empty() ? "" : ",") + note() + x;
        return s;
    };
    if (!mut.empty() || r.chance(20))
        top.push_back("\"mutation\" : {" + join(mut) + "}");
    return note() + "{" + join(top) + note() + "}" + (r.chance(50) ? "\n" : "");
}
// the leaves of a file, read with the JSON library alone
static Arr leaves(const std::string& path)
{
    Arr a;
    std::ifstream in(path);
    Json::Value root;
    Json::CharReaderBuilder b;
    std::string err;
    if (!parseFromStream(b, in, &root, &err))
        return a.add("unreadable");
    std::function<void(const Json::Value&, const std::string&)> walk = [&](const Json::Value& v, const std::string& g) {
        for (auto& k : v.getMemberNames()) {
            auto& x = v[k];
            if (x.isObject()) {
                walk(x, g.empty() ? k : g + "." + k);
                continue;
            }
            std::string s = x.isBool()            ? (x.asBool() ? "true" : "false")
                            : x.isUInt64()        ? std::to_string((unsigned long long)x.asUInt64())
                            : x.isInt64()         ? std::to_string((long long)x.asInt64())
                            : x.isDouble()        ? real(x.asDouble())
                                                  : "?";
            // a whole number may be the text of a real parameter
            for (auto& f : fields())
                if (k == f.name && f.kind == 'd')
                    s = real(x.asDouble());
            a.add(Arr().add(g.empty() ? "top" : g).add(k).add(s));
        }
    };
    walk(root, "");
    return a;
}
static std::string slurp(const std::string& p)
{
    std::ifstream in(p);
    return std::string(std::istreambuf_iterator<char>(in), {});
}
int main(int argc, char** argv)
{
    if (argc < 6)
        return 2;
    Rnd r((uint64_t)atoll(argv[2]));
    int histories = atoi(argv[3]), steps = atoi(argv[4]);
    Trace t(argv[5]);
    // the library reports ignored files and names on these
    auto& sink = *new std::stringstream;
    std::cerr.rdbuf(sink.rdbuf());
    std::cout.rdbuf(sink.rdbuf());
    for (int h = 0; h < histories; h++) {
        sink.str("");
        const int NP = 3, NF = 3;
        std::vector<LP> p(NP);
        std::vector<std::string> path;
        std::vector<bool> exists(NF, false);
        auto pre = std::string(argv[5]) + ".json";
        for (int i = 0; i < NF; i++) {
            path.push_back(pre + std::to_string(i));
            remove(path[(size_t)i].c_str());
            t.emit(Obj()("e", "Remove")("file", std::to_string(i)));
        }
        auto id = [](size_t i) { return std::to_string(i); };
        for (size_t i = 0; i < NP; i++)
            t.emit(Obj()("e", "New")("obj", id(i))("params", params(p[i])));
        for (int s = 0; s < steps; s++) {
            auto o = (size_t)r.in(0, NP - 1), f = (size_t)r.in(0, NF - 1);
            switch (r.in(0, 9)) {
            case 0:
            case 1: { // parameters assigned by the program
                int pct = (int)r.in(0, 2) * 50;
                for (auto& x : fields())
                    if (r.chance(pct))
                        x.set(p[o], draw(r, x.kind));
                t.emit(Obj()("e", "Assign")("obj", id(o))("params", params(p[o])));
                break;
            }
            case 2:
            case 3: {
                Obj k;
                for (auto& x : fields())
                    if (x.kind == 'd')
                        k(x.name, six(x.get(p[o])));
                PP::writeParametersToJson(path[f].c_str(), p[o]);
                exists[f] = true;
                t.emit(Obj()("e", "Write")("obj", id(o))("file", id(f))("params", params(p[o]))("six", k)("content", leaves(path[f])));
                break;
            }
            case 4:
            case 5: { // a file written by hand, or one cut short
                std::vector<Member> m = someMembers(r);
                auto text = jsonText(r, m);
                bool ill = r.chance(30);
                if (ill && exists[f] && r.chance(50))
                    text = slurp(path[f]);
                if (ill) { // cut before the last closing brace
                    auto last = text.rfind('}');
                    if (last == std::string::npos)
                        text = "{";
                    else
                        text = text.substr(0, (size_t)r.in((int64_t)text.find('{'), (int64_t)last));
                    // an open comment would hide what remains
                    if (text.find('{') == std::string::npos)
                        text = "{ \"nbRoots\" : 3";
                }
                std::ofstream(path[f]) << text;
                exists[f] = true;
                t.emit(Obj()("e", "Make")("file", id(f))("kind", ill ? "ill" : "json")("content", ill ? Arr() : members(m)));
                break;
            }
            case 6:
                if (r.chance(30)) {
                    remove(path[f].c_str());
                    exists[f] = false;
                    t.emit(Obj()("e", "Remove")("file", id(f)));
                    break;
                }
                [[fallthrough]];
            case 7:
            case 8: {
                bool threw = false;
                auto before = exists[f] ? slurp(path[f]) : "";
                try {
                    if (exists[f] && r.chance(30)) {
                        Json::Value root;
                        PP::readConfigFile(path[f].c_str(), root);
                        if (!root.isNull())
                            PP::setAllParamsFrom(root, p[o]);
                    }
                    else
                        PP::loadParametersFromJson(path[f].c_str(), p[o]);
                }
                catch (std::exception&) {
                    threw = true;
                }
                t.emit(Obj()("e", "Load")("obj", id(o))("file", id(f))("threw", threw)("params", params(p[o]))(
                    "untouched", (exists[f] ? slurp(path[f]) : "") == before));
                break;
            }
            default: {
                if (r.chance(15)) {
                    PP::setParameterFromString(p[o], "pAdded", Json::Value(0.5));
                    t.emit(Obj()("e", "Name")("obj", id(o))("name", "pAdded")("value", "0.5")("params", params(p[o])));
                    break;
                }
                auto& x = r.pick(fields());
                auto v = draw(r, x.kind);
                Json::Value jv = x.kind == 'b'   ? Json::Value(v == "true")
                                 : x.kind == 'd' ? Json::Value(strtod(v.c_str(), 0))
                                 : x.kind == 'i' ? Json::Value((Json::Int64)strtoll(v.c_str(), 0, 10))
                                                 : Json::Value((Json::UInt64)strtoull(v.c_str(), 0, 10));
                PP::setParameterFromString(p[o], x.name, jv);
                t.emit(Obj()("e", "Name")("obj", id(o))("name", x.name)("value", v)("params", params(p[o])));
            }
            }
        }
        for (auto& q : path)
            remove(q.c_str());
    }
    return 0;
}
