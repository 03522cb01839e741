// C23: environments, edits of the lines of programs, and engines.
#include "vt.h"
#include "data/arrayWrapper.h"
#include "data/array2DWrapper.h"
#include <array>
#include "data/constantHandler.h"
#include "program/programExecutionEngine.h"
using namespace vt;
using Data::Constant;
using namespace Instructions;

struct Ty
{
    const char* b;
    std::vector<int> d;
};
struct Ins
{
    std::vector<Ty> t;
    std::unique_ptr<Instruction> i;
};
static std::vector<Ins> pool()
{
    std::vector<Ins> v;
    auto add = [&](std::vector<Ty> t, Instruction* i) {
        v.push_back({t, std::unique_ptr<Instruction>(i)});
    };
    Ty D{"double", {}}, I{"int", {}}, F{"float", {}}, C{"Constant", {}};
    auto A = [](const char* b, int k) { return Ty{b, {k}}; };
    auto B = [](const char* b, int h, int w) { return Ty{b, {h, w}}; };
    add({D}, new LambdaInstruction<double>([](double a) { return a; }));
    add({D, D}, new LambdaInstruction<double, double>([](double a, double b) { return a + b; }));
    add({I}, new LambdaInstruction<int>([](int a) { return a; }));
    add({D, I}, new LambdaInstruction<double, int>([](double a, int b) { return a + b; }));
    add({F, F}, new LambdaInstruction<float, float>([](float a, float b) { return a + b; }));
    add({C}, new LambdaInstruction<Constant>([](Constant a) { return (double)(int)a; }));
    add({D, C}, new LambdaInstruction<double, Constant>([](double a, Constant c) { return a + (int)c; }));
    add({D, D, D}, new LambdaInstruction<double, double, double>([](double a, double b, double c) { return a + b * c; }));
    add({A("double", 2)}, new LambdaInstruction<const double[2]>([](const double a[2]) { return a[0]; }));
    add({A("double", 3)}, new LambdaInstruction<const double[3]>([](const double a[3]) { return a[2]; }));
    add({A("double", 5), D}, new LambdaInstruction<const double[5], double>([](const double a[5], double b) { return a[2] + b; }));
    add({A("int", 3)}, new LambdaInstruction<const int[3]>([](const int a[3]) { return a[2]; }));
    add({A("float", 2), I}, new LambdaInstruction<const float[2], int>([](const float a[2], int b) { return a[1] + b; }));
    add({B("double", 2, 2)}, new LambdaInstruction<const double[2][2]>([](const double a[2][2]) { return a[1][0]; }));
    add({B("double", 1, 3), D}, new LambdaInstruction<const double[1][3], double>([](const double a[1][3], double b) { return a[0][2] + b; }));
    add({B("int", 3, 2)}, new LambdaInstruction<const int[3][2]>([](const int a[3][2]) { return a[2][1]; }));
    add({B("double", 3, 1)}, new LambdaInstruction<const double[3][1]>([](const double a[3][1]) { return a[2][0]; }));
    return v;
}
static Obj ty(const Ty& t)
{
    return Obj()("b", t.b)("d", t.d);
}
struct Source
{
    Ty t;
    std::unique_ptr<Data::DataHandler> h;
};
static Source source(Rnd& r)
{
    int n = (int)r.in(1, 9), w = (int)r.in(1, 4), h = (int)r.in(1, 4);
    Source s;
    switch (r.in(0, 6)) {
    case 0: s.t = {"double", {n}}; s.h.reset(new Data::PrimitiveTypeArray<double>(n)); break;
    case 1: s.t = {"int", {n}}; s.h.reset(new Data::PrimitiveTypeArray<int>(n)); break;
    case 2: s.t = {"float", {n}}; s.h.reset(new Data::PrimitiveTypeArray<float>(n)); break;
    case 3: s.t = {"double", {h, w}}; s.h.reset(new Data::PrimitiveTypeArray2D<double>(w, h)); break;
    case 4: s.t = {"int", {h, w}}; s.h.reset(new Data::PrimitiveTypeArray2D<int>(w, h)); break;
    case 5: s.t = {"int", {n}}; s.h.reset(new Data::ArrayWrapper<int>(n)); break;
    default: s.t = {"double", {h, w}}; s.h.reset(new Data::Array2DWrapper<double>(w, h)); break;
    }
    return s;
}

static Arr lines(const Program::Program& p)
{
    Arr a;
    for (size_t k = 0; k < p.getNbLines(); k++) {
        const auto& l = p.getLine(k);
        Arr o;
        for (size_t i = 0; i < p.getEnvironment().getMaxNbOperands(); i++)
            o.add(Arr().add(l.getOperand(i).first).add(l.getOperand(i).second));
        a.add(Obj()("i", l.getInstructionIndex())("d", l.getDestinationIndex())("o", o)("t", p.isIntron(k)));
    }
    return a;
}
static bool typed(const Program::Program& p)
{
    auto& e = p.getEnvironment();
    for (size_t k = 0; k < p.getNbLines(); k++) {
        const auto& l = p.getLine(k);
        if (l.getInstructionIndex() >= e.getNbInstructions())
            return false;
        auto& i = e.getInstructionSet().getInstruction(l.getInstructionIndex());
        for (size_t o = 0; o < i.getNbOperands(); o++)
            if (l.getOperand(o).first >= e.getNbDataSources() ||
                !e.getFakeDataSources().at(l.getOperand(o).first).get().canHandle(i.getOperandTypes().at(o).get()))
                return false;
    }
    return true;
}

static void edits(Rnd& r, Trace& t, const Environment& e, int steps)
{
    std::vector<std::unique_ptr<Program::Program>> ps;
    for (int s = 0; s < steps; s++) {
        int k = (int)r.in(0, 99);
        if (ps.empty() || (k < 3 && ps.size() < 3)) {
            ps.emplace_back(new Program::Program(e));
            t.emit(Obj()("e", "Prog")("g", ps.size())("lines", lines(*ps.back())));
            continue;
        }
        size_t g = (size_t)r.in(0, (int64_t)ps.size() - 1);
        auto& p = *ps[g];
        if (k < 7 && ps.size() < 5) {
            ps.emplace_back(new Program::Program(p));
            t.emit(Obj()("e", "Copy")("g", ps.size())("of", g + 1)("lines", lines(*ps.back())));
        }
        else if (k < 12) {
            if (!typed(p))
                continue;
            p.identifyIntrons();
            t.emit(Obj()("e", "Introns")("g", g + 1)("lines", lines(p)));
        }
        else if (k < 17)
            t.emit(Obj()("e", "Look")("g", g + 1)("lines", lines(p)));
        else if (k < 25) {
            size_t h = (size_t)r.in(0, (int64_t)ps.size() - 1);
            if (p.getNbLines() == 0 || ps[h]->getNbLines() == 0)
                continue;
            size_t a = (size_t)r.in(0, p.getNbLines() - 1), b = (size_t)r.in(0, ps[h]->getNbLines() - 1);
            bool eq = p.getLine(a) == ps[h]->getLine(b);
            bool ne = p.getLine(a) != ps[h]->getLine(b);
            t.emit(Obj()("e", "Equal")("g", g + 1)("h", h + 1)("p", a)("q", b)("res", eq));
            t.emit(Obj()("e", "Equal")("g", g + 1)("h", h + 1)("p", a)("q", b)("res", !ne));
        }
        else {
            static const char* names[] = {"Add", "Add", "Add", "Remove", "Swap", "Instr", "Dest", "Oper", "Oper", "Oper", "Clear"};
            std::string op = names[r.in(0, 10)];
            if (op == "Clear" && r.chance(60))
                continue;
            if (op == "Remove" && r.chance(30))
                continue;
            size_t n = p.getNbLines();
            if (op == "Add" && n > 9)
                continue;
            auto pos = [&](size_t top) { // mostly valid
                return (size_t)(r.chance(85) && top > 0 ? r.in(0, top - 1) : r.in(top, top + 2));
            };
            size_t a = pos(op == "Add" ? n + 1 : n), b = pos(n), v = 0, w = 0, o = 0;
            bool check = r.chance(80), dflt = check && r.chance(50), ok = true;
            try {
                if (op == "Add") {
                    if (a == n && r.chance(50))
                        p.addNewLine();
                    else
                        p.addNewLine(a);
                }
                else if (op == "Remove")
                    p.removeLine(a);
                else if (op == "Swap")
                    p.swapLines(a, b);
                else if (op == "Clear")
                    p.clearIntrons();
                else if (op == "Instr") {
                    v = pos(e.getNbInstructions());
                    ok = dflt ? p.getLine(a).setInstructionIndex(v) : p.getLine(a).setInstructionIndex(v, check);
                }
                else if (op == "Dest") {
                    v = pos(e.getNbRegisters());
                    ok = dflt ? p.getLine(a).setDestinationIndex(v) : p.getLine(a).setDestinationIndex(v, check);
                }
                else {
                    o = pos(e.getMaxNbOperands());
                    v = pos(e.getNbDataSources());
                    w = pos(e.getLargestAddressSpace());
                    ok = dflt ? p.getLine(a).setOperand(o, v, w) : p.getLine(a).setOperand(o, v, w, check);
                }
            }
            catch (std::exception&) {
                ok = false;
            }
            t.emit(Obj()("e", "Edit")("g", g + 1)("op", op)("p", a)("q", b)("k", o)("v", v)("w", w)("check", check)(
                "res", ok ? "done" : "refused")("lines", lines(p)));
        }
    }
}

static void environments(Rnd& r, Trace& t, int steps)
{
    auto all = pool();
    std::vector<size_t> chosen;
    int ni = (int)r.in(0, 9);
    for (int k = 0; k < ni; k++)
        chosen.push_back((size_t)r.in(0, r.chance(50) ? 3 : (int64_t)all.size() - 1));
    std::vector<Source> srcs;
    int ns = (int)r.in(0, 4);
    for (int k = 0; k < ns; k++)
        srcs.push_back(source(r));
    size_t regs = (size_t)(r.chance(5) ? 0 : r.chance(50) ? r.in(1, 3) : r.in(1, 17));
    size_t consts = (size_t)(r.chance(50) ? 0 : r.chance(50) ? 1 : r.in(1, 20));
    Set set;
    Arr ins, ss;
    for (size_t c : chosen) {
        set.add(*all[c].i);
        Arr a;
        for (auto& x : all[c].t)
            a.add(ty(x));
        ins.add(a);
    }
    std::vector<std::reference_wrapper<const Data::DataHandler>> ds;
    for (auto& s : srcs) {
        ds.push_back(*s.h);
        ss.add(ty(s.t));
    }
    Obj o;
    o("e", "Env")("instrs", ins)("srcs", ss)("regs", regs)("consts", consts);
    std::unique_ptr<Environment> e;
    try {
        e.reset(new Environment(set, ds, regs, consts));
    }
    catch (std::domain_error&) {
        t.emit(o("refused", true));
        return;
    }
    // the instructions kept, found again in the order of the set
    Arr kept;
    size_t at = 0;
    bool found = true;
    for (size_t k = 0; k < e->getNbInstructions(); k++) {
        const Instruction* i = &e->getInstructionSet().getInstruction(k);
        // the same instruction may be several times in the set, all of them kept
        while (at < chosen.size() && all[chosen[at]].i.get() != i)
            at++;
        found = found && at < chosen.size();
        kept.add(++at);
    }
    found = found && e->getInstructionSet().getNbInstructions() == e->getNbInstructions();
    // order of the sources
    auto& f = e->getFakeDataSources();
    size_t off = consts > 0 ? 2 : 1;
    bool order = f.size() == off + ds.size() && e->getDataSources().size() == ds.size() && f[0].get().canHandle(typeid(double)) &&
                 f[0].get().getAddressSpace(typeid(double)) == regs &&
                 (consts == 0 || (f[1].get().canHandle(typeid(Constant)) && f[1].get().getAddressSpace(typeid(Constant)) == consts));
    for (size_t k = 0; order && k < ds.size(); k++)
        order = &f[off + k].get() == &ds[k].get() && &e->getDataSources()[k].get() == &ds[k].get();
    auto ls = e->getLineSize();
    t.emit(o("refused", false)("kept", kept)("ops", e->getMaxNbOperands())("nsrc", e->getNbDataSources())(
        "largest", e->getLargestAddressSpace())("ibits", ls.nbInstructionBits)("dbits", ls.nbDestinationBits)(
        "sbits", ls.nbOperandDataSourceIndexBits)("abits", ls.nbOperandLocationBits)("obits", ls.nbOperandsBits)(
        "total", (size_t)ls)("order", order && found && e->getNbRegisters() == regs && e->getNbConstant() == consts));
    edits(r, t, *e, steps);
}

// ------------------------------------------------------------------ engines
static void engines(Rnd& r, Trace& t, int steps)
{
    Set set;
    LambdaInstruction<double, double> add([](double a, double b) { return a + b; });
    LambdaInstruction<double, double> sub([](double a, double b) { return a - b; });
    LambdaInstruction<Constant> cst([](Constant c) { return (double)(int)c; });
    set.add(add);
    set.add(sub);
    set.add(cst);
    bool consts = r.chance(60);
    // objects: a few handlers and clones of them (same identity)
    struct O
    {
        std::unique_ptr<Data::DataHandler> h;
        int id, v;
    };
    std::vector<O> os;
    int n = (int)r.in(1, 3), v = 1;
    for (int k = 0; k < n; k++) {
        auto* d = new Data::PrimitiveTypeArray<double>(1 + (unsigned)r.in(1, 3));
        os.push_back({std::unique_ptr<Data::DataHandler>(d), k + 1, 0});
    }
    int m = (int)r.in(0, 4);
    for (int k = 0; k < m; k++) {
        auto& x = os[(size_t)r.in(0, n - 1)];
        os.push_back({std::unique_ptr<Data::DataHandler>(x.h->clone()), x.id, 0});
    }
    for (auto& x : os) {
        x.v = v++;
        static_cast<Data::PrimitiveTypeArray<double>&>(*x.h).setDataAt(typeid(double), 0, x.v);
    }
    using Refs = std::vector<std::reference_wrapper<const Data::DataHandler>>;
    auto refs = [&](const std::vector<int>& l) {
        Refs f;
        for (int k : l)
            f.push_back(*os[(size_t)k].h);
        return f;
    };
    auto objs = [&](const std::vector<int>& l) {
        Arr a;
        for (int k : l)
            a.add(Obj()("id", os[(size_t)k].id)("v", os[(size_t)k].v));
        return a;
    };
    auto pick = [&](int a, int b) {
        std::vector<int> l;
        int len = (int)r.in(a, b);
        for (int k = 0; k < len; k++)
            l.push_back((int)r.in(0, (int64_t)os.size() - 1));
        return l;
    };
    // objects with the identities of others, mostly
    auto like = [&](const std::vector<int>& ids, bool exact) {
        std::vector<int> l;
        for (int id : ids) {
            std::vector<int> c;
            for (size_t k = 0; k < os.size(); k++)
                if (os[k].id == id)
                    c.push_back((int)k);
            l.push_back(c.empty() ? 0 : r.pick(c));
        }
        if (!exact) {
            int k = (int)r.in(0, 3);
            if (k == 0 && l.size() > 0)
                l[(size_t)r.in(0, (int64_t)l.size() - 1)] = (int)r.in(0, (int64_t)os.size() - 1);
            else if (k == 1)
                l.push_back((int)r.in(0, (int64_t)os.size() - 1));
            else if (k == 2 && l.size() > 0)
                l.pop_back();
            else if (l.size() > 1)
                std::swap(l[0], l[1]);
        }
        return l;
    };
    std::vector<std::unique_ptr<Environment>> es;
    std::vector<std::vector<int>> esrc; // objects
    int ne = (int)r.in(1, 3);
    for (int k = 0; k < ne; k++) {
        auto l = (k > 0 && r.chance(70)) ? esrc[0] : pick(1, 3);
        if (k > 0 && r.chance(40))
            l = like([&] {
                std::vector<int> ids;
                for (int x : l)
                    ids.push_back(os[(size_t)x].id);
                return ids;
            }(), false);
        if (l.empty())
            l.push_back(0);
        esrc.push_back(l);
        es.emplace_back(new Environment(set, refs(l), 3, consts ? 2 : 0));
    }
    struct P
    {
        std::unique_ptr<Program::Program> p;
        std::vector<int> ids;
        int env;
    };
    std::vector<P> ps;
    Arr table;
    int np = (int)r.in(2, 6);
    for (int k = 0; k < np; k++) {
        int e = (int)r.in(0, ne - 1);
        P p;
        p.env = e;
        p.p.reset(new Program::Program(*es[(size_t)e]));
        for (int x : esrc[(size_t)e])
            p.ids.push_back(os[(size_t)x].id);
        int pos = (int)r.in(consts ? 0 : 1, (int64_t)p.ids.size()), c = 100 + k;
        auto& l = p.p->addNewLine();
        l.setDestinationIndex(0);
        if (pos == 0) {
            l.setInstructionIndex(2);
            l.setOperand(0, 1, 0);
            p.p->getConstantHandler().setDataAt(typeid(Constant), 0, Constant{c});
        }
        else {
            l.setInstructionIndex(0);
            l.setOperand(0, (uint64_t)(pos + (consts ? 1 : 0)), 0);
            l.setOperand(1, 0, 1);
        }
        table.add(Obj()("ids", p.ids)("pos", pos)("c", c));
        ps.push_back(std::move(p));
    }
    t.emit(Obj()("e", "World")("progs", table));
    std::unique_ptr<Program::ProgramExecutionEngine> eng;
    bool has = false;
    size_t cur = 0;
    for (int s = 0; s < steps; s++) {
        int k = (int)r.in(0, 99);
        size_t g = (size_t)r.in(0, np - 1);
        bool ok = true;
        if (!eng || k < 6) {
            std::string by = r.chance(30) ? "env" : r.chance(50) ? "prog" : "with";
            std::vector<int> l = esrc[(size_t)ps[g].env];
            if (by == "with")
                l = like(ps[g].ids, r.chance(70));
            eng.reset();
            try {
                if (by == "env")
                    eng.reset(new Program::ProgramExecutionEngine(*es[(size_t)ps[g].env]));
                else if (by == "prog")
                    eng.reset(new Program::ProgramExecutionEngine(*ps[g].p));
                else
                    eng.reset(new Program::ProgramExecutionEngine(*ps[g].p, refs(l)));
            }
            catch (std::runtime_error&) {
                ok = false;
            }
            has = ok && by != "env";
            cur = g;
            t.emit(Obj()("e", "Engine")("by", by)("g", g + 1)("srcs", objs(l))("res", ok ? "done" : "refused"));
        }
        else if (k < 40) {
            try {
                eng->setProgram(*ps[g].p);
                has = true;
                cur = g;
            }
            catch (std::runtime_error&) {
                ok = false;
            }
            t.emit(Obj()("e", "SetProg")("g", g + 1)("res", ok ? "done" : "refused"));
        }
        else if (k < 65 && has) {
            auto l = like(ps[cur].ids, r.chance(60));
            try {
                eng->setDataSources(refs(l));
            }
            catch (std::runtime_error&) {
                ok = false;
            }
            t.emit(Obj()("e", "SetSrcs")("srcs", objs(l))("res", ok ? "done" : "refused"));
        }
        if (has && eng && r.chance(60))
            t.emit(Obj()("e", "Run")("x", enc(eng->executeProgram())));
    }
}
int main(int, char** argv)
{
    Rnd r(strtoull(argv[2], nullptr, 10));
    int worlds = atoi(argv[3]), steps = atoi(argv[4]);
    Trace t(argv[5]);
    while (worlds-- > 0) {
        if (r.chance(65))
            environments(r, t, steps);
        else
            engines(r, t, steps);
    }
    return 0;
}
