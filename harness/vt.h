// Common support of the recording drivers: deterministic randomness, JSON
// lines, the integer-valued instruction set that spec/Prog.tla interprets, and
// projections of library objects onto the specification's state.
// Only the library's public interface is used here.
#ifndef VT_H
#define VT_H
#include <cmath>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fstream>
#include <functional>
#include <iostream>
#include <map>
#include <memory>
#include <set>
#include <sstream>
#include <string>
#include <vector>

#include <gegelati.h>

namespace vt {

    // ---------------------------------------------------------------- random
    struct Rnd
    {
        uint64_t s;
        explicit Rnd(uint64_t seed) : s(seed * 0x9E3779B97F4A7C15ull + 0x1234567)
        {
        }
        uint64_t next()
        {
            uint64_t z = (s += 0x9E3779B97F4A7C15ull);
            z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
            z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
            return z ^ (z >> 31);
        }
        // uniform in [a,b]
        int64_t in(int64_t a, int64_t b)
        {
            return a + (int64_t)(next() % (uint64_t)(b - a + 1));
        }
        bool chance(int pct)
        {
            return in(0, 99) < pct;
        }
        template <class T> T& pick(std::vector<T>& v)
        {
            return v[(size_t)in(0, (int64_t)v.size() - 1)];
        }
        template <class T> const T& pick(const std::vector<T>& v)
        {
            return v[(size_t)in(0, (int64_t)v.size() - 1)];
        }
    };

    // ------------------------------------------------------------------ json
    struct Arr;
    struct Obj
    {
        std::string b = "{";
        Obj& raw(const char* k, const std::string& v)
        {
            if (b.size() > 1)
                b += ',';
            b += '"';
            b += k;
            b += "\":";
            b += v;
            return *this;
        }
        Obj& operator()(const char* k, const char* v)
        {
            return raw(k, std::string("\"") + v + "\"");
        }
        Obj& operator()(const char* k, const std::string& v)
        {
            return raw(k, "\"" + v + "\"");
        }
        Obj& operator()(const char* k, bool v)
        {
            return raw(k, v ? "true" : "false");
        }
        template <class T,
                  class = std::enable_if_t<std::is_integral<T>::value &&
                                           !std::is_same<T, bool>::value>>
        Obj& operator()(const char* k, T v)
        {
            return raw(k, std::to_string(v));
        }
        Obj& operator()(const char* k, const Arr& v);
        Obj& operator()(const char* k, const Obj& v)
        {
            return raw(k, v.str());
        }
        template <class T> Obj& operator()(const char* k, const std::vector<T>& v);
        std::string str() const
        {
            return b + "}";
        }
    };
    struct Arr
    {
        std::string b = "[";
        Arr& raw(const std::string& v)
        {
            if (b.size() > 1)
                b += ',';
            b += v;
            return *this;
        }
        template <class T,
                  class = std::enable_if_t<std::is_integral<T>::value>>
        Arr& add(T v)
        {
            if constexpr (std::is_same<T, bool>::value)
                return raw(v ? "true" : "false");
            else
                return raw(std::to_string(v));
        }
        Arr& add(const std::string& v)
        {
            return raw("\"" + v + "\"");
        }
        Arr& add(const char* v)
        {
            return raw(std::string("\"") + v + "\"");
        }
        Arr& add(const Obj& o)
        {
            return raw(o.str());
        }
        Arr& add(const Arr& o)
        {
            return raw(o.str());
        }
        template <class T> Arr& add(const std::vector<T>& v)
        {
            Arr a;
            for (const auto& x : v)
                a.add((T)x);
            return raw(a.str());
        }
        std::string str() const
        {
            return b + "]";
        }
    };
    inline Obj& Obj::operator()(const char* k, const Arr& v)
    {
        return raw(k, v.str());
    }
    template <class T> Obj& Obj::operator()(const char* k, const std::vector<T>& v)
    {
        Arr a;
        for (const auto& x : v)
            a.add((T)x);
        return raw(k, a.str());
    }

    struct Trace
    {
        FILE* f = nullptr;
        long n = 0;
        explicit Trace(const std::string& path)
        {
            f = fopen(path.c_str(), "w");
            if (!f) {
                fprintf(stderr, "cannot open %s\n", path.c_str());
                exit(3);
            }
        }
        ~Trace()
        {
            if (f)
                fclose(f);
        }
        void emit(const Obj& o)
        {
            std::string s = o.str();
            s += '\n';
            fwrite(s.data(), 1, s.size(), f);
            fflush(f);
            n++;
        }
    };

    // ------------------------------------------------ integer-valued doubles
    // Values of the specification: -100..100, PINF, NINF, NAN.
    const int PINF = 1000, NINF = -1000, QNAN = 9999, ODD = 7777;
    inline int enc(double v)
    {
        if (std::isnan(v))
            return QNAN;
        if (std::isinf(v))
            return v > 0 ? PINF : NINF;
        if (v != std::floor(v) || std::fabs(v) > 1e6)
            return ODD; // no value of the specification
        return (int)v;
    }
    inline double dec(int v)
    {
        if (v == QNAN)
            return std::nan("");
        if (v == PINF)
            return INFINITY;
        if (v == NINF)
            return -INFINITY;
        return v;
    }
    // arithmetic modulo 201, centred on 0; non-finite operands poison.
    inline double norm(double x)
    {
        if (!std::isfinite(x))
            return std::nan("");
        double m = std::fmod(x + 100.0, 201.0);
        if (m < 0)
            m += 201.0;
        return m - 100.0;
    }

    // ------------------------------------------------------------ operations
    struct OpDesc
    {
        int code;
        // operand types, as [el, a, b]: el in d,i,c ; a=b=0 scalar; a=0 1D[b]; 2D [a][b]
        std::vector<std::string> types;
        std::function<Instructions::Instruction*()> make;
    };

    inline const std::vector<OpDesc>& ops()
    {
        using namespace Instructions;
        using Data::Constant;
        static const std::vector<OpDesc> v = {
            {1, {"d", "d"}, []() -> Instruction* {
                 return new LambdaInstruction<double, double>(
                     [](double a, double b) { return norm(a + b); }, "$0 = vt_norm($1 + $2);");
             }},
            {2, {"d", "d"}, []() -> Instruction* {
                 return new LambdaInstruction<double, double>(
                     [](double a, double b) { return norm(a - b); }, "$0 = vt_norm($1 - $2);");
             }},
            {3, {"d", "d"}, []() -> Instruction* {
                 return new LambdaInstruction<double, double>(
                     [](double a, double b) { return norm(a * b); }, "$0 = vt_norm($1 * $2);");
             }},
            {4, {"d", "c"}, []() -> Instruction* {
                 return new LambdaInstruction<double, Constant>(
                     [](double a, Constant b) { return norm(a * (double)(int)b); },
                     "$0 = vt_norm($1 * $2);");
             }},
            {5, {"d", "i"}, []() -> Instruction* {
                 return new LambdaInstruction<double, int>(
                     [](double a, int b) { return norm(a + 2.0 * b); }, "$0 = vt_norm($1 + 2.0 * $2);");
             }},
            {6, {"d", "d"}, []() -> Instruction* {
                 return new LambdaInstruction<double, double>(
                     [](double a, double b) { return norm(a < b ? -a + 0 * b : a + 0 * b); },
                     "$0 = vt_norm($1 < $2 ? -$1 + 0 * $2 : $1 + 0 * $2);");
             }},
            {7, {"d2"}, []() -> Instruction* {
                 return new LambdaInstruction<const double[2]>(
                     [](const double a[2]) { return norm(2 * a[0] - a[1]); }, "$0 = vt_norm(2 * $1[0] - $1[1]);");
             }},
            {8, {"d3", "d"}, []() -> Instruction* {
                 return new LambdaInstruction<const double[3], double>(
                     [](const double a[3], double b) { return norm(a[0] + 2 * a[1] + 3 * a[2] - b); },
                     "$0 = vt_norm($1[0] + 2 * $1[1] + 3 * $1[2] - $2);");
             }},
            {9, {"d22"}, []() -> Instruction* {
                 return new LambdaInstruction<const double[2][2]>(
                     [](const double a[2][2]) {
                         return norm(a[0][0] + 2 * a[0][1] + 3 * a[1][0] + 5 * a[1][1]);
                     },
                     "$0 = vt_norm($1[0][0] + 2 * $1[0][1] + 3 * $1[1][0] + 5 * $1[1][1]);");
             }},
            {10, {"i2"}, []() -> Instruction* {
                 return new LambdaInstruction<const int[2]>(
                     [](const int a[2]) { return norm(3.0 * a[0] + a[1]); }, "$0 = vt_norm(3.0 * $1[0] + $1[1]);");
             }},
            {11, {"d", "d"}, []() -> Instruction* {
                 return new LambdaInstruction<double, double>(
                     [](double a, double b) { return b == 0.0 ? std::nan("") : norm(a + 2 * b); },
                     "$0 = ($2 == 0.0) ? NAN : vt_norm($1 + 2 * $2);");
             }},
            {12, {"d"}, []() -> Instruction* {
                 return new LambdaInstruction<double>(
                     [](double a) {
                         return a > 60 ? (double)INFINITY : a < -60 ? -(double)INFINITY : norm(a);
                     },
                     "$0 = $1 > 60 ? INFINITY : $1 < -60 ? -INFINITY : vt_norm($1);");
             }},
            {13, {"c", "c"}, []() -> Instruction* {
                 return new LambdaInstruction<Constant, Constant>(
                     [](Constant a, Constant b) { return norm((double)(int)a - 2.0 * (double)(int)b); },
                     "$0 = vt_norm($1 - 2.0 * $2);");
             }},
            {14, {"d23"}, []() -> Instruction* {
                 return new LambdaInstruction<const double[2][3]>(
                     [](const double a[2][3]) {
                         return norm(a[0][0] - a[0][1] + 2 * a[0][2] - 2 * a[1][0] + 3 * a[1][1] - 3 * a[1][2]);
                     },
                     "$0 = vt_norm($1[0][0] - $1[0][1] + 2 * $1[0][2] - 2 * $1[1][0] + 3 * $1[1][1] - 3 * $1[1][2]);");
             }},
            {15, {"d", "d", "d"}, []() -> Instruction* {
                 return new LambdaInstruction<double, double, double>(
                     [](double a, double b, double c) { return norm(a * b + c); }, "$0 = vt_norm($1 * $2 + $3);");
             }},
        };
        return v;
    }
    inline const OpDesc& op(int code)
    {
        for (auto& o : ops())
            if (o.code == code)
                return o;
        abort();
    }

    inline const std::type_info& typeOf(const std::string& t)
    {
        if (t == "d")
            return typeid(double);
        if (t == "i")
            return typeid(int);
        if (t == "c")
            return typeid(Data::Constant);
        if (t == "d2")
            return typeid(const double[2]);
        if (t == "d3")
            return typeid(const double[3]);
        if (t == "d4")
            return typeid(const double[4]);
        if (t == "i2")
            return typeid(const int[2]);
        if (t == "i3")
            return typeid(const int[3]);
        if (t == "d22")
            return typeid(const double[2][2]);
        if (t == "d23")
            return typeid(const double[2][3]);
        if (t == "d32")
            return typeid(const double[3][2]);
        if (t == "i22")
            return typeid(const int[2][2]);
        if (t == "c2")
            return typeid(const Data::Constant[2]);
        abort();
    }

    // ---------------------------------------------------------- data sources
    // A data source owned by the driver, with its specification-side shape.
    struct Src
    {
        std::string kind; // pa (owned array) pa2 (owned 2D) aw (wrapped) aw2 pw
        std::string el;   // d or i
        int h = 1, w = 1;
        std::unique_ptr<Data::DataHandler> dh;
        std::vector<double> bufD;
        std::vector<int> bufI;
        int dim() const
        {
            return kind == "pw" ? 0 : (kind == "pa2" || kind == "aw2") ? 2 : 1;
        }
        int size() const
        {
            return h * w;
        }
        static Src* make(const std::string& kind, const std::string& el, int h, int w)
        {
            Src* s = new Src;
            s->kind = kind;
            s->el = el;
            s->h = h;
            s->w = w;
            s->bufD.assign(h * w, 0.0);
            s->bufI.assign(h * w, 0);
            if (el == "d")
                s->mk<double>(s->bufD);
            else
                s->mk<int>(s->bufI);
            return s;
        }
        template <class T> void mk(std::vector<T>& buf)
        {
            if (kind == "pa")
                dh.reset(new Data::PrimitiveTypeArray<T>(w));
            else if (kind == "pa2")
                dh.reset(new Data::PrimitiveTypeArray2D<T>(w, h));
            else if (kind == "aw")
                dh.reset(new Data::ArrayWrapper<T>(w, &buf));
            else if (kind == "aw2")
                dh.reset(new Data::Array2DWrapper<T>(w, h, &buf));
            else
                dh.reset(new Data::PointerWrapper<T>(&buf[0]));
        }
        void set(int i, int v)
        {
            if (el == "d")
                setT<double>(bufD, i, v);
            else
                setT<int>(bufI, i, v);
        }
        template <class T> void setT(std::vector<T>& buf, int i, int v)
        {
            buf[i] = (T)v;
            if (kind == "pa")
                ((Data::PrimitiveTypeArray<T>*)dh.get())->setDataAt(typeid(T), i, (T)v);
            else if (kind == "pa2")
                ((Data::PrimitiveTypeArray2D<T>*)dh.get())->setDataAt(typeid(T), i, (T)v);
            else if (kind == "aw" || kind == "aw2")
                ((Data::ArrayWrapper<T>*)dh.get())->invalidateCachedHash();
        }
        std::vector<int> vals() const
        {
            std::vector<int> r;
            for (int i = 0; i < size(); i++)
                r.push_back(el == "d" ? (int)bufD[i] : bufI[i]);
            return r;
        }
        Obj json() const
        {
            Obj o;
            o("kind", kind)("el", el)("dim", dim())("h", h)("w", w);
            return o;
        }
    };

    struct World
    {
        std::vector<std::unique_ptr<Src>> srcs;
        std::vector<std::unique_ptr<Instructions::Instruction>> instrs;
        std::vector<int> given; // op codes given to the set, in order
        Instructions::Set set;
        std::unique_ptr<Environment> env;
        std::vector<std::reference_wrapper<const Data::DataHandler>> refs;
        int nreg = 8, ncst = 0;
        bool large = false; // more than 64 registers, constants or elements

        void addOp(int code)
        {
            instrs.emplace_back(op(code).make());
            given.push_back(code);
            set.add(*instrs.back());
        }
        void finish(int nr, int nc)
        {
            nreg = nr;
            ncst = nc;
            for (auto& s : srcs)
                refs.push_back(*s->dh);
            std::streambuf* sb = std::cout.rdbuf(nullptr); // ignored-instruction notices
            env.reset(new Environment(set, refs, nr, nc));
            std::cout.rdbuf(sb);
        }
        int codeOf(const Instructions::Instruction& i) const
        {
            for (size_t k = 0; k < instrs.size(); k++)
                if (instrs[k].get() == &i)
                    return given[k];
            return -1;
        }
        std::vector<int> kept() const
        {
            std::vector<int> r;
            for (size_t i = 0; i < env->getInstructionSet().getNbInstructions(); i++)
                r.push_back(codeOf(env->getInstructionSet().getInstruction(i)));
            return r;
        }
        void randomData(Rnd& r, int zeros = 15)
        {
            for (auto& s : srcs)
                for (int i = 0; i < s->size(); i++) {
                    int v = r.chance(zeros) ? 0 : (int)r.in(-100, 100);
                    s->set(i, v == 0 && zeros == 0 ? 101 : v);
                }
        }
        Arr data() const
        {
            Arr a;
            for (auto& s : srcs)
                a.add(s->vals());
            return a;
        }
        Obj envEvent() const
        {
            Obj o;
            Arr s;
            for (auto& x : srcs)
                s.add(x->json());
            o("e", "Env")("nreg", nreg)("ncst", ncst)("srcs", s)("given", given)("ops", kept());
            o("maxops", env->getMaxNbOperands())("nsrc", env->getNbDataSources());
            o("largest", env->getLargestAddressSpace());
            return o;
        }
    };

    // A random world. Always at least the op add and one double source.
    inline World* randomWorld(Rnd& r, bool allowConst = true, bool printableOnly = false,
                              bool allowLarge = true)
    {
        World* w = new World;
        w->large = r.chance(10) && allowLarge;
        int n = (int)r.in(1, 3);
        for (int i = 0; i < n; i++) {
            static const std::vector<std::string> kinds = {"pa", "pa2", "aw", "aw2", "pw"};
            std::string k = r.pick(kinds);
            std::string el = (i == 0 || r.chance(60)) ? "d" : "i";
            int h = 1, ww = (int)r.in(1, 5);
            if (k == "pa2" || k == "aw2") {
                h = (int)r.in(1, 4);
                ww = (int)r.in(1, 4);
            }
            if (k == "pw")
                h = ww = 1;
            else if (w->large && r.chance(50)) {
                if (h > 1)
                    h = (int)r.in(7, 12);
                ww = h > 1 ? (int)r.in(7, 12) : (int)r.in(64, 140);
            }
            w->srcs.emplace_back(Src::make(k, el, h, ww));
        }
        w->addOp(1);
        if (r.chance(50))
            w->addOp(2);
        else
            w->addOp(11);
        for (auto& o : ops())
            if (o.code != 1 && r.chance(45))
                w->addOp(o.code);
        int nc = allowConst && r.chance(60) ? (int)r.in(1, 5) : 0;
        if (w->large && nc > 0 && r.chance(50))
            nc = (int)r.in(64, 70);
        w->finish(w->large ? (int)r.in(64, 130) : (int)r.in(2, 8), nc);
        return w;
    }

    // -------------------------------------------------------------- programs
    inline Obj lineJson(const Program::Program& p, size_t i)
    {
        const Program::Line& l = p.getLine(i);
        const auto& set = p.getEnvironment().getInstructionSet();
        Obj o;
        o("i", l.getInstructionIndex())("d", l.getDestinationIndex());
        Arr a;
        for (size_t k = 0; k < p.getEnvironment().getMaxNbOperands(); k++) {
            Arr b;
            b.add(l.getOperand(k).first);
            b.add(l.getOperand(k).second);
            a.add(b);
        }
        (void)set;
        o("o", a)("x", p.isIntron(i));
        return o;
    }
    inline Obj progJson(const Program::Program& p)
    {
        Arr ls;
        for (size_t i = 0; i < p.getNbLines(); i++)
            ls.add(lineJson(p, i));
        std::vector<int> c;
        for (size_t i = 0; i < p.getEnvironment().getNbConstant(); i++)
            c.push_back((int)p.getConstantAt(i));
        Obj o;
        o("lines", ls)("cst", c);
        return o;
    }

    // In large worlds, registers that are likely to be met again
    inline uint64_t favourite(Rnd& r, const World& w)
    {
        int last = w.nreg - 1;
        int f[] = {0, 1, 31, 32, 62, 63, last - 1, last};
        return (uint64_t)f[r.in(0, 7)];
    }

    // Set line `l` to a random valid line: every operand from a source able to
    // provide its type.
    inline void randomLine(Rnd& r, World& w, Program::Line& l, int maxLoc = 9)
    {
        auto& set = w.env->getInstructionSet();
        size_t ii = (size_t)r.in(0, (int64_t)set.getNbInstructions() - 1);
        l.setInstructionIndex(ii);
        l.setDestinationIndex((uint64_t)r.in(0, r.chance(60) ? std::min(2, w.nreg - 1) : w.nreg - 1));
        if (w.large && r.chance(90))
            l.setDestinationIndex(favourite(r, w));
        auto& ins = set.getInstruction(ii);
        auto& fakes = w.env->getFakeDataSources();
        for (size_t k = 0; k < w.env->getMaxNbOperands(); k++) {
            if (k >= ins.getNbOperands()) {
                l.setOperand(k, 0, 0);
                continue;
            }
            const std::type_info& t = ins.getOperandTypes().at(k).get();
            std::vector<size_t> ok;
            for (size_t s = 0; s < fakes.size(); s++)
                if (fakes[s].get().canHandle(t))
                    ok.push_back(s);
            size_t s = (ok[0] == 0 && r.chance(50)) ? 0 : r.pick(ok);
            // raw locations beyond the address space are legal: they wrap
            int64_t last = (int64_t)w.env->getLargestAddressSpace() - 1;
            uint64_t loc = (uint64_t)r.in(0, w.large ? last : std::min<int64_t>(maxLoc, last));
            if (w.large && s == 0 && r.chance(80))
                loc = favourite(r, w);
            l.setOperand(k, s, loc);
        }
    }
    inline void copyLine(Program::Line& l, const Program::Line& m, World& w)
    {
        l.setInstructionIndex(m.getInstructionIndex());
        l.setDestinationIndex(m.getDestinationIndex());
        for (size_t k = 0; k < w.env->getMaxNbOperands(); k++)
            l.setOperand(k, m.getOperand(k).first, m.getOperand(k).second);
    }
    inline void randomConstants(Rnd& r, Program::Program& p)
    {
        for (size_t i = 0; i < p.getEnvironment().getNbConstant(); i++)
            p.getConstantHandler().setDataAt(typeid(Data::Constant), i, Data::Constant{(int32_t)r.in(-20, 20)});
    }
    inline void randomProgram(Rnd& r, World& w, Program::Program& p, int nlines)
    {
        for (int i = 0; i < nlines; i++) {
            auto& l = p.addNewLine();
            if (i > 0 && r.chance(15)) {
                // the same line again (mostly the previous one)
                auto& m = p.getLine((size_t)(r.chance(70) ? i - 1 : r.in(0, i - 1)));
                copyLine(l, m, w);
                continue;
            }
            randomLine(r, w, l);
        }
        randomConstants(r, p);
    }

    inline uint64_t argSeed(int argc, char** argv)
    {
        return argc > 1 ? strtoull(argv[1], nullptr, 10) : 1;
    }
} // namespace vt
#endif
