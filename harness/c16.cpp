// C16: C code is generated from random policies in both modes, compiled with
// the system's C compiler, loaded, and called again and again on changing data.
#include "vpolicy.h"
#include "codeGen/tpgGenerationEngineFactory.h"
#include "tpg/tpgExecutionEngine.h"
#include <dlfcn.h>
#include <sys/stat.h>
#include <unistd.h>
using namespace vt;

static std::string dir;
static int serial = 0;

struct Code
{
    void* h = nullptr;
    int (*infer)() = nullptr;
    ~Code()
    {
        if (h)
            dlclose(h);
    }
};
static std::unique_ptr<Code> generate(World& w, const TPG::TPGGraph& g, bool stack)
{
    using F = CodeGen::TPGGenerationEngineFactory;
    std::string name = "g" + std::to_string(serial++);
    {
        F f(stack ? F::stackMode : F::switchMode);
        auto e = f.create(name, g, dir + "/");
        e->generateTPGGraph();
    }
    std::ofstream glue(dir + "/" + name + "_glue.c");
    int n = 0;
    for (auto& s : w.srcs)
        glue << (s->el == "d" ? "double" : "int") << "* in" << ++n << ";\n";
    glue << "void vt_bind(void** p) {\n";
    n = 0;
    for (auto& s : w.srcs) {
        (void)s;
        glue << "  in" << n + 1 << " = p[" << n << "];\n";
        n++;
    }
    glue << "}\n#include \"" << name << ".h\"\n#include \"" << name << ".h\"\n";
    glue.close();
    // everything must compile, and every name used must be defined
    std::string base = dir + "/" + name;
    std::string cmd = "gcc -w -O0 -shared -fPIC -Wl,-z,defs -I" + dir + " -o " + base + ".so " + base + ".c " + base +
                      "_program.c " + base + "_glue.c -lm 2> " + base + ".err";
    std::unique_ptr<Code> c(new Code);
    if (system(cmd.c_str()) == 0) {
        c->h = dlopen((base + ".so").c_str(), RTLD_NOW | RTLD_LOCAL);
        if (c->h) {
            c->infer = (int (*)())dlsym(c->h, "inferenceTPG");
            auto b = (void (*)(void**))dlsym(c->h, "vt_bind");
            std::vector<void*> p;
            for (auto& s : w.srcs)
                p.push_back(s->el == "d" ? (void*)s->bufD.data() : (void*)s->bufI.data());
            b(p.data());
        }
    }
    if (c->infer && !getenv("VT_KEEP"))
        for (const char* x : {".c", ".h", "_program.c", "_program.h", "_glue.c", ".so", ".err"})
            unlink((base + x).c_str());
    return c;
}

static void world(Rnd& r, Trace& t, int gens, int calls)
{
    std::unique_ptr<World> w(randomWorld(r));
    t.emit(w->envEvent());
    Policy p(r, *w);
    if (r.chance(10))
        p.build(0, (int)r.in(1, 3), 1); // actions only
    else
        p.build((int)r.in(1, 7), (int)r.in(1, 5), (int)r.in(2, 5));
    TPG::TPGExecutionEngine eng(*w->env);
    w->randomData(r);
    t.emit(Obj()("e", "Data")("data", w->data()));
    for (int k = 0; k < gens; k++) {
        if (k > 0 && !p.g->getEdges().empty())
            for (int i = (int)r.in(1, 4); i > 0; i--)
                p.edit();
        t.emit(p.event("Graph"));
        auto root = p.g->getRootVertices().at(0);
        std::unique_ptr<Code> code[2];
        bool ok = true;
        for (int m = 0; m < 2; m++) {
            code[m] = generate(*w, *p.g, m == 1);
            ok = ok && code[m]->infer;
            t.emit(Obj()("e", "Gen")("mode", m ? "stack" : "switch")("ok", code[m]->infer != nullptr));
        }
        if (!ok)
            continue;
        t.emit(p.event("Same")); // generating changes nothing
        for (int i = 0; i < calls; i++) {
            if (r.chance(75)) {
                w->randomData(r);
                t.emit(Obj()("e", "Data")("data", w->data()));
            }
            Obj o;
            int first = (int)r.in(0, 1);
            int got[2];
            got[first] = code[first]->infer();
            got[1 - first] = code[1 - first]->infer();
            auto path = eng.executeFromRoot(*root);
            o("e", "Call")("root", p.ids.vertex(root))("sw", got[0])("st", got[1]);
            o("lib", (int)((const TPG::TPGAction*)path.back())->getActionID());
            t.emit(o);
        }
    }
}
int main(int argc, char** argv)
{
    Rnd r(strtoull(argv[2], nullptr, 10));
    Trace t(argv[5]);
    dir = std::string(argv[5]) + ".dir";
    mkdir(dir.c_str(), 0755);
    std::ofstream h(dir + "/externHeader.h");
    h << "#ifndef EXTERN_HEADER_H\n#define EXTERN_HEADER_H\n#include <math.h>\n#include <stdint.h>\n"
         "static inline double vt_norm(double x) {\n  double m;\n  if (!isfinite(x)) return NAN;\n"
         "  m = fmod(x + 100.0, 201.0);\n  if (m < 0) m += 201.0;\n  return m - 100.0;\n}\n#endif\n";
    h.close();
    for (int i = 0; i < atoi(argv[3]); i++)
        world(r, t, 2, atoi(argv[4]));
    return 0;
}
