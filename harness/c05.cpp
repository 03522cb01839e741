// C05: random histories of program and line mutations; every call is recorded
// with the program before (state of the specification) and after.
#include "vt.h"
#include "mutator/lineMutator.h"
#include "mutator/programMutator.h"
using namespace vt;
using Mutator::RNG;
namespace PM = Mutator::ProgramMutator;

static double prob(Rnd& r)
{
    int c = (int)r.in(0, 9);
    return c < 3 ? 0.0 : c < 6 ? 1.0 : r.in(1, 99) / 100.0;
}
static int pct(double p) // only 0 and 100 are exact for the specification
{
    return p <= 0 ? 0 : p >= 1 ? 100 : 50;
}
static World* smallWorld(Rnd& r)
{
    if (r.chance(70))
        return randomWorld(r);
    // degenerate shapes: one register, one instruction, one address
    World* w = new World;
    w->srcs.emplace_back(Src::make(r.chance(50) ? "pw" : "pa", "d", 1, 1));
    if (r.chance(40))
        w->srcs.emplace_back(Src::make("aw", "i", 1, 2));
    w->addOp(1);
    w->addOp(r.chance(50) ? 2 : 6);
    if (r.chance(50))
        w->addOp(5);
    if (r.chance(50))
        w->addOp(4);
    w->finish((int)r.in(1, 2), (int)r.in(0, 1));
    return w;
}

static void world(Rnd& r, Trace& t, int steps)
{
    std::unique_ptr<World> w(smallWorld(r));
    t.emit(w->envEvent());
    Program::Program p(*w->env);
    RNG rng(r.next());
    Mutator::MutationParameters params;
    auto draw = [&]() {
        auto& q = params.prog;
        q.maxProgramSize = (size_t)r.in(1, 9);
        q.pDelete = prob(r);
        q.pAdd = prob(r);
        q.pMutate = prob(r);
        q.pSwap = prob(r);
        q.pConstantMutation = prob(r);
        if (r.chance(50)) { // one operation at a time: exact step
            double x = 1.0;
            double* ps[5] = {&q.pDelete, &q.pAdd, &q.pMutate, &q.pSwap, &q.pConstantMutation};
            int k = (int)r.in(0, 4);
            for (int i = 0; i < 5; i++)
                *ps[i] = i == k ? x : 0.0;
        }
        q.minConstValue = (int32_t)r.in(-20, 5);
        q.maxConstValue = q.minConstValue + (int32_t)r.in(0, 15);
    };
    auto pj = [&]() {
        auto& q = params.prog;
        std::vector<int> v = {pct(q.pDelete), pct(q.pAdd), pct(q.pMutate), pct(q.pSwap), pct(q.pConstantMutation)};
        return Obj()("max", q.maxProgramSize)("p", v)("lo", q.minConstValue)("hi", q.maxConstValue);
    };
    auto done = [&](const char* e, bool ret) {
        t.emit(Obj()("e", e)("ret", ret)("params", pj())("prog", progJson(p)));
    };
    draw();
    PM::initRandomProgram(p, params, rng);
    done("Init", true);
    for (int s = 0; s < steps; s++) {
        int c = (int)r.in(0, 99);
        if (c < 6) {
            draw();
            PM::initRandomProgram(p, params, rng);
            done("Init", true);
        }
        else if (c < 16) {
            bool b = PM::deleteRandomLine(p, rng);
            done("Delete", b);
        }
        else if (c < 30) {
            if (p.getNbLines() > 9)
                continue;
            PM::insertRandomLine(p, rng);
            done("Insert", true);
        }
        else if (c < 40) {
            bool b = PM::swapRandomLines(p, rng);
            done("Swap", b);
        }
        else if (c < 50) {
            bool b = PM::alterRandomLine(p, rng);
            done("Alter", b);
        }
        else if (c < 53) {
            if (!w->ncst)
                continue;
            draw();
            bool b = PM::alterRandomConstant(p, params, rng);
            done("Const", b);
        }
        else if (c < 60) {
            if (!p.getNbLines())
                continue;
            size_t k = (size_t)r.in(0, (int64_t)p.getNbLines() - 1);
            bool init = r.chance(50);
            if (init)
                Mutator::LineMutator::initRandomCorrectLine(p.getLine(k), rng);
            else
                Mutator::LineMutator::alterCorrectLine(p.getLine(k), rng);
            t.emit(Obj()("e", init ? "LineInit" : "LineAlter")("k", k)("prog", progJson(p)));
        }
        else if (c < 62) {
            // an emptied program: the failing cases
            while (p.getNbLines() > (size_t)r.in(0, 1))
                p.removeLine(0);
            t.emit(Obj()("e", "Cut")("prog", progJson(p)));
            int k = (int)r.in(0, 2);
            bool b = k == 0 ? PM::deleteRandomLine(p, rng) : k == 1 ? PM::swapRandomLines(p, rng) : PM::alterRandomLine(p, rng);
            done(k == 0 ? "Delete" : k == 1 ? "Swap" : "Alter", b);
            PM::insertRandomLine(p, rng);
            done("Insert", true);
        }
        else {
            draw();
            if (p.getNbLines() == 0 || p.getNbLines() > params.prog.maxProgramSize)
                params.prog.maxProgramSize = p.getNbLines() + 1;
            if (p.getNbLines() == 0)
                continue;
            bool b = PM::mutateProgram(p, params, rng);
            done("Mutate", b);
        }
    }
}

int main(int argc, char** argv)
{
    Rnd r(strtoull(argv[2], nullptr, 10));
    Trace t(argv[5]);
    for (int i = 0; i < atoi(argv[3]); i++)
        world(r, t, atoi(argv[4]));
    return 0;
}
