// C22: draws of several generators, against the raw numbers of the standard
// engine seeded alike.
#include "vt.h"
#include "mutator/rng.h"
#include <random>
using namespace vt;

static Arr limbs(uint64_t x)
{
    return Arr().add(x >> 44).add((x >> 22) & 0x3FFFFF).add(x & 0x3FFFFF);
}
static Arr raws(uint64_t seed, int n)
{
    std::mt19937_64 e(seed);
    Arr a;
    for (int i = 0; i < n; i++)
        a.add(limbs(e()));
    return a;
}
static uint64_t bound(Rnd& r)
{
    switch (r.in(0, 6)) {
    case 0: return 0;
    case 1: return UINT64_MAX;
    case 2: return (uint64_t)r.in(0, 20);
    case 3: return UINT64_MAX - (uint64_t)r.in(0, 20);
    case 4: return (1ull << r.in(0, 63)) + (uint64_t)r.in(-2, 2);
    case 5: return r.next() >> r.in(0, 63);
    default: return r.next();
    }
}
static int32_t bound32(Rnd& r)
{
    switch (r.in(0, 4)) {
    case 0: return INT32_MIN + (int32_t)r.in(0, 2);
    case 1: return INT32_MAX - (int32_t)r.in(0, 2);
    case 2: return (int32_t)r.in(-10, 10);
    default: return (int32_t)(uint32_t)r.next();
    }
}
static uint64_t shift(int32_t x)
{
    return (uint64_t)((int64_t)x + 2147483648ll);
}
int main(int, char** argv)
{
    Rnd r(strtoull(argv[2], nullptr, 10));
    int worlds = atoi(argv[3]), steps = atoi(argv[4]);
    Trace t(argv[5]);
    while (worlds-- > 0) {
        std::vector<std::unique_ptr<Mutator::RNG>> gs;
        int ahead = steps * 4 + 60;
        t.emit(Obj()("e", "World"));
        auto seed = [&]() { return r.chance(30) ? (uint64_t)r.in(0, 2) : r.chance(10) ? UINT64_MAX : r.next(); };
        for (int s = 0; s < steps; s++) {
            int k = (int)r.in(0, 99);
            if (gs.empty() || (k < 3 && gs.size() < 4)) {
                uint64_t x = seed();
                if (r.chance(20)) {
                    gs.emplace_back(new Mutator::RNG());
                    x = 0;
                }
                else
                    gs.emplace_back(new Mutator::RNG(x));
                t.emit(Obj()("e", "New")("g", gs.size())("raws", raws(x, ahead)));
                continue;
            }
            size_t i = (size_t)r.in(0, (int64_t)gs.size() - 1);
            auto& g = *gs[i];
            if (k < 6 && gs.size() < 5) {
                gs.emplace_back(new Mutator::RNG(g));
                t.emit(Obj()("e", "Copy")("g", gs.size())("of", i + 1));
            }
            else if (k < 9) {
                uint64_t x = seed();
                g.setSeed(x);
                t.emit(Obj()("e", "Seed")("g", i + 1)("raws", raws(x, ahead)));
            }
            else if (k < 55) {
                uint64_t a = bound(r), b = bound(r);
                if (a > b)
                    std::swap(a, b);
                t.emit(Obj()("e", "Int")("g", i + 1)("lo", limbs(a))("hi", limbs(b))("x", limbs(g.getUnsignedInt64(a, b))));
            }
            else if (k < 80) {
                int32_t a = bound32(r), b = bound32(r);
                if (a > b)
                    std::swap(a, b);
                t.emit(Obj()("e", "Int")("g", i + 1)("lo", limbs(shift(a)))("hi", limbs(shift(b)))("x", limbs(shift(g.getInt32(a, b)))));
            }
            else {
                int a = 0, b = 1;
                if (r.chance(50)) {
                    a = (int)r.in(-5, 5);
                    b = a + (int)r.in(0, 6);
                }
                double x = g.getDouble(a, b);
                double u = a == b ? 0.0 : (x - a) / (b - a); // exact for 0..1
                Obj o;
                o("e", "Real")("g", i + 1)("in", x >= a && x <= b)("point", a == b)("unit", a == 0 && b == 1)(
                    "q", (int)std::floor(std::ldexp(u, 20)));
                o("x", limbs(a == 0 && b == 1 && u < 1 ? (uint64_t)std::ldexp(u, 64) : 0));
                t.emit(o);
            }
        }
    }
    return 0;
}
