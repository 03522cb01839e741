#include <csignal>
#include <unistd.h>
// C06/C07: drives archives (recordings, evictions, novelty queries) and
// population steps against archives filled by inferences.
#include "vgraph.h"
#include "mutator/tpgMutator.h"
#include "tpg/tpgExecutionEngine.h"
using namespace vt;

struct Names
{
    std::map<size_t, int> h;
    std::map<const void*, int> a;
    int hash(size_t x)
    {
        auto it = h.find(x);
        return it != h.end() ? it->second : (h[x] = (int)h.size() + 1);
    }
    int addr(const void* p)
    {
        auto it = a.find(p);
        return it != a.end() ? it->second : (a[p] = (int)a.size() + 1);
    }
};

static std::vector<int> content(World& w, size_t k, const Data::DataHandler& d)
{
    std::vector<int> v;
    Src& s = *w.srcs[k];
    for (int i = 0; i < s.size(); i++)
        if (s.el == "d")
            v.push_back(enc(*d.getDataAt(typeid(double), i).getSharedPointer<const double>()));
        else
            v.push_back(*d.getDataAt(typeid(int), i).getSharedPointer<const int>());
    return v;
}

static Obj state(Obj o, const Archive& a, World& w, Names& n)
{
    size_t nb = a.getNbRecordings();
    Arr recs;
    for (size_t i = 0; i < nb; i++) {
        auto& x = a.at(i);
        Arr y;
        y.add(n.addr(x.prog)).add(n.hash(x.dataHash)).add(enc(x.result));
        recs.add(y);
    }
    bool beyond = false;
    try {
        a.at(nb);
    }
    catch (std::out_of_range&) {
        beyond = true;
    }
    Arr snaps;
    for (auto& s : a.getDataHandlers()) {
        Arr d;
        std::vector<std::unique_ptr<Data::DataHandler>> own;
        std::vector<std::reference_wrapper<const Data::DataHandler>> refs;
        for (size_t k = 0; k < s.second.size(); k++) {
            d.add(content(w, k, s.second[k].get()));
            own.emplace_back(s.second[k].get().clone()); // computes its hash afresh
            refs.push_back(*own.back());
        }
        size_t k1 = Archive::getCombinedHash(s.second), k2 = Archive::getCombinedHash(refs);
        snaps.add(Obj()("h", n.hash(s.first))("data", d)("key", k1 == k2 ? n.hash(k1) : -1)(
            "has", a.hasDataHandlers(s.first)));
    }
    return o("n", nb)("recs", recs)("beyond", beyond)("nsnaps", a.getNbDataHandlers())("snaps", snaps);
}

// contents drawn from a small pool, sharing and exchanging values between sources
static void someData(Rnd& r, World& w, int variants)
{
    Rnd q((uint64_t)r.in(1, variants));
    int a = (int)q.in(0, 2), b = (int)q.in(0, 2);
    for (auto& s : w.srcs)
        for (int i = 0; i < s->size(); i++)
            s->set(i, q.chance(50) ? a : b);
}

static void direct(Rnd& r, Trace& t, int steps)
{
    std::unique_ptr<World> w(randomWorld(r));
    Names n;
    int cap = (int)r.in(0, 6), pc = r.chance(60) ? 100 : r.chance(30) ? 0 : 50;
    std::unique_ptr<Archive> a(new Archive(cap, pc / 100.0, (size_t)r.next()));
    t.emit(state(Obj()("e", "New")("cap", cap)("prob", pc), *a, *w, n));
    std::map<int, std::unique_ptr<Program::Program>> ps;
    int nextP = 1;
    std::vector<std::pair<size_t, double>> seen; // results given so far
    std::vector<std::unique_ptr<Data::DataHandler>> clones;
    auto newProg = [&]() { ps[nextP++].reset(new Program::Program(*w->env)); };
    newProg();
    someData(r, *w, 5);
    for (int s = 0; s < steps; s++) {
        int c = (int)r.in(0, 99);
        if (c < 40) {
            auto it = ps.begin();
            std::advance(it, r.in(0, (int64_t)ps.size() - 1));
            std::vector<std::reference_wrapper<const Data::DataHandler>> refs = w->refs;
            if (r.chance(30)) { // through copies, as another thread would
                clones.clear();
                refs.clear();
                for (auto& x : w->srcs) {
                    clones.emplace_back(x->dh->clone());
                    refs.push_back(*clones.back());
                }
            }
            size_t h = Archive::getCombinedHash(refs);
            int v = r.chance(4) ? QNAN : (int)r.in(0, 3);
            bool forced = r.chance(25);
            Arr d = w->data();
            a->addRecording(it->second.get(), refs, dec(v), forced);
            clones.clear();
            seen.push_back({h, dec(v)});
            t.emit(state(Obj()("e", "Add")("p", it->first)("a", n.addr(it->second.get()))("h", n.hash(h))("data", d)(
                             "r", v)("forced", forced),
                         *a, *w, n));
        }
        else if (c < 60) {
            someData(r, *w, 5);
            if (r.chance(30))
                t.emit(state(Obj()("e", "Stay"), *a, *w, n));
        }
        else if (c < 66 && ps.size() < 5)
            newProg();
        else if (c < 74 && ps.size() > 1) {
            // a program disappears; the next one may get its address
            auto it = ps.begin();
            std::advance(it, r.in(0, (int64_t)ps.size() - 1));
            ps.erase(it);
            if (r.chance(80))
                newProg();
        }
        else if (c < 76) {
            a->clear();
            t.emit(state(Obj()("e", "Clear"), *a, *w, n));
        }
        else if (c < 78) {
            a->setRandomSeed((size_t)r.next());
            t.emit(state(Obj()("e", "Stay"), *a, *w, n));
        }
        else if (c < 82 && !seen.empty()) {
            size_t h = r.pick(seen).first;
            t.emit(Obj()("e", "Has")("h", n.hash(h))("has", a->hasDataHandlers(h)));
        }
        else if (!seen.empty()) {
            std::map<size_t, double> q;
            int mode = (int)r.in(0, 2);
            size_t nb = a->getNbRecordings();
            if (nb && mode < 2) {
                // what one archived program answered, possibly altered at one place
                const void* p = a->at((size_t)r.in(0, (int64_t)nb - 1)).prog;
                for (size_t i = 0; i < nb; i++)
                    if (a->at(i).prog == p && !std::isnan(a->at(i).result) && r.chance(90))
                        q[a->at(i).dataHash] = a->at(i).result;
                if (mode == 1)
                    for (auto& x : q)
                        if (r.chance(30))
                            x.second += (double)r.in(-3, 3);
            }
            for (int i = 0; i < (mode == 2 ? 3 : 1); i++)
                q.insert({r.pick(seen).first, (double)r.in(0, 3)});
            if (r.chance(5))
                q.begin()->second = INFINITY;
            int tau = r.chance(50) ? 0 : (int)r.in(0, 3);
            bool u = tau == 0 && r.chance(70) ? a->areProgramResultsUnique(q)
                                              : a->areProgramResultsUnique(q, r.chance(50) ? tau : tau + 0.5);
            Arr qa;
            for (auto& x : q) {
                Arr y;
                y.add(n.hash(x.first)).add(enc(x.second));
                qa.add(y);
            }
            t.emit(Obj()("e", "Unique")("q", qa)("tau", tau)("unique", u));
        }
    }
    if (pc == 50) {
        // unforced recordings are kept at about the archiving probability
        int tried = 400;
        Archive b((size_t)tried, 0.5, (size_t)r.next());
        for (int i = 0; i < tried; i++)
            b.addRecording(ps.begin()->second.get(), w->refs, 1.0);
        t.emit(Obj()("e", "Rate")("tried", tried)("kept", b.getNbRecordings()));
    }
}

struct Logged : Archive
{
    World& w;
    Trace& t;
    Names& n;
    std::map<const Program::Program*, std::pair<std::weak_ptr<Program::Program>, int>> who;
    int next = 1;
    Logged(size_t c, World& w, Trace& t, Names& n) : Archive(c, 1.0, 0), w(w), t(t), n(n)
    {
    }
    void addRecording(const Program::Program* const p,
                      const std::vector<std::reference_wrapper<const Data::DataHandler>>& d, double v,
                      bool forced = false) override
    {
        size_t h = getCombinedHash(d);
        Archive::addRecording(p, d, v, forced);
        t.emit(state(Obj()("e", "Add")("p", who.at(p).second)("a", n.addr(p))("h", n.hash(h))("data", w.data())(
                         "r", enc(v))("forced", forced),
                     *this, w, n));
    }
    // give an identity to every program; returns the new ones
    std::vector<const Program::Program*> sync(const TPG::TPGGraph& g)
    {
        std::vector<const Program::Program*> fresh;
        for (auto& e : g.getEdges()) {
            auto sp = e->getProgramSharedPointer();
            auto it = who.find(sp.get());
            if (it != who.end() && it->second.first.lock() == sp)
                continue;
            who[sp.get()] = {sp, next++};
            fresh.push_back(sp.get());
        }
        return fresh;
    }
};

// The search for a program whose results are new is unbounded: in a degenerate
// environment nothing new may exist. The trace up to there is kept.
static void unended(int)
{
    static const char m[] = "search-unended\n";
    (void)!write(1, m, sizeof m - 1);
    _exit(0);
}

static void evolve(Rnd& r, Trace& t, int gens)
{
    // with many registers a program rarely gets a result the archive lacks
    std::unique_ptr<World> w(randomWorld(r, true, false, false));
    Names n;
    int cap = (int)r.in(3, 24);
    Logged a((size_t)cap, *w, t, n);
    t.emit(state(Obj()("e", "New")("cap", cap)("prob", 100), a, *w, n));
    t.emit(w->envEvent());
    TPG::TPGGraph g(*w->env);
    Mutator::RNG rng(r.next());
    Mutator::MutationParameters P;
    P.tpg.nbActions = (size_t)r.in(2, 4);
    P.tpg.maxInitOutgoingEdges = 2;
    P.tpg.maxOutgoingEdges = (size_t)r.in(3, 4);
    P.tpg.nbRoots = (size_t)r.in(3, 7);
    P.tpg.pEdgeDeletion = 0.5;
    P.tpg.pEdgeAddition = 0.5;
    P.tpg.pProgramMutation = r.in(20, 100) / 100.0;
    P.tpg.pEdgeDestinationChange = 0.2;
    P.tpg.pEdgeDestinationIsAction = 0.5;
    P.tpg.forceProgramBehaviorChangeOnMutation = r.chance(30);
    P.prog.maxProgramSize = (size_t)r.in(2, 6);
    P.prog.pDelete = P.prog.pAdd = P.prog.pMutate = P.prog.pSwap = 0.5;
    P.prog.pConstantMutation = 0.3;
    P.prog.minConstValue = -20;
    P.prog.maxConstValue = 20;
    Mutator::TPGMutator::initRandomTPG(g, P, rng);
    a.sync(g);
    TPG::TPGExecutionEngine tee(*w->env, &a);
    for (int i = 0; i < gens; i++) {
        try {
            Mutator::TPGMutator::populateTPG(g, a, P, rng, (size_t)(r.chance(30) ? r.in(2, 4) : 1));
        }
        catch (std::out_of_range&) {
            return; // the open finding of C02
        }
        Arr ps;
        for (auto p : a.sync(g))
            ps.add(progJson(*p));
        t.emit(state(Obj()("e", "Populate")("progs", ps), a, *w, n));
        // inferences fill the archive
        auto roots = g.getRootVertices();
        for (int k = (int)r.in(1, 3); k > 0; k--) {
            // no zeros: the search for a new result must be able to end
            w->randomData(r, 0);
            tee.executeFromRoot(*r.pick(roots));
        }
        // some roots disappear with their programs
        size_t teams = 0;
        for (auto v : roots)
            teams += dynamic_cast<const TPG::TPGTeam*>(v) != nullptr;
        for (auto v : roots)
            if (dynamic_cast<const TPG::TPGTeam*>(v) && r.chance(50) && teams > 1) {
                g.removeVertex(*v);
                teams--;
            }
    }
}

int main(int argc, char** argv)
{
    std::string mode = argv[1];
    Rnd r(strtoull(argv[2], 0, 10));
    Trace t(argv[5]);
    if (mode == "evolve") {
        signal(SIGALRM, unended);
        alarm(50);
    }
    for (int i = 0; i < atoi(argv[3]); i++)
        if (mode == "direct")
            direct(r, t, atoi(argv[4]));
        else
            evolve(r, t, atoi(argv[4]));
    return 0;
}
