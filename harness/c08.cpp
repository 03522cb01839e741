// C08: drives data handlers of every kind and element type through random
// histories, observing all of them after every call, and views every small
// shape through every small type.
#include "vt.h"
using namespace vt;

struct View
{
    const std::type_info* t;
    int el, a, b;
};
static const char* EL[] = {"d", "i", "c", "f", "l", "u", "s"};
template <class T> T mk(int v)
{
    return (T)dec(v);
}
template <> Data::Constant mk<Data::Constant>(int v)
{
    return Data::Constant{v};
}
template <class T> int un(const T& v)
{
    return enc((double)v);
}
template <class T, int A, int B> static void add2(std::vector<View>& v, int el)
{
    v.push_back({&typeid(const T[A][B]), el, A, B});
    v.push_back({&typeid(T[A][B]), el, A, B});
}
template <class T, int A> static void add1(std::vector<View>& v, int el)
{
    v.push_back({&typeid(const T[A]), el, 0, A});
    v.push_back({&typeid(T[A]), el, 0, A});
    add2<T, A, 1>(v, el);
    add2<T, A, 2>(v, el);
    add2<T, A, 3>(v, el);
    add2<T, A, 4>(v, el);
}
template <class T> static void addT(std::vector<View>& v, int el)
{
    v.push_back({&typeid(T), el, 0, 0});
    add1<T, 1>(v, el);
    add1<T, 2>(v, el);
    add1<T, 3>(v, el);
    add1<T, 4>(v, el);
    v.push_back({&typeid(const T[70]), el, 0, 70});
}
static std::vector<View> views()
{
    std::vector<View> v;
    addT<double>(v, 0);
    addT<int>(v, 1);
    addT<Data::Constant>(v, 2);
    addT<float>(v, 3);
    addT<long>(v, 4);
    addT<unsigned>(v, 5);
    addT<short>(v, 6);
    return v;
}
static const std::vector<View> VIEWS = views();

template <class F> static void withEl(int el, F f)
{
    switch (el) {
    case 0:
        return f(double());
    case 1:
        return f(int());
    case 2:
        return f(Data::Constant());
    case 3:
        return f(float());
    case 4:
        return f(long());
    case 5:
        return f((unsigned)0);
    default:
        return f(short());
    }
}

struct Buf
{
    int el, n;
    std::shared_ptr<void> p;
    template <class T> std::vector<T>& v()
    {
        return *(std::vector<T>*)p.get();
    }
};
struct H
{
    int x, el, dim, h, w;
    bool own;
    std::unique_ptr<Data::DataHandler> dh;
    Obj sh() const
    {
        return Obj()("dim", dim)("h", h)("w", w)("el", EL[el]);
    }
};

struct Driver
{
    Rnd& r;
    Trace& t;
    std::map<int, Buf> bufs;
    std::map<int, H> hs;
    std::map<size_t, int> idn, hn;
    int nb = 1, nh = 1;
    Driver(Rnd& r, Trace& t) : r(r), t(t)
    {
        t.emit(Obj()("e", "Reset0"));
    }
    int val(int el)
    {
        if (el == 5)
            return (int)r.in(0, 100);
        if ((el == 0 || el == 3) && r.chance(6))
            return r.chance(50) ? PINF : NINF;
        return r.chance(25) ? 0 : (int)r.in(-100, 100);
    }
    template <class T> T value(int v)
    {
        if constexpr (std::is_floating_point<T>::value)
            if (v == 0 && r.chance(30))
                return (T)-0.0; // the same content
        return mk<T>(v);
    }
    int ident(const Data::DataHandler& d)
    {
        auto it = idn.find(d.getId());
        return it != idn.end() ? it->second : (idn[d.getId()] = (int)idn.size() + 1);
    }
    int hash(const Data::DataHandler& d)
    {
        size_t h = d.getHash();
        if (h == 0)
            return 0;
        auto it = hn.find(h);
        return it != hn.end() ? it->second : (hn[h] = (int)hn.size() + 1);
    }
    std::vector<int> read(const H& h, const View& y, size_t a, bool& refused)
    {
        std::vector<int> v;
        refused = false;
        withEl(h.el, [&](auto z) {
            typedef decltype(z) T;
            try {
                Data::UntypedSharedPtr p = h.dh->getDataAt(*y.t, a);
                if (y.b == 0)
                    v.push_back(un<T>(*p.getSharedPointer<const T>()));
                else {
                    auto q = p.getSharedPointer<const T[]>();
                    for (int i = 0; i < std::max(1, y.a) * y.b; i++)
                        v.push_back(un<T>(q.get()[i]));
                }
            }
            catch (std::runtime_error&) {
                refused = true;
            }
        });
        return v;
    }
    const View& scalar(int el)
    {
        for (auto& y : VIEWS)
            if (y.el == el && y.b == 0)
                return y;
        abort();
    }
    Arr obs()
    {
        Arr a;
        for (auto& kv : hs) {
            H& h = kv.second;
            bool refused = false;
            std::vector<int> vals;
            // hash first or last: reading must not matter
            int hv = -1;
            bool first = r.chance(50);
            if (first)
                hv = hash(*h.dh);
            for (int i = 0; i < h.h * h.w && !refused; i++) {
                auto v = read(h, scalar(h.el), (size_t)i, refused);
                if (!refused)
                    vals.push_back(v[0]);
            }
            if (!first)
                hv = hash(*h.dh);
            int nat = -1;
            for (int e = 0; e < 7; e++)
                if (*scalar(e).t == h.dh->getNativeType())
                    nat = e;
            a.add(Obj()("x", h.x)("id", ident(*h.dh))("hash", hv)("refused", refused)("vals", vals)(
                "native", nat < 0 ? "?" : EL[nat])("dims", h.dh->getDimensionsSize()));
        }
        return a;
    }
    void done(Obj o)
    {
        t.emit(o("obs", obs()));
    }
    int newBuf(int el, int n)
    {
        Buf b;
        b.el = el;
        b.n = n;
        std::vector<int> v;
        for (int i = 0; i < n; i++)
            v.push_back(val(el));
        withEl(el, [&](auto z) {
            typedef decltype(z) T;
            auto q = std::make_shared<std::vector<T>>();
            for (int x : v)
                q->push_back(value<T>(x));
            b.p = q;
        });
        int id = nb++;
        bufs[id] = b;
        t.emit(Obj()("e", "NewBuf")("b", id)("v", v));
        return id;
    }
    template <class T> std::vector<T>* ptr(int b)
    {
        return b ? &bufs[b].v<T>() : nullptr;
    }
    H& create(int el, int dim, int h, int w, bool own, int p)
    {
        int x = nh++;
        H& k = hs[x];
        k.x = x;
        k.el = el;
        k.dim = dim;
        k.h = h;
        k.w = w;
        k.own = own;
        withEl(el, [&](auto z) {
            typedef decltype(z) T;
            if (own && dim == 1 && el == 2 && r.chance(50))
                k.dh.reset(new Data::ConstantHandler(w)); // left to its initial content
            else if (own && dim == 1)
                k.dh.reset(new Data::PrimitiveTypeArray<T>(w));
            else if (own)
                k.dh.reset(new Data::PrimitiveTypeArray2D<T>(w, h));
            else if (dim == 2)
                k.dh.reset(new Data::Array2DWrapper<T>(w, h, ptr<T>(p)));
            else if (dim == 1)
                k.dh.reset(new Data::ArrayWrapper<T>(w, ptr<T>(p)));
            else
                k.dh.reset(new Data::PointerWrapper<T>(p ? &(*ptr<T>(p))[0] : nullptr));
        });
        done(Obj()("e", "New")("x", x)("sh", k.sh())("own", own)("p", p)("id", ident(*k.dh)));
        return k;
    }
    int bufFor(int el, int n, bool fit)
    {
        std::vector<int> ok;
        for (auto& b : bufs)
            if (b.second.el == el && (b.second.n == n) == fit)
                ok.push_back(b.first);
        if (!ok.empty() && (r.chance(50) || bufs.size() > 5))
            return r.pick(ok);
        return newBuf(el, fit ? n : n + (int)r.in(1, 2));
    }
    void write(H& h, int i, int v)
    {
        withEl(h.el, [&](auto z) {
            typedef decltype(z) T;
            if (h.dim == 2)
                ((Data::PrimitiveTypeArray2D<T>*)h.dh.get())->setDataAt(typeid(T), i, value<T>(v));
            else
                ((Data::PrimitiveTypeArray<T>*)h.dh.get())->setDataAt(typeid(T), i, value<T>(v));
        });
        done(Obj()("e", "Write")("x", h.x)("i", i)("v", v));
    }
    void view(H& h, const View& y, size_t raw)
    {
        Obj o;
        size_t n = h.dh->getAddressSpace(*y.t);
        o("e", "View")("x", h.x)("y", Obj()("el", EL[y.el])("a", y.a)("b", y.b));
        o("raw", raw)("space", n)("can", h.dh->canHandle(*y.t))("largest", h.dh->getLargestAddressSpace());
        size_t addr = 0;
        bool refused = false;
        std::vector<int> vals;
        std::vector<size_t> used;
        if (n > 0) {
            addr = (size_t)h.dh->scaleLocation(raw, *y.t);
            used = h.dh->getAddressesAccessed(*y.t, addr);
            if (addr < n)
                vals = read(h, y, addr, refused);
        }
        o("addr", addr)("used", used)("vals", vals)("refused", refused);
        o("beyond", h.dh->getAddressesAccessed(*y.t, n + (raw % 3)));
        t.emit(o);
    }
    void randomView(H& h)
    {
        const View* y;
        do
            y = &VIEWS[(size_t)r.in(0, (int64_t)VIEWS.size() - 1)];
        while (y->el != h.el && r.chance(93));
        view(h, *y, (size_t)r.in(0, 40));
    }
    void step()
    {
        int c = (int)r.in(0, 99);
        if (hs.size() < 2 || (c < 12 && hs.size() < 6)) {
            int el = (int)r.in(0, r.chance(60) ? 1 : 6), dim = (int)r.in(0, 2);
            int h = dim == 2 ? (int)r.in(1, 4) : 1, w = dim == 0 ? 1 : (int)r.in(1, 4);
            if (dim == 1 && r.chance(10))
                w = (int)r.in(65, 72);
            if (dim == 2 && r.chance(15)) {
                h = (int)r.in(4, 9);
                w = (int)r.in(4, 9);
            }
            bool own = dim != 0 && r.chance(50);
            int p = own || r.chance(15) ? 0 : bufFor(el, h * w, true);
            create(el, dim, h, w, own, p);
            return;
        }
        auto it = hs.begin();
        std::advance(it, r.in(0, (int64_t)hs.size() - 1));
        H& h = it->second;
        int n = h.h * h.w;
        if (c < 30) {
            if (h.own && n > 64 && r.chance(60)) {
                int i = (int)r.in(0, n - 65), v = val(h.el);
                write(h, i, v);
                write(h, i + 64, v);
            }
            else if (h.own)
                write(h, (int)r.in(0, n - 1), val(h.el));
        }
        else if (c < 45 && !bufs.empty()) {
            auto b = bufs.begin();
            std::advance(b, r.in(0, (int64_t)bufs.size() - 1));
            int i = (int)r.in(0, b->second.n - 1), v = val(b->second.el);
            withEl(b->second.el, [&](auto z) {
                typedef decltype(z) T;
                b->second.v<T>()[i] = value<T>(v);
            });
            done(Obj()("e", "Ext")("b", b->first)("i", i)("v", v));
            if (r.chance(70))
                for (auto& kv : hs)
                    invalidate(kv.second);
        }
        else if (c < 50)
            invalidate(h);
        else if (c < 58 && !h.own) {
            bool fit = h.dim == 0 || r.chance(80);
            int p = r.chance(15) ? 0 : bufFor(h.el, n, fit);
            bool ok = true;
            withEl(h.el, [&](auto z) {
                typedef decltype(z) T;
                try {
                    if (h.dim == 0)
                        ((Data::PointerWrapper<T>*)h.dh.get())->setPointer(p ? &(*ptr<T>(p))[0] : nullptr);
                    else
                        ((Data::ArrayWrapper<T>*)h.dh.get())->setPointer(ptr<T>(p));
                }
                catch (std::domain_error&) {
                    ok = false;
                }
            });
            done(Obj()("e", "SetPtr")("x", h.x)("p", p)("ok", ok));
        }
        else if (c < 64) {
            h.dh->resetData();
            done(Obj()("e", "Reset")("x", h.x));
        }
        else if (c < 74 && h.own) {
            std::vector<H*> ok;
            for (auto& kv : hs)
                if (kv.second.own && kv.second.el == h.el && kv.second.dim == h.dim &&
                    (kv.second.w == h.w || kv.second.h * kv.second.w != n))
                    ok.push_back(&kv.second);
            H& g = *r.pick(ok);
            bool fine = true;
            withEl(h.el, [&](auto z) {
                typedef decltype(z) T;
                try {
                    if (h.dim == 2)
                        *(Data::PrimitiveTypeArray2D<T>*)h.dh.get() = *(Data::PrimitiveTypeArray2D<T>*)g.dh.get();
                    else
                        *(Data::PrimitiveTypeArray<T>*)h.dh.get() = *(Data::PrimitiveTypeArray<T>*)g.dh.get();
                }
                catch (std::domain_error&) {
                    fine = false;
                }
            });
            done(Obj()("e", "Assign")("x", h.x)("y", g.x)("ok", fine));
        }
        else if (c < 84 && hs.size() < 7) {
            int x = nh++;
            H k;
            k.x = x;
            k.el = h.el;
            k.dim = h.dim == 0 ? 1 : h.dim;
            k.h = h.h;
            k.w = h.w;
            k.own = true;
            k.dh.reset(h.dh->clone());
            hs[x] = std::move(k);
            done(Obj()("e", "Clone")("x", h.x)("n", x));
        }
        else if (c < 90 && hs.size() > 2) {
            int x = h.x;
            hs.erase(x);
            done(Obj()("e", "Drop")("x", x));
        }
        else
            randomView(h);
        // keep at least some views of what exists
        if (r.chance(40)) {
            auto i2 = hs.begin();
            std::advance(i2, r.in(0, (int64_t)hs.size() - 1));
            randomView(i2->second);
        }
    }
    void invalidate(H& h)
    {
        if (h.dim == 0)
            return;
        withEl(h.el, [&](auto z) {
            typedef decltype(z) T;
            ((Data::ArrayWrapper<T>*)h.dh.get())->invalidateCachedHash();
        });
        done(Obj()("e", "Inval")("x", h.x));
    }
};

// every shape up to 4x4, owned and viewed, through every type, at every address
static void grid(Rnd& r, Trace& t, int part, int parts)
{
    int k = 0;
    for (int dim = 0; dim <= 2; dim++)
        for (int h = 1; h <= (dim == 2 ? 4 : 1); h++)
            for (int w = 1; w <= (dim == 0 ? 1 : 4); w++)
                for (int own = (dim == 0 ? 0 : 1); own >= 0; own--) {
                    if (k++ % parts != part)
                        continue;
                    Driver d(r, t);
                    int el = (int)r.in(0, 6);
                    int p = own ? 0 : d.newBuf(el, h * w);
                    H& x = d.create(el, dim, h, w, own, p);
                    if (own)
                        for (int i = 0; i < h * w; i++)
                            d.write(x, i, d.val(el));
                    for (auto& y : VIEWS) {
                        size_t n = y.el == el ? std::max<size_t>(1, x.dh->getAddressSpace(*y.t)) : 1;
                        for (size_t a = 0; a < n; a++)
                            d.view(x, y, a);
                    }
                }
}

// a few larger shapes, through every type, at every address
static void large(Rnd& r, Trace& t)
{
    for (int dim = 1; dim <= 2; dim++) {
        Driver d(r, t);
        int el = (int)r.in(0, 6), h = dim == 2 ? (int)r.in(4, 8) : 1, w = (int)r.in(4, 8);
        int p = d.newBuf(el, h * w);
        H& x = d.create(el, dim, h, w, false, p);
        for (auto& y : VIEWS)
            if (y.el == el)
                for (size_t a = 0; a < x.dh->getAddressSpace(*y.t); a++)
                    d.view(x, y, a);
    }
}

int main(int argc, char** argv)
{
    std::string mode = argv[1];
    if (mode == "grid") {
        Rnd r(strtoull(argv[2], 0, 10));
        Trace t(argv[5]);
        grid(r, t, atoi(argv[3]), atoi(argv[4]));
        large(r, t);
        return 0;
    }
    Rnd r(strtoull(argv[2], 0, 10));
    Trace t(argv[5]);
    for (int w = 0; w < atoi(argv[3]); w++) {
        Driver d(r, t);
        for (int s = 0; s < atoi(argv[4]); s++)
            d.step();
    }
    return 0;
}
