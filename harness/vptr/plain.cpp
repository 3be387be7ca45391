// C12 (and C11 for indirect registries): random histories of operations on
// plain virtual_ptrs, each mirrored on raw pointers.
#include "zoo.hpp"
#include <algorithm>
#include <functional>
#include <iterator>

struct NextHolder {};
Extra::Extra() : h(nullptr) {}
Extra::~Extra() {}

template<class T> using VP = om::virtual_ptr<T, Reg>;
template<class Root> struct who_id;
template<class Root> using who = om::method<who_id<Root>, Who(VP<Root>), Reg>;
template<class Root> struct whor_id;
template<class Root> using whor = om::method<whor_id<Root>, Who(om::virtual_<Root&>, int), Reg>;
template<class T> Who who_fn(VP<T> p) { return {index_of<T>, p.get(), dynamic_cast<const void*>(p.get()), p.vptr()}; }
template<class T> Who whor_fn(T& p, int) { return {index_of<T>, &p, dynamic_cast<const void*>(&p), nullptr}; }
template<class Root, class... T> struct OverAll {
    std::tuple<typename who<Root>::template override<who_fn<T>>...> a;
    std::tuple<typename whor<Root>::template override<whor_fn<T>>...> b;
};
static OverAll<A, A, B, D, E, F, X, Y> oa;
static OverAll<const A, const A, const B, const D, const E, const F, const X, const Y> oca;
static OverAll<M, M, D, E, F> omm;
static OverAll<const M, const M, const D, const E, const F> ocm;
static OverAll<V, V, W, X, Y> ov;
static OverAll<const V, const V, const W, const X, const Y> ocv;
// two virtual parameters, so that v-tables hold group indexes too
struct pair_id;
using pairm = om::method<pair_id, int(VP<const A>, int, VP<const V>), Reg>;
int pair_av(VP<const A>, int, VP<const V>) { return 1; }
int pair_dw(VP<const D>, int, VP<const W>) { return 2; }
int pair_xw(VP<const X>, int, VP<const W>) { return 3; }
static pairm::override<pair_av, pair_dw, pair_xw> opair;

using Slots = mp11::mp_list<A, const A, B, const B, M, const M, D, const D, E, F, V, const V, W, X, const X, Y>;
constexpr int NT = int(mp11::mp_size<Slots>::value), NS = 3;
template<class T> struct Slot { static inline VP<T>* vp[NS]; static inline T* raw[NS]; static inline bool stale[NS]; };

struct Obj { void* p; int k; void (*kill)(void*); void* (*up)(void*, int); };
static std::vector<Obj> objs;
static std::vector<std::unique_ptr<N>> unreg;
template<class C> void* upcast(void* p, int t) { // C* as the t-th slot type
    void* r = nullptr;
    mp11::mp_for_each<mp11::mp_iota_c<NT>>([&](auto i) {
        using T = mp11::mp_at<Slots, decltype(i)>;
        if constexpr (std::is_base_of_v<std::remove_const_t<T>, C>)
            if (int(decltype(i)::value) == t) r = const_cast<std::remove_const_t<T>*>(static_cast<T*>(static_cast<C*>(p)));
    });
    return r;
}
constexpr std::size_t BUF = std::max({sizeof(A), sizeof(B), sizeof(M), sizeof(D), sizeof(E), sizeof(F), sizeof(V), sizeof(W), sizeof(X), sizeof(Y)});
template<class C> Obj make(void* buf) { return {new (buf) C, index_of<C>, [](void* p) { static_cast<C*>(p)->~C(); }, upcast<C>}; }
template<class C> void add() { objs.push_back(make<C>(::operator new(BUF))); }
template<class T> constexpr int slot_of = int(mp11::mp_find<Slots, T>::value);
template<class T> T* pick(Rng& g, int* k = nullptr) { // a random object seen as T
    int from = rnd(g, int(objs.size())), step = 7; // coprime with the number of objects
    for (std::size_t n = 0; n < objs.size(); ++n) {
        auto& o = objs[(from + n * step) % objs.size()];
        if (void* p = o.up(o.p, slot_of<T>)) { if (k) *k = o.k; return static_cast<T*>(p); }
    }
    return nullptr;
}

template<class Root, class T> void call_who(VP<T> p, T* raw) {
    if constexpr (std::is_convertible_v<T*, Root*>) {
        int k = raw->cls();
        Root* root = raw;
        for (int form = 0; form < 2; ++form) {
            Who w;
            try { w = form ? whor<Root>::fn(*p, 3) : who<Root>::fn(p); }
            catch (om::openmethod_error&) { violation("who", "method call through virtual_ptr to %s object threw", cname(k)); return; }
            count("calls");
            if (w.cls != k) violation("who", "the overrider for %s ran on an object of class %s", w.cls < 0 ? "?" : cname(w.cls), cname(k));
            if (w.full != dynamic_cast<const void*>(root)) violation("who", "overrider got another object, class %s", cname(k));
            if (form == 0 && w.vp != expected_vptr(k)) violation("who", "virtual_ptr in the overrider has another v-table, class %s", cname(k));
        }
    }
}

template<class T> void verify(int i, const char* what, Rng* g = nullptr, int calls = 30) {
    auto& vp = *Slot<T>::vp[i];
    T* raw = Slot<T>::raw[i];
    if (Slot<T>::stale[i]) return; // its object is gone
    count("verified");
    if (vp.get() != raw || vp.pointer() != raw) { violation("pairing", "%s: object pointer differs from the raw pointer", what); return; }
    if (!raw) {
        count("nulls");
        if (vp.vptr() != nullptr) violation("pairing", "%s: null virtual_ptr has a v-table", what);
        return;
    }
    if (&*vp != raw || vp.operator->() != raw) violation("pairing", "%s: * or -> differ from the raw pointer", what);
    int k = raw->cls();
    if (vp.vptr() != expected_vptr(k)) { violation("pairing", "%s: v-table is not that of %s", what, cname(k)); return; }
    if (g && chance(*g, calls)) {
        call_who<A>(vp, raw); call_who<const A>(vp, raw);
        call_who<M>(vp, raw); call_who<const M>(vp, raw);
        call_who<V>(vp, raw); call_who<const V>(vp, raw);
        if constexpr (std::is_convertible_v<T*, const A*>) {
            int kk;
            const V* v = pick<const V>(*g, &kk);
            int r = pairm::fn(vp, 5, *v);
            bool d = k == kD || k == kF, x = k == kX || k == kY, w = kk == kW || kk == kY;
            int want = d && w ? 2 : x && w ? 3 : 1;
            if (r != want) violation("who", "two-argument call on %s,%s ran %d, expected %d", cname(k), cname(kk), r, want);
        }
    }
}
static void verify_all(const char* what, Rng& g, int calls) {
    mp11::mp_for_each<mp11::mp_iota_c<NT>>([&](auto i) { using T = mp11::mp_at<Slots, decltype(i)>; for (int s = 0; s < NS; ++s) verify<T>(s, what, &g, calls); });
}
template<class T> void set(int i, VP<T>&& v, T* raw) { *Slot<T>::vp[i] = v; Slot<T>::raw[i] = raw; Slot<T>::stale[i] = false; }
static void reset_all() {
    mp11::mp_for_each<mp11::mp_iota_c<NT>>([&](auto n) {
        using T = mp11::mp_at<Slots, decltype(n)>;
        for (int i = 0; i < NS; ++i) { delete Slot<T>::vp[i]; Slot<T>::vp[i] = new VP<T>(nullptr); Slot<T>::raw[i] = nullptr; Slot<T>::stale[i] = false; }
    });
}
#define OP(...) do { char b_[160]; snprintf(b_, sizeof b_, __VA_ARGS__); trail() += b_; trail() += "; "; } while (0)

template<class T, class S> void op(Rng& g) {
    int i = rnd(g, NS), j = rnd(g, NS), what = rnd(g, 16);
    auto& dst = Slot<T>::vp[i];
    auto& src = Slot<S>::vp[j];
    T*& raw = Slot<T>::raw[i];
    S* sraw = Slot<S>::raw[j];
    int t = slot_of<T>, s = slot_of<S>;
    auto name = [](auto* p) { using U = std::remove_pointer_t<decltype(p)>; return std::string(std::is_const_v<U> ? "c" : "") + cname(index_of<U>); };
    std::string tn = name((T*)nullptr), sn = name((S*)nullptr);
    bool& stale = Slot<T>::stale[i];
    if (Slot<S>::stale[j] && ((what >= 4 && what <= 8) || (what >= 10 && what <= 12) || what == 14)) return;
    if (stale && what == 14) return;
    auto note = [&](const char* o) { if (what < 14) stale = false; OP("%s %s%d<-%s%d", o, tn.c_str(), i, sn.c_str(), j); count("ops"); distinct(mix(mix(mix(u64(what), u64(t)), u64(s)), u64(raw && !stale ? raw->cls() : 99))); };
    constexpr bool up = std::is_convertible_v<S*, T*>;
    constexpr bool constok = std::is_const_v<T> || !std::is_const_v<S>;
    constexpr bool related = std::is_base_of_v<T, S> || std::is_base_of_v<S, T>;
    static_assert(std::is_constructible_v<VP<T>, const VP<S>&> == up || !up);
    switch (what) {
    case 0: if constexpr (up) { S* o = pick<S>(g); if (!o) return; VP<T> v(*o); set<T>(i, std::move(v), o); note("ctor(ref)"); } break;
    case 1: if constexpr (up) { S* o = pick<S>(g); if (!o) return; VP<T> v(o); set<T>(i, std::move(v), o); note("ctor(ptr)"); } break;
    case 2: if constexpr (up) { S* o = pick<S>(g); if (!o) return; *dst = *o; raw = o; note("=ref"); } break;
    case 3: if constexpr (up) { S* o = pick<S>(g); if (!o) return; *dst = o; raw = o; note("=ptr"); } break;
    case 4: case 5: if constexpr (up) { VP<T> v(*src); delete dst; dst = new VP<T>(v); raw = sraw; note("ctor(vp)"); } break;
    case 6: case 7: if constexpr (up) { if (chance(g, 50)) *dst = *src; else *dst = std::as_const(*src); raw = sraw; note("=vp"); } break;
    case 8: if constexpr (up) { VP<S> tmp(*src); VP<T> v(std::move(tmp)); *dst = std::move(v); raw = sraw; note("=move(vp)"); } break;
    case 9: if (chance(g, 40)) { *dst = nullptr; raw = nullptr; note("=nullptr"); } else if (chance(g, 50)) { delete dst; dst = new VP<T>(nullptr); raw = nullptr; note("ctor(nullptr)"); } break;
    case 10: case 11: case 12:
        if constexpr (related && constok) {
            if (!sraw) return;
            if (auto q = dynamic_cast<T*>(sraw)) { // otherwise the cast would not be valid
                *dst = src->template cast<T>();
                raw = q;
                note("=cast");
                count("casts");
            }
        }
        break;
    case 13:
        if constexpr (std::is_same_v<T, S> || up) {
            // objects whose dynamic type is S
            for (int n = 0; n < 20; ++n) {
                auto& o = objs[rnd(g, int(objs.size()))];
                if (o.k == index_of<S>) {
                    S* q = static_cast<S*>(o.up(o.p, s));
                    if (chance(g, 50)) *dst = om::final_virtual_ptr<Reg>(*q); else *dst = VP<S>::final(*q);
                    raw = q; note("=final"); count("finals");
                    break;
                }
            }
        }
        break;
    case 14: {
        if constexpr (std::is_convertible_v<const S*, const T*> || std::is_convertible_v<const T*, const S*>) {
            bool want = static_cast<const volatile void*>(nullptr) == nullptr && raw == sraw;
            if ((*dst == *src) != want || (*dst != *src) == want) violation("compare", "comparison of %s and %s differs from that of the raw pointers", tn.c_str(), sn.c_str());
            count("comparisons");
            note("compare");
        }
        break;
    }
    case 15:
        if constexpr (CHECKED && std::is_base_of_v<std::remove_const_t<T>, N>) {
            N& n = *unreg[rnd(g, int(unreg.size()))];
            bool threw = false;
            int how = rnd(g, 4);
            try {
                if (how == 0) *dst = n;
                else if (how == 1) *dst = &n;
                else if (how == 2) *dst = VP<T>(n);
                else *dst = VP<T>(static_cast<A*>(&n));
            } catch (om::missing_class& e) {
                threw = e.type == om::type_id(&typeid(N));
            }
            if (!threw) violation("pairing", "assignment of an object of an unregistered class was accepted");
            count("rejected");
            note("=unregistered");
        }
        break;
    }
    verify<T>(i, "destination", &g);
    verify<S>(j, "source", &g, 5);
}

// Replace an object by one of another class at the same address.  Virtual_ptrs
// to the dead object may only be assigned or destroyed.
template<class T, class S> void reassign(int i, S* o, Rng& g) {
    auto& dst = Slot<T>::vp[i];
    switch (rnd(g, 7)) {
    case 0: *dst = *o; break;
    case 1: *dst = o; break;
    case 2: { VP<S> v(*o); *dst = v; break; }
    case 3: { const VP<S> v(o); *dst = v; break; }
    case 4: { VP<S> v(o); *dst = std::move(v); break; }
    case 5: { VP<T> v(*o); std::swap(*dst, v); break; }
    case 6: { VP<S> v(*o); VP<T> w(nullptr); w = v; *dst = w; break; }
    }
    Slot<T>::raw[i] = o;
    Slot<T>::stale[i] = false;
    count("reassigned");
    verify<T>(i, "virtual_ptr assigned after its object was replaced by one of another class at the same address", &g);
}
static void recycle(Rng& g) {
    auto& o = objs[10 + rnd(g, int(objs.size()) - 10)]; // one of each class stays
    void* buf = o.p; // the complete object
    auto lo = static_cast<const char*>(buf);
    std::vector<std::function<void()>> hit;
    mp11::mp_for_each<mp11::mp_iota_c<NT>>([&](auto n) {
        using T = mp11::mp_at<Slots, decltype(n)>;
        for (int i = 0; i < NS; ++i) {
            auto p = reinterpret_cast<const char*>(Slot<T>::raw[i]);
            if (!p || Slot<T>::stale[i] || p < lo || p >= lo + BUF) continue;
            Slot<T>::stale[i] = true;
            hit.push_back([i, &g, &o] {
                if (chance(g, 20)) return;
                mp11::mp_for_each<mp11::mp_iota_c<NT>>([&](auto m) {
                    using S = mp11::mp_at<Slots, decltype(m)>;
                    if constexpr (std::is_convertible_v<S*, T*>)
                        if (Slot<T>::stale[i] && chance(g, std::is_same_v<S, T> ? 100 : 30))
                            if (void* q = o.up(o.p, int(decltype(m)::value))) reassign<T, S>(i, static_cast<S*>(q), g);
                });
            });
        }
    });
    o.kill(o.p);
    static Obj (*const makers[])(void*) = {make<A>, make<B>, make<M>, make<D>, make<E>, make<F>, make<V>, make<W>, make<X>, make<Y>};
    int was = o.k, n = rnd(g, 10);
    o = makers[n](buf);
    count("recycled");
    OP("recycle %s->%s", cname(was), cname(o.k));
    for (auto& h : hit) h();
}

using OpFn = void (*)(Rng&);
static std::vector<OpFn> table;
static void refill(Rng& g) {
    mp11::mp_for_each<mp11::mp_iota_c<NT>>([&](auto n) {
        using T = mp11::mp_at<Slots, decltype(n)>;
        for (int i = 0; i < NS; ++i) if (chance(g, 60)) { T* o = pick<T>(g); *Slot<T>::vp[i] = *o; Slot<T>::raw[i] = o; Slot<T>::stale[i] = false; }
    });
}

static void reinit(Rng& g) {
    if (!INDIRECT) reset_all();
    toggle_classes(g);
    if (chance(g, 20)) om::finalize<Reg>();
    om::initialize<Reg>();
    count("reinits");
    OP("reinit");
    if (!INDIRECT) refill(g);
    forced_tag() = "reinit";
    verify_all("after re-initialization", g, INDIRECT ? 60 : 0);
    forced_tag() = nullptr;
}

int main(int argc, char** argv) {
    om::initialize<Reg>();
    mp11::mp_for_each<mp11::mp_iota_c<NT>>([&](auto i) { mp11::mp_for_each<mp11::mp_iota_c<NT>>([&](auto j) {
        using T = mp11::mp_at<Slots, decltype(i)>; using S = mp11::mp_at<Slots, decltype(j)>;
        if constexpr (std::is_base_of_v<T, S> || std::is_base_of_v<S, T>) table.push_back(op<T, S>);
    }); });
    for (int n = 0; n < 3; ++n) { add<A>(); add<B>(); add<M>(); add<D>(); add<E>(); add<F>(); add<V>(); add<W>(); add<X>(); add<Y>(); }
    for (int n = 0; n < 2; ++n) unreg.emplace_back(new N);
    int rc = run_cases(argc, argv, [](Rng& g, const Args& a) {
        reset_all();
        refill(g);
        int ops = 50 + rnd(g, 400);
        for (int n = 0; n < ops && stats().viol.size() < 20; ++n) {
            table[rnd(g, int(table.size()))](g);
            if (rnd(g, a.mode == "reinit" ? 12 : 200) == 0) reinit(g);
            if (rnd(g, 100) == 0) refill(g);
            if (rnd(g, 25) == 0) recycle(g);
        }
        verify_all("at the end", g, 100);
        sample(trail().substr(0, 900));
    });
    for (auto& o : objs) { o.kill(o.p); ::operator delete(o.p); }
    objs.clear();
    return rc;
}
