// C30: a user-written boost_openmethod_vptr decides where it applies, and only there.
// Objects *claim* a class (their own or one of its bases) which changes at
// random; the functions return the v-table pointer of the claimed class.  The
// monitors see which functions are asked about which objects, and whether the
// registry's vptr policy is asked; a model says which overrider must run.
// VARIANT 0 vector, 1 indirect vector, 2 checked hash, 3 map, 4 checked indirect
// map, 5 no vptr policy, 6 classes that are not polymorphic, 7 like 1 but the
// functions return by value (which the library may reject).
#include "../util.hpp"
#include <boost/openmethod/preamble.hpp>
#include <boost/openmethod/policies/std_rtti.hpp>
#include <boost/openmethod/policies/vptr_vector.hpp>
#include <boost/openmethod/policies/vptr_map.hpp>
#include <boost/config.hpp>
#include <variant>
#include <boost/openmethod/policies/fast_perfect_hash.hpp>
#include <boost/openmethod/policies/throw_error_handler.hpp>
#include <boost/openmethod/core.hpp>
#include <boost/openmethod/interop/std_shared_ptr.hpp>
#include <boost/openmethod/interop/std_unique_ptr.hpp>
#include <boost/openmethod/initialize.hpp>
#include <functional>
#include <memory>
#include <new>
namespace om = boost::openmethod;
namespace po = boost::openmethod::policies;
using om::virtual_;
#ifndef VARIANT
#define VARIANT 0
#endif
#define POLY (VARIANT != 6)
#define POLICY (VARIANT < 5 || VARIANT == 7) // there is a vptr policy

static int policy_asked;
template<class Policy> struct spy : po::vptr {
    template<class R> struct fn : Policy::template fn<R> {
        template<class C> static auto dynamic_vptr(const C& c) -> const om::vptr_type& { ++policy_asked; return Policy::template fn<R>::dynamic_vptr(c); }
    };
};
template<class... P> using reg = om::registry<po::std_rtti, po::throw_error_handler, P...>;
#if VARIANT == 0
struct R : reg<po::fast_perfect_hash, spy<po::vptr_vector>> {};
#elif VARIANT == 1 || VARIANT == 7
struct R : reg<po::fast_perfect_hash, spy<po::vptr_vector>, po::indirect_vptr> {};
#elif VARIANT == 2
struct R : reg<po::fast_perfect_hash, spy<po::vptr_vector>, po::runtime_checks> {};
#elif VARIANT == 3
struct R : reg<spy<po::vptr_map<>>> {};
#elif VARIANT == 4
struct R : reg<spy<po::vptr_map<>>, po::runtime_checks, po::indirect_vptr> {};
#else
struct R : reg<> {};
#endif
struct Other : om::default_registry::with<po::throw_error_handler> {};

#if VARIANT == 1 || VARIANT == 4
using Answer = const om::vptr_type&;
#else
using Answer = om::vptr_type;
#endif

// ---- the monitors
enum { FN0 = 0, FN4 = 1, FNM2 = 2, DECOY = 3 };
static std::set<std::pair<int, const void*>> asked;
static std::string asked_text() {
    std::string s;
    for (auto& [f, p] : asked) s += " " + std::to_string(f);
    return s;
}

// ---- classes.  N: with a function; N4 and what derives from it have one of
// their own.  M: without; M2 has one, and M0 has several that do not apply.
struct N0; struct N4; struct M2;
Answer vptr_of(int cls);
struct N0 {
    int claim = 0, claim4 = 4;
    const void* whole = nullptr;
    int dyn = 0;
#if POLY
    virtual ~N0() {}
#endif
    friend Answer boost_openmethod_vptr(const N0& n, void*) { asked.insert({FN0, n.whole}); return vptr_of(n.claim); }
};
#if POLY
struct N1 : virtual N0 { int pad = 1; };
struct N2 : virtual N0 { int pad = 2; };
struct N3 : N1, N2 { int pad = 3; };
#else
struct N1 : N0 { int pad = 1; };
struct N2 : N0 { int pad = 2; };
struct N3 : N1 { int pad = 3; };
#endif
struct N4 : N0 {
    int pad = 4;
    friend Answer boost_openmethod_vptr(const N4& n, R*) { asked.insert({FN4, n.whole}); return vptr_of(n.claim4); }
};
struct Pad { long x[3] = {1, 2, 3};
#if POLY
    virtual ~Pad() {}
#endif
};
struct N5 : Pad, N4 { int pad = 5; };
struct N6 : N5 { int pad = 6; };
struct M0 {
    const void* whole = nullptr;
    int dyn = 7;
#if POLY
    virtual ~M0() {}
#endif
    friend int boost_openmethod_vptr(const M0& m, R*) { asked.insert({DECOY, m.whole}); return 0; } // not a v-table pointer
    friend om::vptr_type boost_openmethod_vptr(M0& m, R*) { asked.insert({DECOY, m.whole}); return nullptr; } // not callable
    friend om::vptr_type boost_openmethod_vptr(const M0& m, Other*) { asked.insert({DECOY, m.whole}); return nullptr; } // not this registry
};
struct M1 : M0 {};
struct M2 : M0 {
    friend Answer boost_openmethod_vptr(const M2& m, R*) { asked.insert({FNM2, m.whole}); return vptr_of(9); }
};
struct M3 : M1 {};
enum { NN = 7, M_0 = 7, NCLS = 11 };
#if POLICY
using All = boost::mp11::mp_list<N0, N1, N2, N3, N4, N5, N6, M0, M1, M2, M3>;
static om::use_classes<N0, N1, N2, N3, N4, N5, N6, M0, M1, M2, M3, R> reg_all;
#else
static om::use_classes<N0, N1, N2, N3, N4, N5, N6, R> reg_all;
#endif
Answer vptr_of(int cls) {
    switch (cls) {
    case 0: return R::static_vptr<N0>; case 1: return R::static_vptr<N1>; case 2: return R::static_vptr<N2>; case 3: return R::static_vptr<N3>;
    case 4: return R::static_vptr<N4>; case 5: return R::static_vptr<N5>; case 6: return R::static_vptr<N6>;
#if POLICY
    case 9: return R::static_vptr<M2>;
#endif
    }
    abort();
}
// classes that come and go, so that the tables move
template<int> struct E0 { virtual ~E0() {} };
template<int I> struct E1 : E0<I> {};
template<int I> struct Extra {
    using type = om::use_classes<E0<I>, E1<I>, R>;
    alignas(16) static char store[sizeof(type)];
    static bool live;
    static void flip() { if (live) reinterpret_cast<type*>(store)->~type(); else new (store) type; live = !live; }
};
template<int I> alignas(16) char Extra<I>::store[sizeof(type)];
template<int I> bool Extra<I>::live;

static bool is_a(int d, int b) {
    static const std::set<int> anc[NCLS] = {{0}, {0, 1}, {0, 2},
#if POLY
        {0, 1, 2, 3},
#else
        {0, 1, 3},
#endif
        {0, 4}, {0, 4, 5}, {0, 4, 5, 6}, {7}, {7, 8}, {7, 9}, {7, 8, 10}};
    return anc[d].count(b) != 0;
}

// ---- methods
enum { NONE = -1, AMBIGUOUS = -2, MISSING = -3, STRANGE = -4 };
struct Hit { int m, o; std::vector<const void*> who; };
static std::vector<Hit> hits;
template<class T> const void* who(const T& x) { return x.whole; }
static std::vector<std::vector<std::vector<int>>> ovr; // method, overrider, classes
static int hit(int m, int o, std::vector<const void*> w) { hits.push_back({m, o, w}); return o; }

struct id_ref; struct id_cref; struct id_ptr; struct id_rv; struct id_n4; struct id_two; struct id_nn; struct id_vp; struct id_vp4; struct id_sp; struct id_svp; struct id_up; struct id_mix; struct id_cptr; struct id_csp;
enum { REF, CREF, PTR, RV, RN4, TWO, NN_, VP, VP4, SP, SVP, UP, MIX, CPTR, CSP, NM };
using ref_m = om::method<id_ref, int(virtual_<N0&>, int), R>;
using cref_m = om::method<id_cref, int(int, virtual_<const N0&>), R>;
using ptr_m = om::method<id_ptr, int(virtual_<N0*>), R>;
using cptr_m = om::method<id_cptr, int(virtual_<const N0*>), R>;
using rv_m = om::method<id_rv, int(virtual_<N0&&>), R>;
using n4_m = om::method<id_n4, int(virtual_<N4&>), R>;
using nn_m = om::method<id_nn, int(virtual_<const N0&>, virtual_<N4*>, virtual_<N0&>), R>;
int f_ref0(N0& a, int) { return hit(REF, 0, {who(a)}); }
int f_ref1(N1& a, int) { return hit(REF, 1, {who(a)}); }
int f_ref2(N2& a, int) { return hit(REF, 2, {who(a)}); }
int f_ref5(N5& a, int) { return hit(REF, 3, {who(a)}); }
static ref_m::override<f_ref0, f_ref1, f_ref2, f_ref5> o_ref;
int f_cref1(int, const N1& a) { return hit(CREF, 0, {who(a)}); }
int f_cref3(int, const N3& a) { return hit(CREF, 1, {who(a)}); }
int f_cref4(int, const N4& a) { return hit(CREF, 2, {who(a)}); }
int f_cref6(int, const N6& a) { return hit(CREF, 3, {who(a)}); }
static cref_m::override<f_cref1, f_cref3, f_cref4, f_cref6> o_cref;
int f_ptr0(N0* a) { return hit(PTR, 0, {who(*a)}); }
int f_ptr3(N3* a) { return hit(PTR, 1, {who(*a)}); }
int f_ptr5(N5* a) { return hit(PTR, 2, {who(*a)}); }
static ptr_m::override<f_ptr0, f_ptr3, f_ptr5> o_ptr;
int f_cptr2(const N2* a) { return hit(CPTR, 0, {who(*a)}); }
int f_cptr6(const N6* a) { return hit(CPTR, 1, {who(*a)}); }
static cptr_m::override<f_cptr2, f_cptr6> o_cptr;
int f_rv0(N0&& a) { return hit(RV, 0, {who(a)}); }
int f_rv1(N1&& a) { return hit(RV, 1, {who(a)}); }
int f_rv6(N6&& a) { return hit(RV, 2, {who(a)}); }
static rv_m::override<f_rv0, f_rv1, f_rv6> o_rv;
int f_n44(N4& a) { return hit(RN4, 0, {who(a)}); }
int f_n46(N6& a) { return hit(RN4, 1, {who(a)}); }
static n4_m::override<f_n44, f_n46> o_n4;
int f_nn0(const N0& a, N4* b, N0& c) { return hit(NN_, 0, {who(a), who(*b), who(c)}); }
int f_nn1(const N1& a, N5* b, N0& c) { return hit(NN_, 1, {who(a), who(*b), who(c)}); }
int f_nn2(const N0& a, N5* b, N1& c) { return hit(NN_, 2, {who(a), who(*b), who(c)}); }
int f_nn3(const N4& a, N4* b, N4& c) { return hit(NN_, 3, {who(a), who(*b), who(c)}); }
int f_nn4(const N5& a, N6* b, N6& c) { return hit(NN_, 4, {who(a), who(*b), who(c)}); }
static nn_m::override<f_nn0, f_nn1, f_nn2, f_nn3, f_nn4> o_nn;
#if POLICY
using two_m = om::method<id_two, int(virtual_<const N0&>, virtual_<M0&>), R>;
int f_two0(const N0& a, M0& b) { return hit(TWO, 0, {who(a), who(b)}); }
int f_two1(const N1& a, M1& b) { return hit(TWO, 1, {who(a), who(b)}); }
int f_two2(const N4& a, M2& b) { return hit(TWO, 2, {who(a), who(b)}); }
int f_two3(const N0& a, M3& b) { return hit(TWO, 3, {who(a), who(b)}); }
int f_two4(const N6& a, M0& b) { return hit(TWO, 4, {who(a), who(b)}); }
static two_m::override<f_two0, f_two1, f_two2, f_two3, f_two4> o_two;
#endif
#if POLY
template<class T> using vptr = om::virtual_ptr<T, R>;
using vp_m = om::method<id_vp, int(vptr<N0>, int), R>;
int f_vp0(vptr<N0> a, int) { return hit(VP, 0, {who(*a)}); }
int f_vp2(vptr<N2> a, int) { return hit(VP, 1, {who(*a)}); }
int f_vp3(vptr<N3> a, int) { return hit(VP, 2, {who(*a)}); }
int f_vp5(vptr<N5> a, int) { return hit(VP, 3, {who(*a)}); }
static vp_m::override<f_vp0, f_vp2, f_vp3, f_vp5> o_vp;
using vp4_m = om::method<id_vp4, int(vptr<const N4>, virtual_<const N0&>), R>;
int f_vp40(vptr<const N4> a, const N0& b) { return hit(VP4, 0, {who(*a), who(b)}); }
int f_vp41(vptr<const N5> a, const N0& b) { return hit(VP4, 1, {who(*a), who(b)}); }
int f_vp42(vptr<const N4> a, const N1& b) { return hit(VP4, 2, {who(*a), who(b)}); }
int f_vp43(vptr<const N6> a, const N4& b) { return hit(VP4, 3, {who(*a), who(b)}); }
static vp4_m::override<f_vp40, f_vp41, f_vp42, f_vp43> o_vp4;
using sp_m = om::method<id_sp, int(virtual_<std::shared_ptr<N0>>), R>;
int f_sp0(std::shared_ptr<N0> a) { return hit(SP, 0, {who(*a)}); }
int f_sp1(std::shared_ptr<N1> a) { return hit(SP, 1, {who(*a)}); }
int f_sp6(std::shared_ptr<N6> a) { return hit(SP, 2, {who(*a)}); }
static sp_m::override<f_sp0, f_sp1, f_sp6> o_sp;
using csp_m = om::method<id_csp, int(virtual_<const std::shared_ptr<N4>&>), R>;
int f_csp4(const std::shared_ptr<N4>& a) { return hit(CSP, 0, {who(*a)}); }
int f_csp5(const std::shared_ptr<N5>& a) { return hit(CSP, 1, {who(*a)}); }
static csp_m::override<f_csp4, f_csp5> o_csp;
template<class T> using svptr = om::virtual_ptr<std::shared_ptr<T>, R>;
using svp_m = om::method<id_svp, int(svptr<N0>), R>;
int f_svp0(svptr<N0> a) { return hit(SVP, 0, {who(*a)}); }
int f_svp1(svptr<N1> a) { return hit(SVP, 1, {who(*a)}); }
int f_svp4(svptr<N4> a) { return hit(SVP, 2, {who(*a)}); }
static svp_m::override<f_svp0, f_svp1, f_svp4> o_svp;
template<class T> using uvptr = om::virtual_ptr<std::unique_ptr<T>, R>;
using up_m = om::method<id_up, int(uvptr<N0>), R>;
int f_up0(uvptr<N0> a) { return hit(UP, 0, {who(*a)}); }
int f_up3(uvptr<N3> a) { return hit(UP, 1, {who(*a)}); }
int f_up5(uvptr<N5> a) { return hit(UP, 2, {who(*a)}); }
static up_m::override<f_up0, f_up3, f_up5> o_up;
#if POLICY
using mix_m = om::method<id_mix, int(virtual_<N0&>, vptr<M0>, vptr<N0>), R>;
int f_mix0(N0& a, vptr<M0> b, vptr<N0> c) { return hit(MIX, 0, {who(a), who(*b), who(*c)}); }
int f_mix1(N1& a, vptr<M0> b, vptr<N4> c) { return hit(MIX, 1, {who(a), who(*b), who(*c)}); }
int f_mix2(N0& a, vptr<M1> b, vptr<N4> c) { return hit(MIX, 2, {who(a), who(*b), who(*c)}); }
int f_mix3(N4& a, vptr<M2> b, vptr<N1> c) { return hit(MIX, 3, {who(a), who(*b), who(*c)}); }
int f_mix4(N6& a, vptr<M3> b, vptr<N5> c) { return hit(MIX, 4, {who(a), who(*b), who(*c)}); }
static mix_m::override<f_mix0, f_mix1, f_mix2, f_mix3, f_mix4> o_mix;
#endif
#endif

static void tables() {
    ovr.assign(NM, {});
    ovr[REF] = {{0}, {1}, {2}, {5}};
    ovr[CREF] = {{1}, {3}, {4}, {6}};
    ovr[PTR] = {{0}, {3}, {5}};
    ovr[CPTR] = {{2}, {6}};
    ovr[RV] = {{0}, {1}, {6}};
    ovr[RN4] = {{4}, {6}};
    ovr[NN_] = {{0, 4, 0}, {1, 5, 0}, {0, 5, 1}, {4, 4, 4}, {5, 6, 6}};
    ovr[TWO] = {{0, 7}, {1, 8}, {4, 9}, {0, 10}, {6, 7}};
    ovr[VP] = {{0}, {2}, {3}, {5}};
    ovr[VP4] = {{4, 0}, {5, 0}, {4, 1}, {6, 4}};
    ovr[SP] = {{0}, {1}, {6}};
    ovr[CSP] = {{4}, {5}};
    ovr[SVP] = {{0}, {1}, {4}};
    ovr[UP] = {{0}, {3}, {5}};
    ovr[MIX] = {{0, 7, 0}, {1, 7, 4}, {0, 8, 4}, {4, 9, 1}, {6, 10, 5}};
}
static int best(int m, const std::vector<int>& t) {
    std::vector<int> app, max;
    auto fits = [](const std::vector<int>& d, const std::vector<int>& b) { for (std::size_t i = 0; i < d.size(); ++i) if (!is_a(d[i], b[i])) return false; return true; };
    // more specific: somewhere derived, nowhere base
    auto more = [](const std::vector<int>& a, const std::vector<int>& b) { bool r = false; for (std::size_t i = 0; i < a.size(); ++i) if (a[i] != b[i]) { if (is_a(a[i], b[i])) r = true; else if (is_a(b[i], a[i])) return false; } return r; };
    for (int o = 0; o < int(ovr[m].size()); ++o) if (fits(t, ovr[m][o])) app.push_back(o);
    if (app.empty()) return NONE;
    for (int o : app) { bool dead = false; for (int p : app) if (p != o && more(ovr[m][p], ovr[m][o])) dead = true; if (!dead) max.push_back(o); }
    return max.size() == 1 ? max[0] : AMBIGUOUS;
}

// ---- objects
struct Obj {
    int dyn;
    std::shared_ptr<void> mem;
    N0* n = nullptr; M0* m = nullptr; N4* n4 = nullptr;
    std::shared_ptr<N0> sp; std::shared_ptr<N4> sp4;
};
template<class T> Obj make(int d) {
    Obj o;
    auto p = std::make_shared<T>();
    p->whole = p.get(); p->dyn = d;
    o.dyn = d; o.mem = p;
    if constexpr (std::is_base_of_v<N0, T>) { o.n = p.get(); o.sp = p; p->claim = d; p->claim4 = is_a(d, 4) ? d : 4; }
    if constexpr (std::is_base_of_v<N4, T>) { o.n4 = p.get(); o.sp4 = p; }
    if constexpr (std::is_base_of_v<M0, T>) o.m = p.get();
    return o;
}
static Obj make_obj(int d) {
    switch (d) {
    case 0: return make<N0>(0); case 1: return make<N1>(1); case 2: return make<N2>(2); case 3: return make<N3>(3); case 4: return make<N4>(4);
    case 5: return make<N5>(5); case 6: return make<N6>(6); case 7: return make<M0>(7); case 8: return make<M1>(8); case 9: return make<M2>(9);
    default: return make<M3>(10);
    }
}
static int some_base(Rng& g, int d, int floor) { std::vector<int> v; for (int c = 0; c < NCLS; ++c) if (is_a(d, c) && is_a(c, floor)) v.push_back(c); return v[rnd(g, int(v.size()))]; }

template<class F> int outcome(F f) {
    asked.clear(); hits.clear(); policy_asked = 0;
    try { return f(); }
    catch (const om::no_overrider&) { return NONE; }
    catch (const om::ambiguous_call&) { return AMBIGUOUS; }
    catch (const om::missing_class&) { return MISSING; }
    catch (const om::openmethod_error&) { return STRANGE; }
}
using Asks = std::set<std::pair<int, const void*>>;
// got: what the call did; t: the classes it should see
static void judge(const char* what, int m, int got, const std::vector<int>& t, const std::vector<const void*>& objs, const Asks& asks, int policy) {
    int want = best(m, t);
    count("calls");
    if (want >= 0) count("dispatched"); else count("errors");
    u64 h = mix(m, 77); for (int c : t) h = mix(h, c); distinct(h);
    std::string tt; for (int c : t) tt += " " + std::to_string(c);
    if (got != want) violation("dispatch", "%s: the claimed classes are%s, overrider %d expected, %d ran", what, tt.c_str(), want, got);
    else if (want >= 0 && (hits.size() != 1 || hits[0].m != m || hits[0].o != want || hits[0].who != objs)) violation("dispatch", "%s: the overrider did not get the objects", what);
    else if (want < 0 && !hits.empty()) violation("dispatch", "%s: an overrider ran", what);
    if (asked != asks) violation("asked", "%s: functions asked:%s, %zu questions expected", what, asked_text().c_str(), asks.size());
    count("questions", asked.size());
    if (policy >= 0 && (policy_asked > 0) != (policy > 0)) violation("policy", "%s: the vptr policy was asked %d times although %s", what, policy_asked, policy ? "an argument has no function" : "every argument has a function");
    count("policy_questions", policy_asked);
}

struct Case {
    Rng& g;
    std::vector<Obj> objs;
    Obj& pick(bool n, int base) { std::vector<int> v; for (int i = 0; i < int(objs.size()); ++i) if (n ? objs[i].n && is_a(objs[i].dyn, base) : objs[i].m != nullptr) v.push_back(i); return objs[v[rnd(g, int(v.size()))]]; }
    Obj& n(int base = 0) { return pick(true, base); }
    Obj& m() { return pick(false, 7); }
#if POLY
    struct Held { vptr<N0> p; int cls; const void* whole; std::shared_ptr<void> keep; };
    std::vector<Held> held;
    struct SHeld { svptr<N0> p; int cls; const void* whole; };
    std::vector<SHeld> sheld;
    template<class T> vptr<N0> from(T& t, int how) {
        switch (how) {
        case 0: return vptr<N0>(t);
        case 1: return vptr<N0>(&t);
        case 2: { vptr<T> a(t); return a; }
        case 3: { vptr<N0> a(nullptr); a = t; return a; }
        case 4: { vptr<N0> a(nullptr); a = &t; return a; }
        default: { vptr<T> a(t); vptr<N0> b(nullptr); b = a; return b; }
        }
    }
    template<class T> svptr<N0> sfrom(const std::shared_ptr<T>& t, int how) {
        switch (how) {
        case 0: return svptr<N0>(t);
        case 1: return svptr<N0>(std::shared_ptr<T>(t));
        case 2: { svptr<T> a(t); return a; }
        case 3: { svptr<N0> a; a = t; return a; }
        case 4: { svptr<N0> a; a = std::shared_ptr<T>(t); return a; }
        default: { svptr<T> a(t); svptr<N0> b; b = std::move(a); return b; }
        }
    }
    // a virtual_ptr made through a static type: the function of *that* type is asked
    void build() {
        Obj& o = n();
        int st = some_base(g, o.dyn, 0), how = rnd(g, 6);
        bool four = is_a(st, 4);
        int cls = four ? o.n4->claim4 : o.n->claim;
        // the v-table must be that of a class derived from the static type
        if (!is_a(cls, st)) return;
        asked.clear(); policy_asked = 0;
        auto go = [&](auto* tag) {
            using T = std::remove_pointer_t<decltype(tag)>;
            if (rnd(g, 2)) held.push_back({from(dynamic_cast<T&>(*o.n), how), cls, o.n->whole, o.mem});
            else sheld.push_back({sfrom(std::dynamic_pointer_cast<T>(o.sp), how), cls, o.n->whole});
        };
        switch (st) { case 0: go((N0*)0); break; case 1: go((N1*)0); break; case 2: go((N2*)0); break; case 3: go((N3*)0); break; case 4: go((N4*)0); break; case 5: go((N5*)0); break; default: go((N6*)0); }
        count("virtual_ptrs");
        Asks want{{four ? FN4 : FN0, o.n->whole}};
        if (asked != want) violation("asked", "making a virtual_ptr from class %d (way %d): functions asked:%s", st, how, asked_text().c_str());
        if (policy_asked) violation("policy", "making a virtual_ptr asked the policy although a function applies");
    }
    void drop() { held.clear(); sheld.clear(); }
    void use_held() {
        if (!held.empty()) {
            auto& h = held[rnd(g, int(held.size()))];
            int r = rnd(g, 2);
            int got = outcome([&] { if (r) { auto q = h.p; return vp_m::fn(q, 1); } return vp_m::fn(h.p, 1); });
            judge("kept virtual_ptr", VP, got, {h.cls}, {h.whole}, {}, 0);
        }
        if (!sheld.empty()) {
            auto& h = sheld[rnd(g, int(sheld.size()))];
            judge("kept shared virtual_ptr", SVP, outcome([&] { return svp_m::fn(h.p); }), {h.cls}, {h.whole}, {}, 0);
        }
    }
    void final_() {
        Obj o = make_obj(5);
        o.n->claim = 0; o.n4->claim4 = 4;
        auto& five = static_cast<N5&>(*o.n4);
        int got = outcome([&] { return vp_m::fn(om::final_virtual_ptr<R>(five), 1); });
        int w = best(VP, {5});
        count("calls"); count("finals");
        if (got != w) violation("dispatch", "final_virtual_ptr of class 5 which claims 0: %d ran", got);
    }
#endif
    void claims() {
        Obj& o = n();
        o.n->claim = some_base(g, o.dyn, 0);
        if (is_a(o.dyn, 4)) o.n4->claim4 = some_base(g, o.dyn, 4);
        count("claims");
    }
    int cl(const Obj& o) { return o.n->claim; }
    const void* w(const Obj& o) { return o.n ? o.n->whole : o.m->whole; }
    std::pair<int, const void*> a0(const Obj& o) { return {FN0, o.n->whole}; }
    std::pair<int, const void*> a4(const Obj& o) { return {FN4, o.n->whole}; }
    void call() {
        switch (rnd(g, NM + 2)) {
        case REF: { auto& o = n(); judge("virtual_<N0&>", REF, outcome([&] { return ref_m::fn(*o.n, 1); }), {cl(o)}, {w(o)}, {a0(o)}, 0); break; }
        case CREF: { auto& o = n(); judge("virtual_<const N0&>", CREF, outcome([&] { return cref_m::fn(1, *o.n); }), {cl(o)}, {w(o)}, {a0(o)}, 0); break; }
        case PTR: { auto& o = n(); judge("virtual_<N0*>", PTR, outcome([&] { return ptr_m::fn(o.n); }), {cl(o)}, {w(o)}, {a0(o)}, 0); break; }
        case CPTR: { auto& o = n(); judge("virtual_<const N0*>", CPTR, outcome([&] { return cptr_m::fn(o.n); }), {cl(o)}, {w(o)}, {a0(o)}, 0); break; }
        case RV: { auto& o = n(); judge("virtual_<N0&&>", RV, outcome([&] { return rv_m::fn(std::move(*o.n)); }), {cl(o)}, {w(o)}, {a0(o)}, 0); break; }
        case RN4: { auto& o = n(4); judge("virtual_<N4&>", RN4, outcome([&] { return n4_m::fn(*o.n4); }), {o.n4->claim4}, {w(o)}, {a4(o)}, 0); break; }
        case NN_: { auto& a = n(); auto& b = n(4); auto& c = n(); judge("three virtual_", NN_, outcome([&] { return nn_m::fn(*a.n, b.n4, *c.n); }), {cl(a), b.n4->claim4, cl(c)}, {w(a), w(b), w(c)}, {a0(a), a4(b), a0(c)}, 0); break; }
#if POLICY
        case TWO: { auto& a = n(); auto& b = m(); judge("virtual_<const N0&>, virtual_<M0&>", TWO, outcome([&] { return two_m::fn(*a.n, *b.m); }), {cl(a), b.dyn}, {w(a), w(b)}, {a0(a)}, 1); break; }
        case MIX: {
            auto& a = n(); auto& b = m(); auto& c = n();
            Asks q{a0(a), a0(c)};
            if (b.dyn == 9 && rnd(g, 2)) { // known as an M2, it has a function
                q.insert({FNM2, w(b)});
                judge("mixed, M2", MIX, outcome([&] { return mix_m::fn(*a.n, static_cast<M2&>(*b.m), *c.n); }), {cl(a), 9, cl(c)}, {w(a), w(b), w(c)}, q, 0);
            } else
                judge("mixed", MIX, outcome([&] { return mix_m::fn(*a.n, *b.m, *c.n); }), {cl(a), b.dyn, cl(c)}, {w(a), w(b), w(c)}, q, 1);
            break;
        }
#endif
#if POLY
        case VP: { auto& o = n(); judge("virtual_ptr from N0&", VP, outcome([&] { return vp_m::fn(*o.n, 1); }), {cl(o)}, {w(o)}, {a0(o)}, 0); break; }
        case VP4: { auto& a = n(4); auto& b = n(); const N4& ca = *a.n4; judge("virtual_ptr<const N4>, virtual_<const N0&>", VP4, outcome([&] { return vp4_m::fn(ca, *b.n); }), {a.n4->claim4, cl(b)}, {w(a), w(b)}, {a4(a), a0(b)}, 0); break; }
        case SP: { auto& o = n(); judge("virtual_<shared_ptr>", SP, outcome([&] { return sp_m::fn(o.sp); }), {cl(o)}, {w(o)}, {a0(o)}, 0); break; }
        case CSP: { auto& o = n(4); judge("virtual_<const shared_ptr&>", CSP, outcome([&] { return csp_m::fn(o.sp4); }), {o.n4->claim4}, {w(o)}, {a4(o)}, 0); break; }
        case SVP: { auto& o = n(); judge("shared virtual_ptr from shared_ptr", SVP, outcome([&] { return svp_m::fn(o.sp); }), {cl(o)}, {w(o)}, {a0(o)}, 0); break; }
        case UP: {
            auto p = std::make_unique<N5>();
            p->whole = p.get(); p->claim = some_base(g, 5, 0); p->claim4 = some_base(g, 5, 4);
            N5* raw = p.get();
            if (rnd(g, 2)) { int c = raw->claim; std::unique_ptr<N0> q(std::move(p)); judge("unique virtual_ptr", UP, outcome([&] { return up_m::fn(std::move(q)); }), {c}, {raw}, {{FN0, raw}}, 0); }
            else { int c = raw->claim4; std::unique_ptr<N4> q(std::move(p)); judge("unique virtual_ptr, N4", UP, outcome([&] { return up_m::fn(std::move(q)); }), {c}, {raw}, {{FN4, raw}}, 0); }
            break;
        }
        case NM: final_(); break;
        case NM + 1: use_held(); break;
#endif
        default: break;
        }
    }
    void reinit() {
        if (rnd(g, 2)) Extra<0>::flip();
        if (rnd(g, 2)) Extra<1>::flip();
        if (rnd(g, 2)) Extra<2>::flip();
#if POLY
        if (!R::has_indirect_vptr) drop();
#endif
        if (rnd(g, 4) == 0) om::finalize<R>();
        om::initialize<R>();
        count("initializations");
    }
    void run() {
        om::initialize<R>();
        for (int d = 0; d < (POLICY ? NCLS : NN); ++d) for (int k = rnd(g, 3); k >= 0; --k) objs.push_back(make_obj(d));
        for (int k = 0; k < 150; ++k) {
            int x = rnd(g, 100);
            if (x < 20) claims();
            else if (x < 23) reinit();
#if POLY
            else if (x < 35) build();
            else if (x < 37) drop();
            else if (x < 50) use_held();
#endif
            else call();
        }
    }
};

int main(int argc, char** argv) {
    tables();
    return run_cases(argc, argv, [](Rng& g, const Args&) { count("cases"); Case{g, {}}.run(); });
}
