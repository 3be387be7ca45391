// C15: histories of initialize, failed initialize, finalize, unregistration
// and uses, right and wrong, in registries with runtime checks.
#include "../util.hpp"
#define VERIF_NO_REG
#include <boost/openmethod/preamble.hpp>
#include <boost/openmethod/policies/std_rtti.hpp>
#include <boost/openmethod/policies/static_rtti.hpp>
#include <boost/openmethod/policies/vptr_vector.hpp>
#include <boost/openmethod/policies/vptr_map.hpp>
#include <boost/openmethod/policies/stderr_output.hpp>
#include <boost/openmethod/policies/fast_perfect_hash.hpp>
#include <boost/openmethod/policies/throw_error_handler.hpp>
#include <boost/openmethod/core.hpp>
#include <boost/openmethod/inplace_vptr.hpp>
#include <boost/openmethod/interop/std_shared_ptr.hpp>
#include <boost/openmethod/interop/std_unique_ptr.hpp>
#include <boost/openmethod/initialize.hpp>
#include <memory>
#include <optional>
#include <set>
namespace om = boost::openmethod;
namespace po = boost::openmethod::policies;
namespace mp11 = boost::mp11;
#ifndef VARIANT
#define VARIANT 1
#endif

struct IA; struct IB; struct A; struct B; struct D; struct M; struct X; struct G; struct H; struct N; struct Q; struct V; struct W;
struct SA; struct SB; struct SG; struct SN; // not polymorphic
using All = mp11::mp_list<A, B, D, M, X, G, H, N, Q, V, W>;
enum Cls { kA, kB, kD, kM, kX, kG, kH, kN, kQ, kV, kW, NCLS };
static const char* NAMES[] = {"A", "B", "D", "M", "X", "G", "H", "N", "Q", "V", "W"};
template<class C> constexpr int index_of = int(mp11::mp_find<All, std::remove_cv_t<C>>::value);

template<class C> constexpr std::uintptr_t int_id = index_of<C> < NCLS ? index_of<C> * 3 + 1 : std::is_same_v<std::remove_cv_t<C>, IA> ? 1000 : std::is_same_v<std::remove_cv_t<C>, IB> ? 1001 :
    std::is_same_v<C, SA> ? 1002 : std::is_same_v<C, SB> ? 1003 : std::is_same_v<C, SG> ? 1004 : std::is_same_v<C, SN> ? 1005 : 1;
struct int_rtti : po::rtti { // type ids are small integers found in the objects
    template<class Registry> struct fn : po::rtti::defaults {
        template<class C> static constexpr bool is_polymorphic = std::is_polymorphic_v<C>;
        template<class C> static om::type_id static_type() { return om::type_id(int_id<C>); }
        template<class C> static om::type_id dynamic_type(const C& o) { if constexpr (index_of<C> < NCLS) return om::type_id(std::uintptr_t(o.cls() * 3 + 1)); else return om::type_id(int_id<C>); }
        template<class S> static void type_name(om::type_id t, S& s) { s << "class"; }
        static auto type_index(om::type_id t) { return t; }
        template<class D, class B2> static D dynamic_cast_ref(B2&& o) { return dynamic_cast<D>(o); }
    };
};
#if VARIANT == 1
struct Reg : om::registry<po::std_rtti, po::vptr_vector, po::fast_perfect_hash, po::throw_error_handler, po::runtime_checks> {};
#elif VARIANT == 2
struct Reg : om::registry<po::std_rtti, po::vptr_vector, po::fast_perfect_hash, po::throw_error_handler, po::runtime_checks, po::indirect_vptr> {};
#elif VARIANT == 3
struct Reg : om::registry<po::std_rtti, po::vptr_map<>, po::throw_error_handler, po::runtime_checks> {};
#elif VARIANT == 4
struct Reg : om::registry<po::std_rtti, po::vptr_map<>, po::throw_error_handler, po::runtime_checks, po::indirect_vptr> {};
#elif VARIANT == 5
struct Reg : om::registry<int_rtti, po::vptr_vector, po::throw_error_handler, po::runtime_checks> {};
#elif VARIANT == 6
struct Reg : om::registry<int_rtti, po::vptr_vector, po::throw_error_handler, po::runtime_checks, po::indirect_vptr> {};
#endif
struct srtti : po::static_rtti { // errors want a dynamic type
    template<class R> struct fn : po::static_rtti::fn<R> { template<class C> static om::type_id dynamic_type(const C&) { return nullptr; } };
};
#if VARIANT % 2
struct SReg : om::registry<srtti, po::throw_error_handler, po::runtime_checks> {};
#else
struct SReg : om::registry<srtti, po::throw_error_handler, po::runtime_checks, po::indirect_vptr> {};
#endif
constexpr bool INDIRECT = Reg::has_indirect_vptr;

struct A { virtual int cls() const { return kA; } virtual ~A() {} long a = 1; };
struct B : A { int cls() const override { return kB; } };
struct M { virtual int cls() const { return kM; } virtual ~M() {} long m = 2; };
struct D : M, A { int cls() const override { return kD; } };
struct V { virtual int cls() const { return kV; } virtual ~V() {} };
struct W : virtual V { int cls() const override { return kW; } };
struct X : B, virtual V { int cls() const override { return kX; } };
struct G : B { int cls() const override { return kG; } };   // comes and goes
struct H : D { int cls() const override { return kH; } };   // comes and goes
struct N : D { int cls() const override { return kN; } };   // never registered
struct Q : A { int cls() const override { return kQ; } };   // needed by an overrider, comes and goes
static om::use_classes<A, B, D, M, X, V, W, Reg> use0;
static std::optional<om::use_classes<B, G, Reg>> useG;
static std::optional<om::use_classes<D, H, Reg>> useH;
static std::optional<om::use_classes<A, Q, Reg>> useQ;

// embedded v-table pointers in the same registry
struct IA : om::inplace_vptr_base<IA, Reg> { virtual ~IA() {} int cls() const { return NCLS; } };
struct IB : IA, om::inplace_vptr_derived<IB, IA> {};

template<class C> using PP = om::virtual_ptr<C, Reg>;
template<class C> using SP = om::virtual_ptr<std::shared_ptr<C>, Reg>;
template<class C> using UP = om::virtual_ptr<std::unique_ptr<C>, Reg>;
static int ran = 0;
template<int> struct id;
using m_ref = om::method<id<0>, int(om::virtual_<A&>), Reg>;
using m_cref = om::method<id<1>, int(int, om::virtual_<const A&>), Reg>;
using m_two = om::method<id<2>, int(om::virtual_<A&>, int, om::virtual_<const M&>), Reg>;
using m_vp = om::method<id<3>, int(PP<A>), Reg>;
using m_shared = om::method<id<4>, int(om::virtual_<const std::shared_ptr<A>&>), Reg>;
using m_svp = om::method<id<5>, int(const SP<A>&), Reg>;
using m_ptr = om::method<id<6>, int(om::virtual_<A*>), Reg>;
using m_mixed = om::method<id<7>, int(PP<A>, om::virtual_<M&>), Reg>;
using m_in = om::method<id<8>, int(om::virtual_<IA&>), Reg>;
using m_v = om::method<id<9>, int(om::virtual_<V&>), Reg>;
using m_rv = om::method<id<10>, int(om::virtual_<A&&>), Reg>;
int in_a(IA&) { ++ran; return 1; } int in_b(IB&) { ++ran; return 2; }
static m_in::override<in_a, in_b> oin;
template<class T> int ref_fn(T&) { ++ran; return index_of<T>; }
template<class T> int rv_fn(T&&) { ++ran; return index_of<T>; }
template<class T> int cref_fn(int, const T&) { ++ran; return index_of<T>; }
template<class T> int vp_fn(PP<T>) { ++ran; return index_of<T>; }
template<class T> int sh_fn(const std::shared_ptr<T>&) { ++ran; return index_of<T>; }
template<class T> int svp_fn(const SP<T>&) { ++ran; return index_of<T>; }
template<class T> int ptr_fn(T*) { ++ran; return index_of<T>; }
template<class T, class U> int two_fn(T&, int, const U&) { ++ran; return index_of<T> * 100 + index_of<U>; }
template<class T, class U> int mixed_fn(PP<T>, U&) { ++ran; return index_of<T> * 100 + index_of<U>; }
static m_ref::override<ref_fn<A>, ref_fn<B>, ref_fn<D>, ref_fn<X>, ref_fn<Q>> o1;
static m_cref::override<cref_fn<A>, cref_fn<B>, cref_fn<D>, cref_fn<X>> o2;
static m_vp::override<vp_fn<A>, vp_fn<B>, vp_fn<D>, vp_fn<X>> o3;
static m_shared::override<sh_fn<A>, sh_fn<B>, sh_fn<D>, sh_fn<X>> o4;
static m_svp::override<svp_fn<A>, svp_fn<B>, svp_fn<D>, svp_fn<X>> o5;
static m_ptr::override<ptr_fn<A>, ptr_fn<B>, ptr_fn<D>, ptr_fn<X>> o6;
static m_two::override<two_fn<A, M>, two_fn<B, M>, two_fn<A, D>, two_fn<B, D>, two_fn<D, M>, two_fn<D, D>> o7;
static m_mixed::override<mixed_fn<A, M>, mixed_fn<B, M>, mixed_fn<A, D>, mixed_fn<B, D>, mixed_fn<D, M>, mixed_fn<D, D>> o8;
static m_v::override<ref_fn<V>, ref_fn<W>, ref_fn<X>> o9;
static m_rv::override<rv_fn<A>, rv_fn<B>, rv_fn<D>, rv_fn<X>> o10;

// classes that are not polymorphic, in both registries
struct SA { int x = 1; };
struct SB : SA {};
struct SG : SA { int y = 2; };   // comes and goes
struct SN : SB {};               // never registered
template<class R> struct Statics {
    static inline om::use_classes<SA, SB, R> use;
    static inline std::optional<om::use_classes<SA, SG, R>> useG;
    static inline bool regG;
    struct id1; struct id2;
    using P = om::virtual_ptr<SA, R>;
    using S = om::virtual_ptr<std::shared_ptr<SA>, R>;
    using m1 = om::method<id1, int(P), R>;
    using m2 = om::method<id2, int(const S&, int, P), R>;
    static int a(P) { ++ran_here(); return 1; }
    static int b(om::virtual_ptr<SB, R>) { ++ran_here(); return 2; }
    static int aa(const S&, int, P) { ++ran_here(); return 3; }
    static int ab(const S&, int, om::virtual_ptr<SB, R>) { ++ran_here(); return 4; }
    static int& ran_here() { return ran; }
    static inline typename m1::template override<a, b> o1;
    static inline typename m2::template override<aa, ab> o2;
    static inline std::vector<std::pair<P, int>> kept; // and what they make a call do
};

// ---- the model
enum State { NEVER, READY, UNKNOWN };
static State state;
static bool regG, regH, regQ;
static bool registered(int k) { return k == kN ? false : k == kG ? regG : k == kH ? regH : k == kQ ? regQ : true; }
static int over(int k) { return k == kG ? kB : k == kH || k == kN ? kD : k; }   // most derived overrider
static int over2(int k) { k = over(k); return k == kX ? kB : k == kQ ? kA : k; }
static om::type_id tid(int k) {
    om::type_id r = nullptr;
    mp11::mp_for_each<mp11::mp_transform<mp11::mp_identity, All>>([&](auto t) { using C = typename decltype(t)::type; if (index_of<C> == k) r = Reg::rtti::template static_type<C>(); });
    return r;
}
static const char* tname(om::type_id t) { for (int k = 0; k < NCLS; ++k) if (tid(k) == t) return NAMES[k]; return "?"; }
enum Kind { OK, NOT_INIT, MISSING, FINAL, OTHER };
static const char* KIND[] = {"no error", "not_initialized", "missing_class", "final_error", "another error"};
template<class F> void expect(const char* what, int k, int k2, Kind want, std::vector<int> types, F f, int result = -1) {
    ran = 0;
    Kind got = OK; om::type_id t1 = nullptr, t2 = nullptr; int r = -1;
    try { r = f(); }
    catch (om::not_initialized&) { got = NOT_INIT; }
    catch (om::missing_class& e) { got = MISSING; t1 = e.type; }
    catch (om::final_error& e) { got = FINAL; t1 = e.static_type; t2 = e.dynamic_type; }
    catch (om::openmethod_error&) { got = OTHER; }
    const char* n = k < NCLS ? NAMES[k] : "embedded"; const char* n2 = k2 >= 0 ? NAMES[k2] : "";
    char b[80]; snprintf(b, sizeof b, "%s %s%s->%s; ", what, n, n2, KIND[got]); trail() += b;
    count(want == OK ? "right_uses" : want == NOT_INIT ? "not_initialized_uses" : want == MISSING ? "unregistered_uses" : "final_uses");
    distinct(mix(mix(mix(std::hash<std::string>()(what), k), k2 + 1), want));
    if (got != want) { violation("misuse", "%s on a %s object %s: %s, expected %s", what, n, n2, KIND[got], KIND[want]); return; }
    if (want != OK && ran) violation("misuse", "%s on a %s object %s: an overrider ran before the error", what, n, n2);
    if (want == OK && result >= 0 && r != result) violation("misuse", "%s on a %s object %s: overrider %d ran, expected %d", what, n, n2, r, result);
    if (want == MISSING) { bool ok = false; for (int t : types) if (tid(t) == t1) ok = true; if (!ok) violation("misuse", "%s on a %s object %s: missing_class names %s", what, n, n2, tname(t1)); }
    if (want == FINAL && (t1 != tid(types[0]) || t2 != tid(types[1]))) violation("misuse", "%s: final_error names %s and %s, expected %s and %s", what, tname(t1), tname(t2), NAMES[types[0]], NAMES[types[1]]);
}
static Kind use(int k) { return state != READY ? NOT_INIT : registered(k) ? OK : MISSING; }

template<class F> void with_class(int k, F f) { mp11::mp_for_each<mp11::mp_transform<mp11::mp_identity, All>>([&](auto t) { using C = typename decltype(t)::type; if (index_of<C> == k) f(t); }); }
template<class R, class C> void one_static_use(Rng& g, const char* name, int result) {
    using T = Statics<R>;
    (void)&T::use; (void)&T::o1; (void)&T::o2;
    static SA a; static SB b; static C c; // virtual_ptrs to them are kept
    bool reg = std::is_same_v<C, SN> ? false : std::is_same_v<C, SG> ? T::regG : true;
    Kind want = state != READY ? NOT_INIT : reg ? OK : MISSING, got = OK;
    om::type_id type = nullptr;
    static const char* USES[] = {"final_virtual_ptr(C&)", "virtual_ptr::final(C&)", "final_virtual_ptr(shared)", "make_shared_virtual", "make_unique_virtual", "call(final_virtual_ptr)", "call(shared, final)"};
    int use = rnd(g, 7), r = 0;
    ran = 0;
    try {
        switch (use) {
        case 0: { auto p = om::final_virtual_ptr<R>(c); r = result; if (&*p != &c) r = -1; T::kept.push_back({p, result}); break; }
        case 1: { om::virtual_ptr<SA, R> p = om::virtual_ptr<C, R>::final(c); r = result; T::kept.push_back({p, result}); break; }
        case 2: om::final_virtual_ptr<R>(std::make_shared<C>()); r = result; break;
        case 3: om::make_shared_virtual<C, R>(); r = result; break;
        case 4: om::make_unique_virtual<C, R>(); r = result; break;
        case 5: r = T::m1::fn(om::final_virtual_ptr<R>(c)); break;
        case 6: r = T::m2::fn(om::make_shared_virtual<C, R>(), 1, om::final_virtual_ptr<R>(c)) - 2; break;
        }
    }
    catch (om::not_initialized&) { got = NOT_INIT; }
    catch (om::missing_class& e) { got = MISSING; type = e.type; }
    catch (om::openmethod_error&) { got = OTHER; }
    count(want == OK ? "right_uses" : want == NOT_INIT ? "not_initialized_uses" : "unregistered_uses");
    count("nonpolymorphic_uses");
    char t[80]; snprintf(t, sizeof t, "%s %s->%s; ", USES[use], name, KIND[got]); trail() += t;
    distinct(mix(mix(mix(use, std::hash<std::string>()(name)), want), std::is_same_v<R, Reg>));
    if (got != want) violation("misuse", "%s on a %s object: %s, expected %s", USES[use], name, KIND[got], KIND[want]);
    else if (got != OK && ran) violation("misuse", "%s on a %s object: an overrider ran before the error", USES[use], name);
    else if (got == OK && r != result) violation("misuse", "%s on a %s object: overrider %d ran, expected %d", USES[use], name, r, result);
    else if (got == MISSING && type != R::rtti::template static_type<C>()) violation("misuse", "%s on a %s object: missing_class names another class", USES[use], name);
    if (T::kept.size() > 20) T::kept.erase(T::kept.begin());
    if (!T::kept.empty() && chance(g, 40)) {
        auto& k = T::kept[rnd(g, int(T::kept.size()))];
        got = OK; r = -1; ran = 0;
        try { r = T::m1::fn(k.first); } catch (om::not_initialized&) { got = NOT_INIT; } catch (om::openmethod_error&) { got = OTHER; }
        want = state == READY ? OK : NOT_INIT;
        if (got != want || (got == OK && r != k.second) || (got != OK && ran)) violation("misuse", "call on a kept final virtual_ptr: %s and %d, expected %s and %d", KIND[got], r, KIND[want], k.second);
    }
}
template<class R> void static_use(Rng& g) {
    switch (rnd(g, 4)) {
    case 0: one_static_use<R, SA>(g, "non-polymorphic A", 1); break;
    case 1: one_static_use<R, SB>(g, "non-polymorphic B", 2); break;
    case 2: one_static_use<R, SG>(g, "non-polymorphic G", 1); break;
    case 3: one_static_use<R, SN>(g, "non-polymorphic N", 2); break;
    }
}
template<class R> void toggle(Rng& g) {
    using T = Statics<R>;
    if (chance(g, 40)) { if (T::useG) T::useG.reset(); else T::useG.emplace(); }
    if (!R::has_indirect_vptr) T::kept.clear();
}
template<class R> void ready() {
    using T = Statics<R>;
    // virtual_ptrs to objects of a class that is no longer registered are dead
    if (T::regG && !T::useG) T::kept.clear();
    T::regG = bool(T::useG);
}
struct Kept { std::unique_ptr<A> o; PP<A> p; SP<A> s; int k; };
static std::vector<Kept> kept;   // made since the last initialize (kept over it if indirect)

static void one_use(Rng& g) {
    static const int as[] = {kA, kB, kD, kX, kG, kH, kN, kQ}, ms[] = {kM, kD, kH, kN};
    int k = as[rnd(g, 8)], what = rnd(g, 31);
    if (what >= 27) { if (what == 27) static_use<Reg>(g); else if (what < 30) static_use<SReg>(g); return; }
    with_class(k, [&](auto t) {
        using C = typename decltype(t)::type;
        if constexpr (std::is_base_of_v<A, C>) {
            auto sp = std::make_shared<C>();
            C& c = *sp;
            A& a = c;
            int o = over(k), o1 = k == kQ ? kA : o; // only m_ref overrides Q
            std::shared_ptr<A> sa(sp);
            Kind u = use(k);
            std::vector<int> ty{k};
            switch (what) {
            case 0: expect("call(A&)", k, -1, u, ty, [&] { return m_ref::fn(a); }, o); break;
            case 1: expect("call(const A&)", k, -1, u, ty, [&] { return m_cref::fn(1, a); }, o1); break;
            case 2: expect("call(ptr A)", k, -1, u, ty, [&] { return m_ptr::fn(&a); }, o1); break;
            case 3: expect("call(shared A)", k, -1, u, ty, [&] { return m_shared::fn(sa); }, o1); break;
            case 4: expect("call(virtual_ptr from A&)", k, -1, u, ty, [&] { return m_vp::fn(a); }, o1); break;
            case 5: expect("call(virtual_ptr from shared)", k, -1, u, ty, [&] { return m_svp::fn(sa); }, o1); break;
            case 6: expect("virtual_ptr(A&)", k, -1, u, ty, [&] { PP<A> p(a); return 0; }); break;
            case 7: expect("virtual_ptr(A*)", k, -1, u, ty, [&] { PP<A> p(&a); return 0; }); break;
            case 8: expect("virtual_ptr = A&", k, -1, u, ty, [&] { PP<A> p(nullptr); p = a; return 0; }); break;
            case 9: expect("virtual_ptr = A*", k, -1, u, ty, [&] { PP<const A> p(nullptr); p = &a; return 0; }); break;
            case 10: expect("virtual_ptr(shared)", k, -1, u, ty, [&] { SP<A> p(sa); return 0; }); break;
            case 11: expect("virtual_ptr = shared", k, -1, u, ty, [&] { SP<A> p; p = sa; return 0; }); break;
            case 12: expect("virtual_ptr(shared&&)", k, -1, u, ty, [&] { SP<A> p(std::move(sp)); return 0; }); break;
            case 13: expect("virtual_ptr(unique&&)", k, -1, u, ty, [&] { UP<A> p(std::make_unique<C>()); return 0; }); break;
            case 14: expect("virtual_ptr = unique&&", k, -1, u, ty, [&] { UP<A> p; p = std::unique_ptr<A>(new C); return 0; }); break;
            case 15: expect("virtual_ptr(C&)", k, -1, u, ty, [&] { PP<C> p(c); return 0; }); break;
            case 16: case 17:
                if (state == READY && k != kA) {
                    if (registered(k)) expect("final_virtual_ptr(A&)", k, -1, FINAL, {kA, k}, [&] { om::final_virtual_ptr<Reg>(a); return 0; });
                    else { // either complaint is right
                        bool ok = false;
                        try { om::final_virtual_ptr<Reg>(a); } catch (om::final_error& e) { ok = e.static_type == tid(kA) && e.dynamic_type == tid(k); } catch (om::missing_class& e) { ok = e.type == tid(k); } catch (om::openmethod_error&) {}
                        if (!ok) violation("misuse", "final_virtual_ptr(A&) on an unregistered %s object", NAMES[k]);
                    }
                } else expect("final_virtual_ptr(A&)", k, -1, u, ty, [&] { om::final_virtual_ptr<Reg>(a); return 0; });
                break;
            case 18: expect("final_virtual_ptr(C&)", k, -1, u, ty, [&] { om::final_virtual_ptr<Reg>(c); return 0; }); break;
            case 19: expect("final_virtual_ptr(shared)", k, -1, state == READY && k != kA && registered(k) ? FINAL : state == READY && k != kA ? OTHER : u, {kA, k}, [&]() -> int {
                    try { om::final_virtual_ptr<Reg>(std::shared_ptr<A>(sa)); } catch (om::final_error&) { if (!registered(k)) throw om::openmethod_error(); throw; } catch (om::missing_class&) { if (k != kA) throw om::openmethod_error(); throw; }
                    return 0; }); break;
            case 20: expect("make_shared_virtual", k, -1, u, ty, [&] { om::make_shared_virtual<C, Reg>(); return 0; }); break;
            case 21: expect("make_unique_virtual", k, -1, u, ty, [&] { om::make_unique_virtual<C, Reg>(); return 0; }); break;
            case 22: case 23: {
                int k2 = ms[rnd(g, 4)];
                with_class(k2, [&](auto t2) {
                    using C2 = typename decltype(t2)::type;
                    if constexpr (std::is_base_of_v<M, C2>) {
                        C2 c2; M& m = c2;
                        Kind u2 = state != READY ? NOT_INIT : registered(k) && registered(k2) ? OK : MISSING;
                        std::vector<int> bad; if (!registered(k)) bad.push_back(k); if (!registered(k2)) bad.push_back(k2);
                        int want = over2(k) * 100 + over2(k2);
                        if (what == 22) expect("call(A&,M&)", k, k2, u2, bad, [&] { return m_two::fn(a, 1, m); }, want);
                        else expect("call(virtual_ptr,M&)", k, k2, u2, bad, [&] { return m_mixed::fn(a, m); }, want);
                    }
                });
                break;
            }
            case 24: expect("call(A&&)", k, -1, u, ty, [&] { return m_rv::fn(std::move(a)); }, o1); break;
            case 25:
                if (u == OK && kept.size() < 12) { Kept x{std::make_unique<C>(), PP<A>(nullptr), SP<A>(), k}; x.p = *x.o; x.s = sa; kept.push_back(std::move(x)); }
                break;
            case 26: {
                X x; V& v = x; W w; V& v2 = w;
                expect("call(V&) with virtual base", kX, -1, use(kX), {}, [&] { return m_v::fn(v); }, kX);
                expect("call(V&) with virtual base", kW, -1, use(kW), {}, [&] { return m_v::fn(v2); }, kW);
                IB ib; IA ia;
                Kind ku = state == READY ? OK : NOT_INIT;
                if (state != READY || chance(g, 50)) { expect("call on embedded", NCLS, -1, ku, {}, [&] { return m_in::fn(ib); }, 2); expect("call on embedded", NCLS, -1, ku, {}, [&] { return m_in::fn(ia); }, 1); }
                expect("virtual_ptr to embedded", NCLS, -1, ku, {}, [&] { PP<IA> p(ib); return 0; });
                break;
            }
            }
        }
    });
    if (!kept.empty() && chance(g, 30)) {
        auto& x = kept[rnd(g, int(kept.size()))];
        if (state != READY) {
            expect("call on kept virtual_ptr", x.k, -1, NOT_INIT, {}, [&] { return m_vp::fn(x.p); });
            expect("call on kept shared virtual_ptr", x.k, -1, NOT_INIT, {}, [&] { return m_svp::fn(x.s); });
            M m; expect("call on kept virtual_ptr", x.k, kM, NOT_INIT, {}, [&] { return m_mixed::fn(x.p, m); });
        } else if (registered(x.k)) {
            int o1 = x.k == kQ ? kA : over(x.k);
            expect("call on kept virtual_ptr", x.k, -1, OK, {}, [&] { return m_vp::fn(x.p); }, o1);
            expect("call on kept shared virtual_ptr", x.k, -1, OK, {}, [&] { return m_svp::fn(x.s); }, o1);
        }
    }
}
static void init(Rng& g) {
    if (!INDIRECT) kept.clear();
    toggle<Reg>(g); toggle<SReg>(g);
    if (chance(g, 40)) { if (useG) useG.reset(); else useG.emplace(); }
    if (chance(g, 40)) { if (useH) useH.reset(); else useH.emplace(); }
    if (chance(g, 30)) { if (useQ) useQ.reset(); else useQ.emplace(); } else if (chance(g, 60) && !useQ) useQ.emplace();
    try {
        om::initialize<Reg>();
        om::initialize<SReg>();
        ready<Reg>(); ready<SReg>();
        if (!useQ) { violation("misuse", "initialize succeeded although an overrider's class is missing"); return; }
        state = READY; regG = bool(useG); regH = bool(useH); regQ = bool(useQ);
        // virtual_ptrs to objects of classes that are no longer registered are dead
        for (std::size_t i = 0; i < kept.size();) if (!registered(kept[i].k)) kept.erase(kept.begin() + i); else ++i;
        trail() += std::string("initialize") + (regG ? "G" : "") + (regH ? "H" : "") + "; ";
        count("initialize");
    } catch (om::missing_class& e) {
        if (useQ || e.type != tid(kQ)) violation("misuse", "initialize reports missing class %s", tname(e.type));
        if (state == READY) state = UNKNOWN;
        kept.clear(); Statics<Reg>::kept.clear(); Statics<SReg>::kept.clear();
        trail() += "failed; ";
        count("failed_initialize");
    }
}

int main(int argc, char** argv) {
    return run_cases(argc, argv, [](Rng& g, const Args&) {
        forked_case([&] {
            state = NEVER;
            int ops = 20 + rnd(g, 150);
            for (int n = 0; n < ops && stats().viol.size() < 10; ++n) {
                if (state == UNKNOWN || chance(g, state == NEVER ? 15 : 3)) {
                    if (chance(g, 60)) init(g);
                    else { om::finalize<Reg>(); om::finalize<SReg>(); state = NEVER; trail() += "finalize; "; count("finalize"); }
                }
                if (state != UNKNOWN) one_use(g);
            }
            sample(trail().substr(0, 900));
        });
    });
}
