// C17: many threads dispatch, use next, raise errors, make and drop
// virtual_ptrs and objects with embedded pointers, after initialization; and
// several registries are registered, initialized, used and finalized at the
// same time.  Built with ThreadSanitizer, and without (results only).
// A thread's behaviour is a function of its seed: the same operations are
// repeated alone and must give the same log.
#include "../util.hpp"
#include <algorithm>
#include <atomic>
#include <thread>
#include <boost/openmethod/preamble.hpp>
#include <boost/openmethod/policies/std_rtti.hpp>
#include <boost/openmethod/policies/vptr_vector.hpp>
#include <boost/openmethod/policies/vptr_map.hpp>
#include <boost/openmethod/policies/stderr_output.hpp>
#include <boost/openmethod/policies/fast_perfect_hash.hpp>
#include <boost/openmethod/policies/default_error_handler.hpp>
#include <boost/openmethod/policies/throw_error_handler.hpp>
#include <boost/openmethod/core.hpp>
#include <boost/openmethod/inplace_vptr.hpp>
#include <boost/openmethod/interop/std_shared_ptr.hpp>
#include <boost/openmethod/interop/std_unique_ptr.hpp>
#include <boost/openmethod/interop/boost_intrusive_ptr.hpp>
#include <boost/openmethod/initialize.hpp>
#include <memory>
#include <optional>
#include <sstream>
namespace om = boost::openmethod;
namespace po = boost::openmethod::policies;
namespace mp11 = boost::mp11;
#ifndef VARIANT
#define VARIANT 0
#endif

// ---- registries, as many of each kind as needed
template<class R> struct ids_fn : po::rtti::defaults {
    template<class C, class = void> struct known : std::false_type {};
    template<class C> struct known<C, std::void_t<decltype(C::K)>> : std::true_type {};
    template<class T> static inline char other;
    template<class C> static constexpr bool is_polymorphic = known<C>::value;
    template<class C> static om::type_id static_type() { if constexpr (known<C>::value) return om::type_id(std::uintptr_t(C::K + 1)); else return &other<C>; }
    template<class C> static om::type_id dynamic_type(const C& o) { if constexpr (known<C>::value) return om::type_id(std::uintptr_t(o.cls() + 1)); else return nullptr; }
    template<class D, class B> static D dynamic_cast_ref(B&& o) { return dynamic_cast<D>(o); }
};
struct ids : po::deferred_static_rtti { template<class R> using fn = ids_fn<R>; };

template<int I> struct number { using category = number; template<class R> struct fn {}; }; // makes registries distinct
#if VARIANT == 0
#define POLICIES po::std_rtti, po::vptr_vector, po::fast_perfect_hash, po::stderr_output, po::default_error_handler
#elif VARIANT == 1
#define POLICIES po::std_rtti, po::vptr_vector, po::fast_perfect_hash, po::stderr_output, po::throw_error_handler, po::runtime_checks
#elif VARIANT == 2
#define POLICIES po::std_rtti, po::vptr_vector, po::fast_perfect_hash, po::stderr_output, po::default_error_handler, po::indirect_vptr, po::runtime_checks
#elif VARIANT == 3
#define POLICIES po::std_rtti, po::vptr_map<>, po::stderr_output, po::throw_error_handler, po::runtime_checks
#elif VARIANT == 4
#define POLICIES ids, po::vptr_vector, po::stderr_output, po::throw_error_handler, po::indirect_vptr
#elif VARIANT == 5
#define POLICIES ids, po::vptr_map<mp11::mp_quote<std::map>>, po::stderr_output, po::default_error_handler, po::runtime_checks
#endif
template<int I> struct Reg : om::registry<number<I>, POLICIES> {};

// ---- observation
static std::atomic<u64> tick{0};
struct Log {
    u64 h = 1, ops = 0, errors = 0, nexts = 0;
    Rng pause_g{1};
    std::vector<u64> ticks;
    bool concurrent = true;
    void add(u64 x) { h = mix(h, x); }
    void pause() { // moves threads against each other; relaxed, so it orders nothing
        if (!concurrent) return;
        if (ticks.size() < 4096) ticks.push_back(tick.fetch_add(1, std::memory_order_relaxed));
        switch (rnd(pause_g, 24)) {
        case 0: std::this_thread::yield(); break;
        case 1: { volatile int n = rnd(pause_g, 400); while (n > 0) n = n - 1; break; }
        case 2: usleep(unsigned(rnd(pause_g, 3))); break;
        }
    }
};
static u64 hash_str(const char* s) { u64 h = 7; while (*s) h = mix(h, u64(*s++)); return h; }

// ---- classes
struct A { enum { K = 0 }; int a = 1; mutable std::atomic<int> rc{0}; virtual int cls() const { return K; } virtual ~A() {} };
struct B : A { enum { K = 1 }; int cls() const override { return K; } long b = 2; };
struct M { enum { K = 2 }; long m = 3; virtual int cls() const { return K; } virtual ~M() {} };
struct D : M, A { enum { K = 3 }; int cls() const override { return K; } };
struct E : B, M { enum { K = 4 }; int cls() const override { return K; } };
struct F : D { enum { K = 5 }; int cls() const override { return K; } };
struct V { enum { K = 6 }; virtual int cls() const { return K; } virtual ~V() {} };
struct X : A, virtual V { enum { K = 7 }; int cls() const override { return K; } };
struct N : A { enum { K = 8 }; int cls() const override { return K; } }; // never registered
struct T1 : B { enum { K = 9 }; int cls() const override { return K; } }; // comes and goes
inline void intrusive_ptr_add_ref(const A* p) { p->rc.fetch_add(1, std::memory_order_relaxed); }
inline void intrusive_ptr_release(const A* p) { if (p->rc.fetch_sub(1, std::memory_order_acq_rel) == 1) delete p; }
template<class R> struct P : om::inplace_vptr_base<P<R>, R> { enum { K = 10 }; virtual int cls() const { return K; } virtual ~P() {} int p = 1; };
template<class R> struct Q : P<R>, om::inplace_vptr_derived<Q<R>, P<R>> { enum { K = 11 }; int cls() const override { return K; } };
template<class R> struct Q2 : Q<R>, om::inplace_vptr_derived<Q2<R>, Q<R>> { enum { K = 12 }; int cls() const override { return K; } };
template<class R> struct S : om::inplace_vptr_base<S<R>, R> { enum { K = 13 }; virtual int cls() const { return K; } virtual ~S() {} int s = 1; };
template<class R> struct PS : S<R>, Q<R>, om::inplace_vptr_derived<PS<R>, S<R>, Q<R>> { // calls methods while it is built and destroyed
    enum { K = 14 };
    int* seen; explicit PS(int* seen = nullptr);
    PS(const PS&) = default;
    ~PS();
    virtual int pure() const = 0;
    int cls() const override { return K; }
};
template<class R> struct PSD : PS<R>, om::inplace_vptr_derived<PSD<R>, PS<R>> { enum { K = 15 }; using PS<R>::PS; int pure() const override { return 0; } int cls() const override { return K; } };
template<class R> int class_index(om::type_id t) {
    int r = -1;
    mp11::mp_for_each<mp11::mp_transform<mp11::mp_identity, mp11::mp_list<A, B, M, D, E, F, V, X, N, T1, P<R>, Q<R>, Q2<R>, S<R>, PS<R>, PSD<R>>>>([&](auto i) {
        using T = typename decltype(i)::type;
        if (R::rtti::template static_type<T>() == t) r = T::K;
    });
    return r;
}

// ---- methods
template<class R> struct n_poke; template<class R> struct n_meet; template<class R> struct n_vp; template<class R> struct n_sp; template<class R> struct n_up; template<class R> struct n_ip; template<class R> struct n_em; template<class R> struct n_em2; template<class R> struct n_tri; template<class R> struct n_quad; template<class R> struct n_mv; template<class R> struct n_cov; template<class R> struct n_ems;
struct Log;
template<class R> using tri = om::method<n_tri<R>, int(om::virtual_<const A&>, Log&, om::virtual_ptr<A, R>, om::virtual_<const M&>), R>;
template<class R> using quad = om::method<n_quad<R>, int(om::virtual_<const A*>, const om::virtual_ptr<std::shared_ptr<A>, R>&, om::virtual_<std::shared_ptr<A>>, Log&, om::virtual_<const boost::intrusive_ptr<A>&>), R>;
template<class R> using mv = om::method<n_mv<R>, int(om::virtual_<A&&>, om::virtual_ptr<std::shared_ptr<A>, R>, Log&), R>;
template<class R> using cov = om::method<n_cov<R>, const A*(om::virtual_<const A&>, om::virtual_<const M&>, Log&), R>;
template<class R> using ems = om::method<n_ems<R>, int(om::virtual_<const S<R>&>), R>;
template<class R> using poke = om::method<n_poke<R>, int(om::virtual_<const A&>, Log&), R>;
template<class R> using meet = om::method<n_meet<R>, int(om::virtual_<const A&>, Log&, om::virtual_<const M&>), R>;
template<class R> using vp = om::method<n_vp<R>, int(om::virtual_ptr<A, R>, Log&), R>;
template<class R> using sp = om::method<n_sp<R>, int(om::virtual_ptr<std::shared_ptr<A>, R>, Log&), R>;
template<class R> using up = om::method<n_up<R>, int(om::virtual_ptr<std::unique_ptr<A>, R>, Log&), R>;
template<class R> using ip = om::method<n_ip<R>, int(om::virtual_ptr<boost::intrusive_ptr<A>, R>, Log&), R>;
template<class R> using em = om::method<n_em<R>, int(om::virtual_<P<R>&>, Log&), R>;
template<class R> using em2 = om::method<n_em2<R>, int(om::virtual_ptr<P<R>, R>, om::virtual_<P<R>&>, Log&), R>;
struct Thrown { int x; };
static int ran(Log& l, int id, int seen) { l.add(u64(id * 100 + seen)); l.pause(); if (l.h % 97 == 3) throw Thrown{id}; return id; }
#define NEXT(METHOD, FN, ...) (l.add(METHOD::template has_next<FN>()), METHOD::template has_next<FN>() || l.h % 5 == 0 ? (++l.nexts, METHOD::template next<FN>(__VA_ARGS__)) : 0)

template<class R> int poke_A(const A& a, Log& l) { return ran(l, 1, a.cls()) + NEXT(poke<R>, poke_A<R>, a, l); }
template<class R> int poke_B(const B& a, Log& l) { return ran(l, 2, a.cls()) + NEXT(poke<R>, poke_B<R>, a, l); }
template<class R> int poke_E(const E& a, Log& l) { return ran(l, 3, a.cls()) + NEXT(poke<R>, poke_E<R>, a, l); }
template<class R> int poke_X(const X& a, Log& l) { return ran(l, 4, a.cls()) + NEXT(poke<R>, poke_X<R>, a, l); }
template<class R> int meet_BM(const B& a, Log& l, const M& m) { return ran(l, 5, a.cls() * 10 + m.cls()) + NEXT(meet<R>, meet_BM<R>, a, l, m); }
template<class R> int meet_AF(const A& a, Log& l, const F& m) { return ran(l, 6, a.cls() * 10 + m.cls()) + NEXT(meet<R>, meet_AF<R>, a, l, m); }
template<class R> int meet_EE(const E& a, Log& l, const E& m) { return ran(l, 7, a.cls() * 10 + m.cls()) + NEXT(meet<R>, meet_EE<R>, a, l, m); }
template<class R> int vp_A(om::virtual_ptr<A, R> a, Log& l) { return ran(l, 8, a->cls()); }
template<class R> int vp_D(om::virtual_ptr<D, R> a, Log& l) { return ran(l, 9, a->cls()) + NEXT(vp<R>, vp_D<R>, a, l); }
template<class R> int sp_A(om::virtual_ptr<std::shared_ptr<A>, R> a, Log& l) { return ran(l, 10, a->cls()); }
template<class R> int sp_E(om::virtual_ptr<std::shared_ptr<E>, R> a, Log& l) { return ran(l, 11, a->cls()) + NEXT(sp<R>, sp_E<R>, a, l); }
template<class R> int up_A(om::virtual_ptr<std::unique_ptr<A>, R> a, Log& l) { return ran(l, 12, a->cls()); }
template<class R> int up_F(om::virtual_ptr<std::unique_ptr<F>, R> a, Log& l) { ran(l, 13, a->cls()); return up<R>::template has_next<up_F<R>>() ? up<R>::template next<up_F<R>>(std::move(a), l) : 0; }
template<class R> int ip_B(om::virtual_ptr<boost::intrusive_ptr<B>, R> a, Log& l) { return ran(l, 14, a->cls()) + NEXT(ip<R>, ip_B<R>, a, l); }
template<class R> int em_P(P<R>& a, Log& l) { return ran(l, 15, a.cls()); }
template<class R> int em_Q2(Q2<R>& a, Log& l) { return ran(l, 16, a.cls()) + NEXT(em<R>, em_Q2<R>, a, l); }
template<class R> int em2_PQ(om::virtual_ptr<P<R>, R> a, Q<R>& b, Log& l) { return ran(l, 17, a->cls() * 10 + b.cls()); }
template<class R> int em2_QP(om::virtual_ptr<Q<R>, R> a, P<R>& b, Log& l) { return ran(l, 18, a->cls() * 10 + b.cls()); }
template<class R> int tri_AAM(const A& a, Log& l, om::virtual_ptr<A, R> b, const M& m) { return ran(l, 19, a.cls() * 100 + b->cls() * 10 + m.cls()); }
template<class R> int tri_BAD(const B& a, Log& l, om::virtual_ptr<A, R> b, const D& m) { return ran(l, 20, a.cls() * 100 + b->cls() * 10 + m.cls()) + NEXT(tri<R>, tri_BAD<R>, a, l, b, m); }
template<class R> int tri_ABM(const A& a, Log& l, om::virtual_ptr<B, R> b, const M& m) { return ran(l, 21, a.cls() * 100 + b->cls() * 10 + m.cls()) + NEXT(tri<R>, tri_ABM<R>, a, l, b, m); }
template<class R> int tri_DDD(const D& a, Log& l, om::virtual_ptr<D, R> b, const D& m) { return ran(l, 22, a.cls() * 100 + b->cls() * 10 + m.cls()) + NEXT(tri<R>, tri_DDD<R>, a, l, b, m); }
template<class R> int quad_A(const A* a, const om::virtual_ptr<std::shared_ptr<A>, R>& b, std::shared_ptr<A> c, Log& l, const boost::intrusive_ptr<A>& d) { return ran(l, 23, ((a->cls() * 10 + b->cls()) * 10 + c->cls()) * 10 + d->cls()); }
template<class R> int quad_E(const A* a, const om::virtual_ptr<std::shared_ptr<E>, R>& b, std::shared_ptr<B> c, Log& l, const boost::intrusive_ptr<B>& d) { return ran(l, 24, ((a->cls() * 10 + b->cls()) * 10 + c->cls()) * 10 + d->cls()) + NEXT(quad<R>, quad_E<R>, a, b, c, l, d); }
template<class R> int quad_B(const B* a, const om::virtual_ptr<std::shared_ptr<A>, R>& b, std::shared_ptr<A> c, Log& l, const boost::intrusive_ptr<B>& d) { return ran(l, 25, ((a->cls() * 10 + b->cls()) * 10 + c->cls()) * 10 + d->cls()) + NEXT(quad<R>, quad_B<R>, a, b, c, l, d); }
template<class R> int mv_A(A&& a, om::virtual_ptr<std::shared_ptr<A>, R> b, Log& l) { auto took = std::move(b); return ran(l, 26, a.cls() * 10 + took->cls()); }
template<class R> int mv_B(B&& a, om::virtual_ptr<std::shared_ptr<B>, R> b, Log& l) { return ran(l, 27, a.cls() * 10 + b->cls()); }
template<class R> const A* cov_A(const A& a, const M& m, Log& l) { ran(l, 28, a.cls() * 10 + m.cls()); return &a; }
template<class R> const B* cov_B(const B& a, const M& m, Log& l) { ran(l, 29, a.cls() * 10 + m.cls()); l.add(cov<R>::template has_next<cov_B<R>>()); if (cov<R>::template has_next<cov_B<R>>()) { auto* p = cov<R>::template next<cov_B<R>>(a, m, l); l.add(p == &a); } return &a; }
template<class R> const E* cov_E(const A&, const E& m, Log& l) { ran(l, 30, m.cls()); return &m; }
template<class R> int ems_S(const S<R>&) { return 31; }
template<class R> int ems_PS(const PS<R>& s) { (void)s; return 32 + (ems<R>::template has_next<ems_PS<R>>() ? 100 * ems<R>::template next<ems_PS<R>>(s) : 0); }
template<class R> int ems_PSD(const PSD<R>& s) { return 33 + (ems<R>::template has_next<ems_PSD<R>>() ? 100 * ems<R>::template next<ems_PSD<R>>(s) : 0); }
template<class R> PS<R>::PS(int* seen) : seen(seen) { if (seen) *seen = *seen * 7 + ems<R>::fn(*this); }
template<class R> PS<R>::~PS() { if (seen) *seen = *seen * 7 + ems<R>::fn(*this); }
template<class R> struct Registrations {
    om::use_classes<A, B, M, D, E, F, V, X, R> c;
    typename poke<R>::template override<poke_A<R>, poke_B<R>, poke_E<R>, poke_X<R>> o1;
    typename meet<R>::template override<meet_BM<R>, meet_AF<R>, meet_EE<R>> o2;
    typename vp<R>::template override<vp_A<R>, vp_D<R>> o3;
    typename sp<R>::template override<sp_A<R>, sp_E<R>> o4;
    typename up<R>::template override<up_A<R>, up_F<R>> o5;
    typename ip<R>::template override<ip_B<R>> o6;
    typename em<R>::template override<em_P<R>, em_Q2<R>> o7;
    typename em2<R>::template override<em2_PQ<R>, em2_QP<R>> o8;
    typename tri<R>::template override<tri_AAM<R>, tri_BAD<R>, tri_ABM<R>, tri_DDD<R>> o9;
    typename quad<R>::template override<quad_A<R>, quad_E<R>, quad_B<R>> o10;
    typename mv<R>::template override<mv_A<R>, mv_B<R>> o11;
    typename cov<R>::template override<cov_A<R>, cov_B<R>, cov_E<R>> o12;
    typename ems<R>::template override<ems_S<R>, ems_PS<R>, ems_PSD<R>> o13;
};
template<class R> struct More {
    om::use_classes<B, T1, R> c;
};

// ---- objects all threads look at
struct Shared {
    A a; B b; D d; E e; F f; X x; M m; N n; T1 t;
    std::shared_ptr<A> s[4] = {std::make_shared<A>(), std::make_shared<B>(), std::make_shared<E>(), std::make_shared<X>()};
    boost::intrusive_ptr<A> i[3] = {new A, new B, new E};
    A* as(int k) { A* v[] = {&a, &b, &d, &e, &f, &x}; return v[k]; }
    M* ms(int k) { M* v[] = {&m, &d, &e, &f}; return v[k]; }
};
static Shared* shared;
template<class R> struct Handles { // made by the initializing thread, used by all
    std::vector<om::virtual_ptr<A, R>> v;
    std::vector<om::virtual_ptr<std::shared_ptr<A>, R>> s;
    std::vector<om::virtual_ptr<boost::intrusive_ptr<A>, R>> i;
    std::vector<std::unique_ptr<P<R>>> p;
    Handles() {
        for (int k = 0; k < 6; ++k) v.emplace_back(*shared->as(k));
        for (auto& x : shared->s) s.emplace_back(x);
        for (auto& x : shared->i) i.emplace_back(x);
        p.emplace_back(new P<R>); p.emplace_back(new Q<R>); p.emplace_back(new Q2<R>);
    }
};

template<class R> void operation(Log& l, Rng& g, Handles<R>& H, bool t1) {
    auto bad = [&](const om::bad_call& e, int kind) {
        ++l.errors;
        l.add(u64(kind)); l.add(e.arity);
        l.add(e.method == R::rtti::template static_type<poke<R>>() ? 1 : e.method == R::rtti::template static_type<meet<R>>() ? 2 : e.method == R::rtti::template static_type<ip<R>>() ? 3 : e.method == R::rtti::template static_type<em2<R>>() ? 4 : e.method == R::rtti::template static_type<tri<R>>() ? 5 : e.method == R::rtti::template static_type<quad<R>>() ? 6 : e.method == R::rtti::template static_type<mv<R>>() ? 7 : e.method == R::rtti::template static_type<cov<R>>() ? 8 : 9);
        for (std::size_t i = 0; i < e.arity; ++i) l.add(u64(class_index<R>(e.types[i]) + 5));
        try { throw; } catch (const std::runtime_error& d) { l.add(hash_str(d.what())); } catch (...) { l.add(1); }
        std::ostringstream os;
        if (kind == 50) static_cast<const om::no_overrider&>(e).template write<R>(os); else static_cast<const om::ambiguous_call&>(e).template write<R>(os);
        l.add(hash_str(os.str().c_str()));
    };
    int op = rnd(g, 19);
    ++l.ops;
    l.add(u64(op));
    l.pause();
    try {
        switch (op) {
        case 0: case 1: l.add(u64(poke<R>::fn(*shared->as(rnd(g, 6)), l))); break;
        case 2: { int i = rnd(g, 6), j = rnd(g, 4); l.add(u64(meet<R>::fn(*shared->as(i), l, *shared->ms(j)))); break; }
        case 3: {
            om::virtual_ptr<A, R> p(*shared->as(rnd(g, 6))), q(p), r;
            r = q;
            l.add(r.get() == p.get());
            l.add(u64(vp<R>::fn(r, l)));
            om::virtual_ptr<D, R> d(shared->f), d2(H.v[2].template cast<D>());
            om::virtual_ptr<A, R> up(d);
            l.add(up.get() == &shared->f && d2.get() == &shared->d);
            l.add(u64(vp<R>::fn(up, l)));
            l.add(u64(vp<R>::fn(d2, l)));
            break;
        }
        case 4: {
            om::virtual_ptr<std::shared_ptr<A>, R> p(shared->s[rnd(g, 4)]), q(p), r(std::move(q));
            l.add(!q.get() && r.get() == p.get());
            l.add(u64(sp<R>::fn(r, l)));
            auto e = om::make_shared_virtual<E, R>();
            p = e;
            l.add(u64(sp<R>::fn(std::move(p), l)));
            break;
        }
        case 5: {
            om::virtual_ptr<std::unique_ptr<A>, R> p;
            if (chance(g, 50)) p = om::make_unique_virtual<F, R>(); else p = std::unique_ptr<A>(new B);
            l.add(u64(up<R>::fn(std::move(p), l)));
            break;
        }
        case 6: {
            om::virtual_ptr<boost::intrusive_ptr<A>, R> p(shared->i[rnd(g, 3)]), q(p);
            l.add(u64(ip<R>::fn(q, l)));
            break;
        }
        case 7: {
            Q2<R> o; Q<R> copy(o); P<R> slice(copy);
            l.add(u64(em<R>::fn(o, l))); l.add(u64(em<R>::fn(copy, l))); l.add(u64(em<R>::fn(slice, l)));
            P<R>& ref = o; ref = copy;
            l.add(u64(em<R>::fn(ref, l)));
            om::virtual_ptr<P<R>, R> vp1(ref), vp2(slice);
            l.add(u64(em2<R>::fn(rnd(g, 2) ? vp1 : vp2, rnd(g, 2) ? ref : slice, l)));
            break;
        }
        case 8: l.add(u64(vp<R>::fn(H.v[u64(rnd(g, 6))], l))); break;
        case 9: { auto copy = H.s[u64(rnd(g, 4))]; l.add(u64(sp<R>::fn(copy, l))); break; }
        case 10: { auto& p = *H.p[u64(rnd(g, 3))]; l.add(u64(em<R>::fn(p, l))); l.add(u64(ip<R>::fn(H.i[u64(rnd(g, 3))], l))); break; }
        case 11: if (R::has_runtime_checks) {
            if (rnd(g, 2)) l.add(u64(poke<R>::fn(shared->n, l)));
            else { A& a = shared->b; auto p = om::final_virtual_ptr<R>(a); l.add(u64(p.get() == &a)); }
        } break;
        case 13: case 14: { int i = rnd(g, 6), j = rnd(g, 6), k = rnd(g, 4); l.add(u64(tri<R>::fn(*shared->as(i), l, H.v[u64(j)], *shared->ms(k)))); break; }
        case 15: {
            om::virtual_ptr<std::shared_ptr<A>, R> p(shared->s[rnd(g, 4)]);
            int i = rnd(g, 6), j = rnd(g, 4), k = rnd(g, 3);
            l.add(u64(quad<R>::fn(shared->as(i), rnd(g, 2) ? p : H.s[u64(j)], shared->s[j], l, shared->i[k])));
            break;
        }
        case 16: {
            om::virtual_ptr<std::shared_ptr<A>, R> p(H.s[u64(rnd(g, 4))]);
            int i = rnd(g, 3);
            long before = p.pointer().use_count() > 0;
            l.add(u64(before));
            switch (i) {
            case 0: l.add(u64(mv<R>::fn(A(), std::move(p), l))); break;
            case 1: l.add(u64(mv<R>::fn(B(), std::move(p), l))); break;
            default: l.add(u64(mv<R>::fn(E(), std::move(p), l)));
            }
            l.add(!p.get());
            break;
        }
        case 17: { int i = rnd(g, 6), j = rnd(g, 4); auto* r = cov<R>::fn(*shared->as(i), *shared->ms(j), l); l.add(u64(r->cls())); break; }
        case 18: {
            int seen = 1;
            { PSD<R> o(&seen); l.add(u64(ems<R>::fn(o))); Q<R>& q = o; l.add(u64(em<R>::fn(q, l))); PSD<R> c(o); l.add(u64(ems<R>::fn(c))); c.seen = nullptr; }
            l.add(u64(seen));
            break;
        }
        case 12: if (t1) l.add(u64(poke<R>::fn(shared->t, l))); else l.add(u64(poke_E<R>(shared->e, l))); break;
        }
    }
    catch (Thrown& t) { l.add(u64(t.x + 1000)); }
    catch (om::no_overrider& e) { bad(e, 50); }
    catch (om::ambiguous_call& e) { bad(e, 51); }
    catch (om::missing_class& e) { ++l.errors; l.add(52); l.add(u64(class_index<R>(e.type) + 5)); }
    catch (om::final_error& e) { ++l.errors; l.add(53); l.add(u64(class_index<R>(e.static_type) + 5)); l.add(u64(class_index<R>(e.dynamic_type) + 5)); }
    catch (om::openmethod_error& e) { ++l.errors; l.add(54); }
}

template<class R> void set_handler() {
#if VARIANT == 0 || VARIANT == 2 || VARIANT == 5
    R::error_handler::set([](const typename R::error_handler::error_variant& v) {
        if (v.index() == 1 && std::get<1>(v).types[0] == R::rtti::template static_type<X>()) R::error_handler::default_handler(v); // writes to stderr
        std::visit([](auto& e) { if constexpr (std::is_base_of_v<om::openmethod_error, std::decay_t<decltype(e)>>) throw e; }, v);
    });
#endif
}

// One thread's work on a registry that others only use.
template<class R> void user(Log& l, u64 seed, int n, Handles<R>& H) {
    Rng g(seed);
    for (int i = 0; i < n; ++i) operation<R>(l, g, H, false);
}
// One thread's work on a registry of its own.
template<class R> void owner(Log& l, u64 seed, int cycles, int n) {
    Rng g(seed);
    set_handler<R>();
    for (int k = 0; k < cycles; ++k) {
        std::optional<Registrations<R>> r;
        r.emplace();
        std::optional<More<R>> more;
        if (rnd(g, 2)) more.emplace();
        auto rep = [&](const auto& x) { l.add(x.cells); l.add(x.not_implemented); l.add(x.ambiguous); };
        l.pause();
        rep(om::initialize<R>().report);
        {
            Handles<R> H;
            for (int i = 0; i < n; ++i) operation<R>(l, g, H, bool(more));
        }
        if (rnd(g, 2)) {
            if (more) more.reset(); else more.emplace();
            if (rnd(g, 3) == 0) rep(om::initialize<R>(om::n2216()).report); else rep(om::initialize<R>().report);
            Handles<R> H;
            for (int i = 0; i < n; ++i) operation<R>(l, g, H, bool(more));
        }
        if (R::has_runtime_checks && rnd(g, 3) == 0) { // a failure
            r.reset();
            try { om::initialize<R>(); l.add(0); } catch (om::missing_class& e) { l.add(u64(class_index<R>(e.type) + 5)); ++l.errors; } catch (om::openmethod_error&) { l.add(3); }
        }
        l.pause();
        om::finalize<R>();
        if (R::has_runtime_checks) try { Handles<R> H; l.add(9); } catch (om::not_initialized&) { l.add(10); ++l.errors; }
    }
}

static std::optional<Registrations<Reg<0>>> regs0;
static std::optional<Registrations<Reg<1>>> regs1;

static void one_case(Rng& g, const Args& a) {
    const int T = 8, n = a.mode == "long" ? 400 : 120;
    shared = new Shared;
    u64 seeds[T];
    for (auto& s : seeds) s = g();
    const int users0 = rnd(g, 3) == 0 ? 8 : 2 + rnd(g, 3), users1 = users0 == 8 ? 0 : rnd(g, 3);
    set_handler<Reg<0>>(); set_handler<Reg<1>>();
    auto init0 = [&] { om::initialize<Reg<0>>(); };
    auto init1 = [&] { om::initialize<Reg<1>>(); };
    switch (rnd(g, 3)) {
    case 0: init0(); init1(); break;
    case 1: { std::thread t([&] { init0(); init1(); }); t.join(); break; }
    case 2: { std::thread t(init0), u(init1); t.join(); u.join(); break; } // two initializations at once
    }
    {
        Handles<Reg<0>> H0; Handles<Reg<1>> H1;
        auto work = [&](int t, Log& l) {
            int own = t - users0 - users1;
            if (t < users0) user<Reg<0>>(l, seeds[t], n, H0);
            else if (t < users0 + users1) user<Reg<1>>(l, seeds[t], n, H1);
            else switch (own) {
                case 0: owner<Reg<2>>(l, seeds[t], 3, n / 6); break;
                case 1: owner<Reg<3>>(l, seeds[t], 3, n / 6); break;
                case 2: owner<Reg<4>>(l, seeds[t], 3, n / 6); break;
                default: owner<Reg<5>>(l, seeds[t], 3, n / 6); break;
            }
        };
        int total = users0 + users1 + (users0 == 8 ? 0 : 4);
        if (total > T) total = T;
        std::vector<Log> L(T);
        std::atomic<int> ready{0};
        std::vector<std::thread> th;
        for (int t = 0; t < total; ++t) th.emplace_back([&, t] {
            L[u64(t)].pause_g.seed(seeds[t] + 1);
            ready.fetch_add(1, std::memory_order_relaxed);
            while (ready.load(std::memory_order_relaxed) < total) std::this_thread::yield();
            work(t, L[u64(t)]);
        });
        for (auto& t : th) t.join();
        std::vector<std::pair<u64, int>> order;
        for (int t = 0; t < total; ++t) for (auto k : L[u64(t)].ticks) order.push_back({k, t});
        std::sort(order.begin(), order.end());
        u64 h = 0, switches = 0;
        for (std::size_t i = 1; i < order.size(); ++i) {
            switches += order[i].second != order[i - 1].second;
            if (i < 2000) h = mix(h, u64(order[i].second));
        }
        count("switches", switches);
        distinct(h);
        for (int t = 0; t < total; ++t) {
            Log alone;
            alone.concurrent = false;
            work(t, alone);
            count("operations", alone.ops); count("errors", alone.errors); count("nexts", alone.nexts);
            count("threads");
            if (alone.h != L[u64(t)].h || alone.ops != L[u64(t)].ops) violation("concurrent", "thread %d of %d (%s) behaved differently among others than alone: %llu/%llu operations, %llu/%llu errors", t, total, t < users0 + users1 ? "user" : "owner of a registry", (unsigned long long)L[u64(t)].ops, (unsigned long long)alone.ops, (unsigned long long)L[u64(t)].errors, (unsigned long long)alone.errors);
        }
        sample("users " + std::to_string(users0) + "+" + std::to_string(users1) + ", owners " + std::to_string(total - users0 - users1) + ", " + std::to_string(switches) + " switches observed between steps of different threads");
    }
    delete shared;
}

int main(int argc, char** argv) {
    regs0.emplace();
    regs1.emplace();
    return run_cases(argc, argv, one_case);
}
