// Run-time programmable openmethod programs: class lattice, registrations and
// signatures are data; everything goes through the library's public interface.
#pragma once
#include <boost/openmethod.hpp>
#include <boost/openmethod/initialize.hpp>
#include <boost/openmethod/policies/vptr_map.hpp>
#include <boost/openmethod/policies/throw_error_handler.hpp>
#include <algorithm>
#include <array>
#include <cstdio>
#include <cstring>
#include <functional>
#include <map>
#include <new>
#include <random>
#include <set>
#include <sstream>
#include <string>
#include <vector>
#include "model.hpp"

namespace om = boost::openmethod;
namespace pol = boost::openmethod::policies;
using om::type_id;
using om::virtual_;

// The registry<...> instance that policies are instantiated with.
template<class R> struct base_of { using type = R; };
template<class R> using base_of_t = typename base_of<R>::type;

// ---------------------------------------------------------------- tags
template<int S> struct CS0 {};                     // registration slot, no base
template<int S, int K> struct CB {};               // k-th base of slot S
template<int S> struct CS1 : CB<S, 0> {};
template<int S> struct CS2 : CB<S, 0>, CB<S, 1> {};
template<int S> struct CS4 : CB<S, 0>, CB<S, 1>, CB<S, 2>, CB<S, 3> {};
template<int M, int P> struct VT {};               // method virtual type
template<int M, int O, int P> struct OT {};        // overrider virtual type
template<int M> struct RT {};                      // method return class
template<int M, int O> struct RO {};               // overrider return class

struct Obj {
    type_id tid;
    int cls;
    int serial;
};

template<int M, int P> struct H { const Obj* o; };            // handle
template<int M, int O, int P> struct OH {                      // cast handle
    const Obj* o;
    operator H<M, P>() const { return {o}; }
};
struct Plain { int v; };                                       // plain result
template<int M> struct RH { int v; };                          // class result
template<int M, int O> struct ROH { int v; operator RH<M>() const { return {v}; } };

#ifdef WIDE_ENGINE
constexpr int NSLOT0 = 16, NSLOT1 = 80, NSLOT2 = 40, NSLOT4 = 24;
#else
constexpr int NSLOT0 = 10, NSLOT1 = 22, NSLOT2 = 16, NSLOT4 = 12;
#endif
constexpr int NSLOT = NSLOT0 + NSLOT1 + NSLOT2 + NSLOT4;
constexpr int slot_k(int s) {
    return s < NSLOT0 ? 0 : s < NSLOT0 + NSLOT1 ? 1 : s < NSLOT0 + NSLOT1 + NSLOT2 ? 2 : 4;
}

// Forms of method signatures.  arity, number of overriders, class return?
struct MethShape { int form, arity, novr; bool cls_ret; };
constexpr bool has_int(int form) { return form != 1 && form != 4 && form < 100; } // form 100+n: n virtual parameters, nothing else
#ifdef SMALL_ENGINE
constexpr MethShape SHAPES[] = {
    {1, 1, 3, false}, {2, 1, 5, true}, {3, 2, 3, false}, {4, 2, 5, true}, {5, 3, 4, false}};
#elif defined(WIDE_ENGINE)
constexpr MethShape SHAPES[] = {
    {1, 1, 1, false}, {1, 1, 2, false}, {2, 1, 1, false}, {1, 1, 2, true}, {1, 1, 1, false}, {1, 1, 2, false},
    {4, 2, 80, false}, {3, 2, 130, true}, {1, 1, 66, false}, {5, 3, 40, false},
    {105, 5, 6, false}, {106, 6, 9, true}, {108, 8, 8, false}, {109, 9, 5, false}, {113, 13, 4, false}, {117, 17, 6, false}};
#else
constexpr MethShape SHAPES[] = {
    {1, 1, 0, false}, {1, 1, 1, false}, {1, 1, 2, false}, {2, 1, 3, true},
    {1, 1, 3, false}, {1, 1, 4, true},  {2, 1, 6, false}, {1, 1, 9, false},
    {3, 2, 0, false}, {4, 2, 1, false}, {3, 2, 2, true},  {4, 2, 2, false},
    {3, 2, 3, false}, {4, 2, 3, true},  {4, 2, 4, false}, {3, 2, 5, true},
    {4, 2, 6, false}, {3, 2, 9, false},
    {5, 3, 2, false}, {5, 3, 3, true},  {5, 3, 4, false}, {5, 3, 7, false},
    {6, 4, 3, false}, {6, 4, 5, true}};
#endif
constexpr int NMETH = sizeof(SHAPES) / sizeof(SHAPES[0]);
static_assert(NMETH <= MAXMETH);

// ---------------------------------------------------------------- tables
struct Tables {
    type_id cs[NSLOT], cb[NSLOT][4];
    type_id vt[NMETH][MAXAR], ot[NMETH][MAXOVR][MAXAR];
    type_id rt[NMETH], ro[NMETH][MAXOVR];
    std::map<type_id, type_id> canon; // alias -> canonical
};

template<class Tag> Tables& tables() { static Tables t{}; return t; }

template<class Tag, class T> struct slot_of {
    static type_id get() { static char c; return &c; }
};
template<class Tag, int S> struct slot_of<Tag, CS0<S>> { static type_id get() { return tables<Tag>().cs[S]; } };
template<class Tag, int S> struct slot_of<Tag, CS1<S>> { static type_id get() { return tables<Tag>().cs[S]; } };
template<class Tag, int S> struct slot_of<Tag, CS2<S>> { static type_id get() { return tables<Tag>().cs[S]; } };
template<class Tag, int S> struct slot_of<Tag, CS4<S>> { static type_id get() { return tables<Tag>().cs[S]; } };
template<class Tag, int S, int K> struct slot_of<Tag, CB<S, K>> { static type_id get() { return tables<Tag>().cb[S][K]; } };
template<class Tag, int M, int P> struct slot_of<Tag, VT<M, P>> { static type_id get() { return tables<Tag>().vt[M][P]; } };
template<class Tag, int M, int O, int P> struct slot_of<Tag, OT<M, O, P>> { static type_id get() { return tables<Tag>().ot[M][O][P]; } };
template<class Tag, int M> struct slot_of<Tag, RT<M>> { static type_id get() { return tables<Tag>().rt[M]; } };
template<class Tag, int M, int O> struct slot_of<Tag, RO<M, O>> { static type_id get() { return tables<Tag>().ro[M][O]; } };

template<class Tag>
struct rt_rtti : pol::deferred_static_rtti {
    template<class Registry>
    struct fn : pol::rtti::defaults {
        template<class C> static constexpr bool is_polymorphic = true;
        template<class C> static type_id static_type() { ++asked; return slot_of<Tag, C>::get(); }
        inline static u64 asked = 0; // uses of static_type
        template<class C> static type_id dynamic_type(const C& o) {
            if constexpr (std::is_same_v<C, Obj>) return o.tid;
            else { (void)o; return nullptr; }
        }
        static type_id type_index(type_id t) {
            auto& c = tables<Tag>().canon;
            auto i = c.find(t);
            return i == c.end() ? t : i->second;
        }
        template<class D, class B> static auto dynamic_cast_ref(B&& b) -> D { return static_cast<D>(b); }
    };
};

// output policy: counts characters, keeps text
template<class Tag>
struct mem_output : pol::output {
    struct stream {
        std::string text;
        std::size_t writes = 0;
        stream& operator<<(const char* s) { ++writes; text += s; return *this; }
        stream& operator<<(const std::string_view& s) { ++writes; text += s; return *this; }
        stream& operator<<(const void* p) { ++writes; char b[32]; snprintf(b, sizeof b, "%lx", (unsigned long)p); text += b; return *this; }
        stream& operator<<(void (*p)()) { return *this << (const void*)p; }
        stream& operator<<(const std::string& s) { ++writes; text += s; return *this; }
        stream& operator<<(char c) { ++writes; text += c; return *this; }
        template<class N, class = std::enable_if_t<std::is_arithmetic_v<N>>>
        stream& operator<<(N n) { ++writes; text += std::to_string(n); return *this; }
    };
    template<class Registry> struct fn { inline static stream os; };
};

// ---------------------------------------------------------------- event log
enum ErrKind { E_NONE, E_NOT_INIT, E_NO_OVR, E_AMBIG, E_MISSING_CLASS, E_MISSING_BASE, E_ODR, E_FINAL, E_SEARCH };
struct Err {
    ErrKind kind = E_NONE;
    type_id method = nullptr, a = nullptr, b = nullptr;
    std::size_t arity = 0, attempts = 0, buckets = 0;
    type_id types[16] = {};
};
struct Thrown {};
struct Step { int m, o; bool has_next; };
struct Log {
    std::vector<Step> steps;
    Err err;
    int err_count = 0;
    bool chain = false;      // bodies call has_next() and next()
    const Obj* objs[MAXAR] = {};
    int nobj = 0, x = 0;
    const char* fault = nullptr; // monitor violation seen inside a body/cast
    int ret = 0;
    void reset() { steps.clear(); err = Err(); err_count = 0; fault = nullptr; ret = 0; }
};
template<class R> Log& thelog() { static Log l; return l; }
// is class `cls` (or a descendant of) the class whose id is `param`?
template<class R> std::function<bool(int cls, type_id param)>& conforms() {
    static std::function<bool(int, type_id)> f; return f;
}

template<class R> void record(Log& l, const om::not_initialized&) { l.err.kind = E_NOT_INIT; }
template<class R> void rec_bad(Log& l, const om::bad_call& e) {
    l.err.method = e.method; l.err.arity = e.arity;
    for (std::size_t i = 0; i < e.arity && i < 16; ++i) l.err.types[i] = e.types[i];
}
template<class R> void record(Log& l, const om::no_overrider& e) { l.err.kind = E_NO_OVR; rec_bad<R>(l, e); }
template<class R> void record(Log& l, const om::ambiguous_call& e) { l.err.kind = E_AMBIG; rec_bad<R>(l, e); }
template<class R> void record(Log& l, const om::missing_class& e) { l.err.kind = E_MISSING_CLASS; l.err.a = e.type; }
template<class R> void record(Log& l, const om::missing_base& e) { l.err.kind = E_MISSING_BASE; l.err.a = e.base; l.err.b = e.derived; }
template<class R> void record(Log& l, const om::odr_violation&) { l.err.kind = E_ODR; }
template<class R> void record(Log& l, const om::final_error& e) { l.err.kind = E_FINAL; l.err.a = e.static_type; l.err.b = e.dynamic_type; }
template<class R> void record(Log& l, const pol::fast_perfect_hash::search_error& e) { l.err.kind = E_SEARCH; l.err.attempts = e.attempts; l.err.buckets = e.buckets; }

// A user-written error handler policy that records and throws.
struct rec_error_handler : pol::error_handler {
    template<class Registry> struct fn {
        template<class E> static void error(const E& e) {
            Log& l = thelog<Registry>();
            ++l.err_count;
            record<Registry>(l, e);
            throw Thrown();
        }
    };
};

// ---------------------------------------------------------------- traits
namespace boost::openmethod {
template<int M, int P, class R> struct virtual_traits<H<M, P>, R> {
    using virtual_type = VT<M, P>;
    static const Obj& peek(const H<M, P>& h) { return *h.o; }
    template<class D> static D cast(H<M, P> h) {
        using B = base_of_t<R>;
        type_id want = R::rtti::template static_type<typename virtual_traits<D, R>::virtual_type>();
        if (conforms<B>() && !conforms<B>()(h.o->cls, want))
            thelog<B>().fault = "argument cast to a class it does not derive from";
        return D{h.o};
    }
};
template<int M, int O, int P, class R> struct virtual_traits<OH<M, O, P>, R> {
    using virtual_type = OT<M, O, P>;
};
template<int M, class R> struct virtual_traits<RH<M>, R> { using virtual_type = RT<M>; };
template<int M, int O, class R> struct virtual_traits<ROH<M, O>, R> { using virtual_type = RO<M, O>; };
} // namespace boost::openmethod

// ---------------------------------------------------------------- methods
template<int M> struct MId;
template<int M, bool C> struct ret_m { using type = Plain; };
template<int M> struct ret_m<M, true> { using type = RH<M>; };
template<int M, int O, bool C> struct ret_o { using type = Plain; };
template<int M, int O> struct ret_o<M, O, true> { using type = ROH<M, O>; };
template<int M> using RetM = typename ret_m<M, SHAPES[M].cls_ret>::type;
template<int M, int O> using RetO = typename ret_o<M, O, SHAPES[M].cls_ret>::type;

template<class R, int M, class I> struct meth_n;
template<class R, int M, int... I> struct meth_n<R, M, std::integer_sequence<int, I...>> { using type = om::method<MId<M>, RetM<M>(virtual_<H<M, I>>...), R>; };
template<class R, int M, int Form> struct meth_aux : meth_n<R, M, std::make_integer_sequence<int, Form - 100>> {};
template<class R, int M> struct meth_aux<R, M, 1> { using type = om::method<MId<M>, RetM<M>(virtual_<H<M, 0>>), R>; };
template<class R, int M> struct meth_aux<R, M, 2> { using type = om::method<MId<M>, RetM<M>(int, virtual_<H<M, 0>>), R>; };
template<class R, int M> struct meth_aux<R, M, 3> { using type = om::method<MId<M>, RetM<M>(virtual_<H<M, 0>>, int, virtual_<H<M, 1>>), R>; };
template<class R, int M> struct meth_aux<R, M, 4> { using type = om::method<MId<M>, RetM<M>(virtual_<H<M, 0>>, virtual_<H<M, 1>>), R>; };
template<class R, int M> struct meth_aux<R, M, 5> { using type = om::method<MId<M>, RetM<M>(virtual_<H<M, 0>>, virtual_<H<M, 1>>, int, virtual_<H<M, 2>>), R>; };
template<class R, int M> struct meth_aux<R, M, 6> { using type = om::method<MId<M>, RetM<M>(int, virtual_<H<M, 0>>, virtual_<H<M, 1>>, virtual_<H<M, 2>>, virtual_<H<M, 3>>), R>; };
template<class R, int M> using Meth = typename meth_aux<R, M, SHAPES[M].form>::type;

template<class R, int M, int O, class I> struct OvN;
template<class R, int M, int O, int Form> struct Ov : OvN<R, M, O, std::make_integer_sequence<int, Form - 100>> {};

template<class R, int M, int O, class F, class... A>
int ov_body(std::initializer_list<const Obj*> os, int x, bool has_x, F call_next, bool (*hn)(), bool null_next) {
    Log& l = thelog<base_of_t<R>>();
    int i = 0;
    for (auto o : os) {
        if (i >= l.nobj || o != l.objs[i]) l.fault = "overrider received a different object";
        ++i;
    }
    if (i != l.nobj) l.fault = "overrider received a different number of objects";
    if (has_x && x != l.x) l.fault = "non-virtual argument changed";
    bool h = false;
    if (l.chain) h = hn();
    l.steps.push_back({M, O, h});
    if (l.steps.size() > 64) { l.fault = "next() chain does not terminate"; throw Thrown(); }
    if (l.chain) {
        if (null_next) {
            if (h) l.fault = "has_next() is true but next is null";
            throw Thrown();
        }
        call_next();
        l.fault = "next() returned without error from the end of the chain";
    }
    l.ret = (M + 1) * 1000 + O * 7 + l.x;
    return l.ret;
}

#define OVBODY(LIST, X, HASX, CALL)                                                     \
    return RetO<M, O>{ov_body<R, M, O>(LIST, X, HASX, [&] { (void)(CALL); }, [] { return Mt::template has_next<fn>(); }, Mt::template next<fn> == nullptr)};
template<class R, int M, int O> struct Ov<R, M, O, 1> {
    using Mt = Meth<R, M>;
    static RetO<M, O> fn(OH<M, O, 0> a) { auto l = {a.o}; OVBODY(l, 0, false, Mt::template next<fn>(a)) }
};
template<class R, int M, int O> struct Ov<R, M, O, 2> {
    using Mt = Meth<R, M>;
    static RetO<M, O> fn(int x, OH<M, O, 0> a) { auto l = {a.o}; OVBODY(l, x, true, Mt::template next<fn>(x, a)) }
};
template<class R, int M, int O> struct Ov<R, M, O, 3> {
    using Mt = Meth<R, M>;
    static RetO<M, O> fn(OH<M, O, 0> a, int x, OH<M, O, 1> b) { auto l = {a.o, b.o}; OVBODY(l, x, true, Mt::template next<fn>(a, x, b)) }
};
template<class R, int M, int O> struct Ov<R, M, O, 4> {
    using Mt = Meth<R, M>;
    static RetO<M, O> fn(OH<M, O, 0> a, OH<M, O, 1> b) { auto l = {a.o, b.o}; OVBODY(l, 0, false, Mt::template next<fn>(a, b)) }
};
template<class R, int M, int O> struct Ov<R, M, O, 5> {
    using Mt = Meth<R, M>;
    static RetO<M, O> fn(OH<M, O, 0> a, OH<M, O, 1> b, int x, OH<M, O, 2> c) { auto l = {a.o, b.o, c.o}; OVBODY(l, x, true, Mt::template next<fn>(a, b, x, c)) }
};
template<class R, int M, int O> struct Ov<R, M, O, 6> {
    using Mt = Meth<R, M>;
    static RetO<M, O> fn(int x, OH<M, O, 0> a, OH<M, O, 1> b, OH<M, O, 2> c, OH<M, O, 3> d) { auto l = {a.o, b.o, c.o, d.o}; OVBODY(l, x, true, Mt::template next<fn>(x, a, b, c, d)) }
};
template<class R, int M, int O, int... I> struct OvN<R, M, O, std::integer_sequence<int, I...>> {
    using Mt = Meth<R, M>;
    static RetO<M, O> fn(OH<M, O, I>... a) { auto l = {a.o...}; OVBODY(l, 0, false, Mt::template next<fn>(a...)) }
};

template<class R, int M, int... I> int invoke_n(const Obj* const* o, std::integer_sequence<int, I...>) { return Meth<R, M>::fn(H<M, I>{o[I]}...).v; }
template<class R, int M, int O, int... I> int named_n(const Obj* const* o, std::integer_sequence<int, I...>) {
    auto f = &Ov<R, M, O, SHAPES[M].form>::fn;
    return f(OH<M, O, I>{o[I]}...).v;
}
template<class R, int M> int invoke(const Obj* const* o, int x) {
    auto& f = Meth<R, M>::fn;
    constexpr int F = SHAPES[M].form;
    if constexpr (F > 100) { (void)f; (void)x; return invoke_n<R, M>(o, std::make_integer_sequence<int, F - 100>()); }
    else if constexpr (F == 1) return f(H<M, 0>{o[0]}).v;
    else if constexpr (F == 2) return f(x, H<M, 0>{o[0]}).v;
    else if constexpr (F == 3) return f(H<M, 0>{o[0]}, x, H<M, 1>{o[1]}).v;
    else if constexpr (F == 4) return f(H<M, 0>{o[0]}, H<M, 1>{o[1]}).v;
    else if constexpr (F == 5) return f(H<M, 0>{o[0]}, H<M, 1>{o[1]}, x, H<M, 2>{o[2]}).v;
    else return f(x, H<M, 0>{o[0]}, H<M, 1>{o[1]}, H<M, 2>{o[2]}, H<M, 3>{o[3]}).v;
}

// Call an overrider by name, as override_call / fn do.
template<class R, int M, int O> int invoke_named(const Obj* const* o, int x) {
    auto f = &Ov<R, M, O, SHAPES[M].form>::fn;
    constexpr int F = SHAPES[M].form;
    if constexpr (F > 100) { (void)f; (void)x; return named_n<R, M, O>(o, std::make_integer_sequence<int, F - 100>()); }
    else if constexpr (F == 1) return f(OH<M, O, 0>{o[0]}).v;
    else if constexpr (F == 2) return f(x, OH<M, O, 0>{o[0]}).v;
    else if constexpr (F == 3) return f(OH<M, O, 0>{o[0]}, x, OH<M, O, 1>{o[1]}).v;
    else if constexpr (F == 4) return f(OH<M, O, 0>{o[0]}, OH<M, O, 1>{o[1]}).v;
    else if constexpr (F == 5) return f(OH<M, O, 0>{o[0]}, OH<M, O, 1>{o[1]}, x, OH<M, O, 2>{o[2]}).v;
    else return f(x, OH<M, O, 0>{o[0]}, OH<M, O, 1>{o[1]}, OH<M, O, 2>{o[2]}, OH<M, O, 3>{o[3]}).v;
}

// ---------------------------------------------------------------- binding
template<class R, int S> struct registrar_aux {
    template<int K, class = void> struct pick;
    template<class D> struct pick<0, D> { using type = om::use_classes<CS0<S>, R>; };
    template<class D> struct pick<1, D> { using type = om::use_classes<CS1<S>, CB<S, 0>, R>; };
    template<class D> struct pick<2, D> { using type = om::use_classes<CB<S, 0>, CS2<S>, CB<S, 1>, R>; };
    template<class D> struct pick<4, D> { using type = om::use_classes<CB<S, 0>, CB<S, 1>, CS4<S>, CB<S, 2>, CB<S, 3>, R>; };
    using type = typename pick<slot_k(S)>::type;
    alignas(16) inline static unsigned char buf[sizeof(type)];
    inline static bool live = false;
    static void create() { std::memset(buf, 0, sizeof buf); new (static_cast<void*>(buf)) type(); live = true; }
    static void destroy() { reinterpret_cast<type*>(buf)->~type(); live = false; }
    // the v-table pointer published for the class, or one of the bases it names
    static om::vptr_type published(int k) {
        switch (k) {
        case 0: return R::template static_vptr<CB<S, 0>>;
        case 1: return R::template static_vptr<CB<S, 1>>;
        case 2: return R::template static_vptr<CB<S, 2>>;
        case 3: return R::template static_vptr<CB<S, 3>>;
        }
        if constexpr (slot_k(S) == 0) return R::template static_vptr<CS0<S>>;
        else if constexpr (slot_k(S) == 1) return R::template static_vptr<CS1<S>>;
        else if constexpr (slot_k(S) == 2) return R::template static_vptr<CS2<S>>;
        else return R::template static_vptr<CS4<S>>;
    }
};

template<class R> struct Engine {
    using Base = base_of_t<R>;
    struct SlotFns { void (*create)(); void (*destroy)(); bool* live; om::vptr_type (*published)(int); };
    template<int... S> static std::vector<SlotFns> make_slots(std::integer_sequence<int, S...>) {
        return {SlotFns{&registrar_aux<R, S>::create, &registrar_aux<R, S>::destroy, &registrar_aux<R, S>::live, &registrar_aux<R, S>::published}...};
    }
    template<int... M> static std::vector<int (*)(const Obj* const*, int)> make_invokers(std::integer_sequence<int, M...>) {
        return {&invoke<R, M>...};
    }
    using NamedFn = int (*)(const Obj* const*, int);
    template<int M, int... O> static std::vector<NamedFn> named_of(std::integer_sequence<int, O...>) {
        return {&invoke_named<R, M, O>...};
    }
    template<int... M> static std::vector<std::vector<NamedFn>> make_named(std::integer_sequence<int, M...>) {
        return {named_of<M>(std::make_integer_sequence<int, SHAPES[M].novr>())...};
    }
    static auto& named() { static auto v = make_named(std::make_integer_sequence<int, NMETH>()); return v; }
    template<int M, int... O> static void reg_ovr(std::integer_sequence<int, O...>) {
        (void)std::initializer_list<int>{(reg_one<M, O>(), 0)..., 0};
    }
    template<int M, int O> static void reg_one() {
        static typename Meth<R, M>::template override<&Ov<R, M, O, SHAPES[M].form>::fn> registrar;
        (void)registrar;
    }
    template<int... M> static void reg_all(std::integer_sequence<int, M...>) {
        (void)std::initializer_list<int>{(reg_ovr<M>(std::make_integer_sequence<int, SHAPES[M].novr>()), 0)...};
    }
    static std::vector<SlotFns>& slots() { static auto v = make_slots(std::make_integer_sequence<int, NSLOT>()); return v; }
    static auto& invokers() { static auto v = make_invokers(std::make_integer_sequence<int, NMETH>()); return v; }
    static void setup() { // every overrider, in this program
        reg_all(std::make_integer_sequence<int, NMETH>()); }
    template<int... M> static std::vector<type_id> method_ids(std::integer_sequence<int, M...>) {
        return {R::rtti::template static_type<Meth<R, M>>()...};
    }
    static auto& mids() { static auto v = method_ids(std::make_integer_sequence<int, NMETH>()); return v; }
};
