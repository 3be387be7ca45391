// The work done by a call, in executed instructions, for programs of
// different sizes.  Instructions are counted by single-stepping.
#ifndef VARIANT
#define VARIANT 0
#endif
#include <boost/config.hpp>
#include <variant>
#include <boost/openmethod.hpp>
#include <boost/openmethod/initialize.hpp>
#include <boost/openmethod/interop/std_shared_ptr.hpp>
#include <boost/openmethod/interop/std_unique_ptr.hpp>
#include <boost/openmethod/policies/vptr_map.hpp>
#include <boost/openmethod/policies/fast_perfect_hash.hpp>
#include <boost/openmethod/policies/vptr_vector.hpp>
#include <boost/openmethod/policies/throw_error_handler.hpp>
#include <boost/openmethod/policies/stderr_output.hpp>
#include <csignal>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <functional>
#include <map>
#include <memory>
#include <string>
#include <ucontext.h>
#include <utility>
#include <vector>
#include "rng.hpp"

namespace om = boost::openmethod;
namespace pol = om::policies;
using om::virtual_; using om::virtual_ptr;

#if VARIANT == 0
struct Reg : om::registry<pol::std_rtti, pol::vptr_vector, pol::fast_perfect_hash, pol::throw_error_handler, pol::stderr_output> {};
#elif VARIANT == 1
struct Reg : om::registry<pol::std_rtti, pol::vptr_vector, pol::fast_perfect_hash, pol::runtime_checks, pol::throw_error_handler, pol::stderr_output> {};
#elif VARIANT == 2
struct Reg : om::registry<pol::std_rtti, pol::vptr_vector, pol::fast_perfect_hash, pol::indirect_vptr, pol::throw_error_handler, pol::stderr_output> {};
#elif VARIANT == 3
struct Reg : om::registry<pol::std_rtti, pol::vptr_map<>, pol::runtime_checks, pol::throw_error_handler, pol::stderr_output> {};
#elif VARIANT == 4
// type ids are small numbers: no hashing
struct small_rtti : pol::rtti {
    template<class Registry> struct fn : pol::rtti::defaults {
        template<class T> static constexpr bool is_polymorphic = std::is_polymorphic_v<T>;
        template<class T> static om::type_id static_type() { if constexpr (requires_id<T>::value) return reinterpret_cast<om::type_id>(std::size_t(T::id)); else return nullptr; }
        template<class T> static om::type_id dynamic_type(const T& o) { if constexpr (requires_id<T>::value) return reinterpret_cast<om::type_id>(std::size_t(o.which())); else return nullptr; }
        template<typename D, typename B> static D dynamic_cast_ref(B&& o) { return dynamic_cast<D>(o); }
        template<class T, class = void> struct requires_id : std::false_type {};
        template<class T> struct requires_id<T, std::void_t<decltype(T::id)>> : std::true_type {};
    };
};
struct Reg : om::registry<small_rtti, pol::vptr_vector, pol::throw_error_handler, pol::stderr_output> {};
#else
struct Reg : om::registry<pol::std_rtti, pol::vptr_map<>, pol::indirect_vptr, pol::throw_error_handler, pol::stderr_output> {};
#endif

// ---------------------------------------------------------------- the program, of NCLS classes
#ifndef NCLS
#define NCLS 6
#endif
constexpr int parent(int i) { return (i - 1) / (NCLS > 60 ? 3 : 2); }
template<int I> struct C : C<parent(I)> { static constexpr int id = I + 1; int which() const override { return id; } };
template<> struct C<0> { virtual ~C() {} virtual int which() const { return id; } static constexpr int id = 1; };
template<int I> struct RegC { static inline om::use_classes<C<I>, C<parent(I)>, Reg> r; };
template<> struct RegC<0> { static inline om::use_classes<C<0>, Reg> r; };

template<int> struct Tag;
template<int K> using One = om::method<Tag<K>, int(virtual_<C<0>&>, int), Reg>;
using Uni = om::method<Tag<1000>, int(virtual_<C<0>&>, int), Reg>;
using UniPtr = om::method<Tag<1001>, int(virtual_ptr<C<0>, Reg>, int), Reg>;
using Two = om::method<Tag<1002>, int(virtual_<C<0>&>, int, virtual_<const C<0>&>), Reg>;
using Three = om::method<Tag<1003>, int(virtual_<C<0>&>, virtual_<C<0>*>, virtual_ptr<C<0>, Reg>), Reg>;
using Shared = om::method<Tag<1004>, int(const om::shared_virtual_ptr<C<0>, Reg>&), Reg>;
using Chain = om::method<Tag<1005>, int(virtual_<C<0>&>, int), Reg>;

template<class M, int K> int chain_fn(C<K>& o, int i);
template<int K> int uni_fn(C<K>&, int i) { return i + K; }
template<int K> int uniptr_fn(virtual_ptr<C<K>, Reg>, int i) { return i + K; }
template<int K> int two_fn(C<K>&, int i, const C<K>&) { return i + K; }
template<int A, int B> int two_mixed_fn(C<A>&, int i, const C<B>&) { return i + A; }
template<int A, int B, int D> int three_fn(C<A>&, C<B>*, virtual_ptr<C<D>, Reg>) { return A; }
template<int K> int shared_fn(const om::shared_virtual_ptr<C<K>, Reg>&) { return K; }
template<int K> struct ChainO {
    static int fn(C<K>& o, int i) { // one step, and whether there is another
        if (i <= 0) return K;
        if (!Chain::has_next<&ChainO::fn>()) return -1;
        return Chain::next<&ChainO::fn>(o, i - 1);
    }
};
template<int I> struct Ov {
    static inline Uni::override<&uni_fn<I>> a;
    static inline UniPtr::override<&uniptr_fn<I>> b;
    static inline Two::override<&two_fn<I>> c;
    static inline Shared::override<&shared_fn<I>> d;
    static inline Chain::override<&ChainO<I>::fn> e;
};
template<int I> struct Few { // a dispatch table of three dimensions grows fast
    static inline Three::override<&three_fn<I, 0, 0>> a;
    static inline Three::override<&three_fn<0, I, 0>> b;
    static inline Three::override<&three_fn<0, 0, I>> c;
    static inline Two::override<&two_mixed_fn<I, 0>> d;
};
template<int K> struct Other {
    static inline typename One<K>::template override<&uni_fn<K>> a;
};

static std::vector<std::function<std::shared_ptr<C<0>>()>> makers;
template<int... I> static const void* keep(std::integer_sequence<int, I...>) {
    static const void* p[] = {&RegC<I>::r..., &Ov<I>::a..., &Ov<I>::b..., &Ov<I>::c..., &Ov<I>::d..., &Ov<I>::e..., &Other<I>::a...};
    makers = {[] { return std::shared_ptr<C<0>>(std::make_shared<C<I>>()); }...};
    return p;
}
template<int... I> static const void* keep_few(std::integer_sequence<int, I...>) {
    static const void* p[] = {&Few<I>::a..., &Few<I>::b..., &Few<I>::c..., &Few<I>::d...};
    return p;
}

// ---------------------------------------------------------------- counting
static volatile long steps;
static volatile bool counting;
static void on_trap(int, siginfo_t*, void* u) {
    if (counting) { ++steps; return; }
    static_cast<ucontext_t*>(u)->uc_mcontext.gregs[REG_EFL] &= ~0x100ll;
}
__attribute__((noinline)) static void trap_on() { counting = true; asm volatile("pushfq; orq $0x100,(%%rsp); popfq" ::: "cc", "memory"); }
__attribute__((noinline)) static void trap_off() { counting = false; asm volatile("pushfq; andq $~0x100,(%%rsp); popfq" ::: "cc", "memory"); }
template<class F> __attribute__((noinline)) static long count_of(F f) {
    f(); // lazy binding, caches of allocators
    steps = 0;
    trap_on();
    f();
    trap_off();
    return steps;
}

static volatile int sink;
int main(int argc, char** argv) {
    unsigned long long seed = 1; int cases = 100;
    for (int i = 1; i + 1 < argc; i += 2) {
        if (!strcmp(argv[i], "--seed") || !strcmp(argv[i], "--case")) seed = strtoull(argv[i + 1], nullptr, 10);
        else if (!strcmp(argv[i], "--cases")) cases = atoi(argv[i + 1]);
    }
    keep(std::make_integer_sequence<int, NCLS>());
    keep_few(std::make_integer_sequence<int, (NCLS > 6 ? NCLS / 16 + 2 : 2)>());
    struct sigaction sa{};
    sa.sa_sigaction = on_trap;
    sa.sa_flags = SA_SIGINFO | SA_NODEFER;
    sigaction(SIGTRAP, &sa, nullptr);
    Rng g(seed);
    struct S { long n = 0, sum = 0, max = 0, min = 1 << 30; };
    std::map<std::string, S> all;
    om::initialize<Reg>(om::n2216());
    std::vector<std::shared_ptr<C<0>>> objs;
    for (auto& m : makers) objs.push_back(m());
    auto obj = [&]() -> std::shared_ptr<C<0>>& { return objs[rnd(g, int(objs.size()))]; };
    for (int k = 0; k < cases; ++k) {
        // the history does not matter either
        if (k == cases / 2) { if (seed % 2) om::finalize<Reg>(); for (int i = 0; i < 5; ++i) om::initialize<Reg>(om::n2216()); }
        auto &a = obj(), &b = obj(), &c = obj();
        C<0>&ra = *a, &rb = *b, &rc = *c;
        auto note = [&](const char* what, long n) { auto& s = all[what]; ++s.n; s.sum += n; s.max = std::max(s.max, n); s.min = std::min(s.min, n); };
        note("call by reference", count_of([&] { sink = Uni::fn(ra, 1); }));
        virtual_ptr<C<0>, Reg> va(ra), vc(rc);
        note("call by virtual_ptr", count_of([&] { sink = UniPtr::fn(va, 1); }));
        note("call of two arguments", count_of([&] { sink = Two::fn(ra, 1, rb); }));
        note("call of three arguments", count_of([&] { sink = Three::fn(ra, &rb, vc); }));
        om::shared_virtual_ptr<C<0>, Reg> sa(a);
        note("call by shared_virtual_ptr", count_of([&] { sink = Shared::fn(sa); }));
        note("virtual_ptr from a reference", count_of([&] { virtual_ptr<C<0>, Reg> p(ra); asm volatile("" :: "r"(&p) : "memory"); }));
        note("shared_virtual_ptr from a shared_ptr", count_of([&] { om::shared_virtual_ptr<C<0>, Reg> p(a); asm volatile("" :: "r"(&p) : "memory"); }));
        if (a->which() > 1) note("call and next", count_of([&] { sink = Chain::fn(ra, 1); }));
    }
    for (auto& [w, s] : all) std::printf("COST\t%s\t%ld\t%ld\t%ld\t%ld\n", w.c_str(), s.n, s.sum, s.min, s.max);
    std::printf("DONE\n");
}
