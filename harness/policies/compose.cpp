// C29: registries use exactly the policies they are composed of.
//  - random sequences of with<> and without<> (drawn at compile time from SEED)
//    against a table of categories;
//  - every combination of optional policies: good uses are silent and right, a
//    bad use does what the policies present (or their absence) make of it.
// PART (0-3) picks runtime_checks and indirect_vptr.
#include "../util.hpp"
#include <boost/openmethod/preamble.hpp>
#include <boost/openmethod/policies/std_rtti.hpp>
#include <boost/openmethod/policies/static_rtti.hpp>
#include <boost/openmethod/policies/vptr_vector.hpp>
#include <boost/openmethod/policies/vptr_map.hpp>
#include <boost/openmethod/policies/stderr_output.hpp>
#include <boost/openmethod/policies/fast_perfect_hash.hpp>
#include <boost/openmethod/policies/default_error_handler.hpp>
#include <boost/openmethod/policies/throw_error_handler.hpp>
#include <boost/openmethod/core.hpp>
#include <boost/openmethod/interop/std_shared_ptr.hpp>
#include <boost/openmethod/initialize.hpp>
#include <boost/mp11.hpp>
#include <map>
namespace om = boost::openmethod;
namespace po = boost::openmethod::policies;
namespace mp11 = boost::mp11;
#ifndef PART
#define PART 0
#endif
#ifndef SEED
#define SEED 1
#endif

// ---- user-written policies
struct Line { // unbuffered, on stderr
    friend Line& operator<<(Line& o, const char* p) { return o << std::string_view(p); }
    friend Line& operator<<(Line& o, const std::string_view& v) { if (write(2, v.data(), v.size()) < 0) {} return o; }
    friend Line& operator<<(Line& o, const void* p) { char b[32]; snprintf(b, 32, "%p", p); return o << b; }
    friend Line& operator<<(Line& o, std::size_t n) { return o << std::string_view(std::to_string(n)); }
};
struct mem_output : po::output { template<class R> struct fn { static inline Line os; }; };
struct rec_handler : po::error_handler {
    static const char* name(const om::not_initialized&) { return "not_initialized"; }
    static const char* name(const om::no_overrider&) { return "no_overrider"; }
    static const char* name(const om::ambiguous_call&) { return "ambiguous_call"; }
    static const char* name(const om::missing_class&) { return "missing_class"; }
    static const char* name(const om::final_error&) { return "final_error"; }
    static const char* name(const om::openmethod_error&) { return "other"; }
    template<class R> struct fn { template<class E> static void error(const E& e) { std::string s = std::string("[") + name(e) + "]"; if (write(1, s.data(), s.size()) < 0) {} } };
};
struct user_rtti : po::std_rtti { template<class R> struct fn : po::std_rtti::fn<R> {}; };
struct late_rtti : po::deferred_static_rtti { template<class R> struct fn : po::std_rtti::fn<R> {}; };
struct user_hash : po::type_hash { template<class R> struct fn : po::fast_perfect_hash::fn<R> {}; };
struct user_vptr : po::vptr { template<class R> struct fn : po::vptr_map<>::fn<R> {}; };
struct extra { using category = extra; };
struct extra1 : extra { template<class R> struct fn {}; };
struct extra2 : extra { template<class R> struct fn {}; };

// ---- composition
template<class P, int C> struct Item { using policy = P; static constexpr int cat = C; };
using StdMap = po::vptr_map<mp11::mp_quote<std::map>>;
using Pool = mp11::mp_list<Item<po::std_rtti, 0>, Item<user_rtti, 0>, Item<late_rtti, 0>, Item<po::static_rtti, 0>,
    Item<po::vptr_vector, 1>, Item<po::vptr_map<>, 1>, Item<StdMap, 1>, Item<user_vptr, 1>,
    Item<po::fast_perfect_hash, 2>, Item<user_hash, 2>,
    Item<po::default_error_handler, 3>, Item<po::throw_error_handler, 3>, Item<rec_handler, 3>,
    Item<po::stderr_output, 4>, Item<mem_output, 4>, Item<po::indirect_vptr, 5>, Item<po::runtime_checks, 6>, Item<extra1, 7>, Item<extra2, 7>>;
constexpr int NPOOL = int(mp11::mp_size<Pool>::value), NCAT = 8;
using Cats = mp11::mp_list<po::rtti, po::vptr, po::type_hash, po::error_handler, po::output, po::indirect_vptr, po::runtime_checks, extra>;
struct Table { int at[NCAT]; };
template<int C> using CatC = mp11::mp_at_c<Cats, C>;
template<int I> using ItemI = mp11::mp_at_c<Pool, I>;

template<class R, int C, int... I> int chosen(std::integer_sequence<int, I...>) { // -1 none, -2 something else
    using got = typename R::template policy<CatC<C>>;
    int r = std::is_void_v<got> ? -1 : -2;
    ((std::is_same_v<got, typename ItemI<I>::policy::template fn<typename R::registry_type>> ? void(r = I) : void()), ...);
    return r;
}
template<class R, int... C> void check(const Table& t, const std::string& how, std::integer_sequence<int, C...>) {
    constexpr auto all = std::make_integer_sequence<int, NPOOL>();
    int got[] = {chosen<R, C>(all)...};
    int n = 0;
    for (int c = 0; c < NCAT; ++c) {
        count("policies_compared");
        n += t.at[c] >= 0;
        if (got[c] != t.at[c]) violation("compose", "category %d: policy %d expected, %d found, after%s", c, t.at[c], got[c], how.c_str());
    }
    int size = int(mp11::mp_size<typename R::policy_list>::value);
    if (size != n) violation("compose", "%d policies in the registry, %d expected, after%s", size, n, how.c_str());
    bool flags[] = {R::has_vptr, R::has_error_handler, R::has_output, R::has_indirect_vptr, R::has_runtime_checks};
    int fc[] = {1, 3, 4, 5, 6};
    for (int i = 0; i < 5; ++i) if (flags[i] != (t.at[fc[i]] >= 0)) violation("compose", "the flag for category %d is wrong, after%s", fc[i], how.c_str());
    if (R::has_deferred_static_rtti != (t.at[0] == 2)) violation("compose", "has_deferred_static_rtti is wrong, after%s", how.c_str());
    u64 h = 0;
    for (int c : t.at) h = mix(h, u64(c + 1));
    distinct(h);
}
constexpr u64 nextr(u64 s) { s ^= s << 13; s ^= s >> 7; s ^= s << 17; return s; }
template<class R, u64 S, int Left> void walk(Table t, std::string how) {
    constexpr auto cats = std::make_integer_sequence<int, NCAT>();
    check<R>(t, how, cats);
    if constexpr (Left > 0) {
        constexpr u64 s = nextr(S), s2 = nextr(s);
        constexpr int i = int((s >> 20) % NPOOL), j = int((s >> 40) % NPOOL), op = int((s2 >> 30) % 8);
        using A = ItemI<i>; using B = ItemI<j>;
        count("compositions");
        if constexpr (op < 4) {
            t.at[A::cat] = i;
            walk<typename R::template with<typename A::policy>, s2, Left - 1>(t, how + " with<" + std::to_string(i) + ">");
        } else if constexpr (op < 5) {
            t.at[A::cat] = i; t.at[B::cat] = j;
            walk<typename R::template with<typename A::policy, typename B::policy>, s2, Left - 1>(t, how + " with<" + std::to_string(i) + "," + std::to_string(j) + ">");
        } else if constexpr (op < 7) {
            t.at[A::cat] = -1;
            walk<typename R::template without<CatC<A::cat>>, s2, Left - 1>(t, how + " without<" + std::to_string(A::cat) + ">");
        } else {
            t.at[A::cat] = -1; t.at[B::cat] = -1;
            walk<typename R::template without<CatC<A::cat>, CatC<B::cat>>, s2, Left - 1>(t, how + " without<" + std::to_string(A::cat) + "," + std::to_string(B::cat) + ">");
        }
    }
}
template<int... W> void walks(std::integer_sequence<int, W...>) {
    (walk<om::registry<>, nextr(0x9e3779b97f4a7c15ull * (SEED * 4 + PART) + W * 7919 + 1), 10>(Table{{-1, -1, -1, -1, -1, -1, -1, -1}}, std::string(" registry<>")), ...);
    (walk<om::default_registry::registry_type, nextr(0x2545f4914f6cdd1dull * (SEED * 4 + PART) + W * 104729 + 1), 6>(Table{{0, 4, 8, 10, 13, -1, -1, -1}}, std::string(" default_registry")), ...);
    (walk<om::indirect_registry::registry_type, nextr(0x2545f4914f6cdd1dull * (SEED * 4 + PART) + W * 15485863 + 1), 3>(Table{{0, 4, 8, 10, 13, 15, -1, -1}}, std::string(" indirect_registry")), ...);
}

// ---- behaviour
constexpr bool CHECKS = PART & 1, INDIRECT = PART & 2;
template<class R, bool C> struct checks_if { using type = R; };
template<class R> struct checks_if<R, true> { using type = typename R::template with<po::runtime_checks>; };
template<class R, bool C> struct indirect_if { using type = R; };
template<class R> struct indirect_if<R, true> { using type = typename R::template with<po::indirect_vptr>; };
template<class R, int V> struct with_vptr;
template<class R> struct with_vptr<R, 0> { using type = R; };
template<class R> struct with_vptr<R, 1> { using type = typename R::template with<po::vptr_vector, po::fast_perfect_hash>; };
template<class R> struct with_vptr<R, 2> { using type = typename R::template with<po::vptr_map<>>; };
template<class R, int E> struct with_eh;
template<class R> struct with_eh<R, 0> { using type = R; };
template<class R> struct with_eh<R, 1> { using type = typename R::template with<po::default_error_handler>; };
template<class R> struct with_eh<R, 2> { using type = typename R::template with<po::throw_error_handler>; };
template<class R> struct with_eh<R, 3> { using type = typename R::template with<rec_handler>; };
template<class R, int O> struct with_out;
template<class R> struct with_out<R, 0> { using type = R; };
template<class R> struct with_out<R, 1> { using type = typename R::template with<mem_output>; };
template<class R> struct with_out<R, 2> { using type = typename R::template with<po::stderr_output>; };
template<int V, int E, int O> using base_t = typename checks_if<typename indirect_if<typename with_vptr<typename with_eh<typename with_out<
    om::registry<po::std_rtti>, O>::type, E>::type, V>::type, INDIRECT>::type, CHECKS>::type;
template<int V, int E, int O> struct Reg : base_t<V, E, O> {};

struct Animal { virtual ~Animal() {} };
struct Dog : Animal {}; struct Cat : Animal {}; struct Puppy : Dog {}; struct Stray : Dog {}; // Stray is never registered
struct speak_; struct meet_; struct poke_;
template<class R> using speak = om::method<speak_, int(om::virtual_ptr<Animal, R>, int), R>;
template<class R> using meet = om::method<meet_, int(om::virtual_ptr<Animal, R>, om::virtual_ptr<Animal, R>), R>;
template<class R> using poke = om::method<poke_, int(om::virtual_<Animal&>), R>;
template<class R> int speak_dog(om::virtual_ptr<Dog, R>, int n) { return 10 + n; }
template<class R> int speak_puppy(om::virtual_ptr<Puppy, R> p, int n) { return 1000 + speak<R>::template next<speak_puppy<R>>(p, n); }
template<class R> int meet_da(om::virtual_ptr<Dog, R>, om::virtual_ptr<Animal, R>) { return 1; }
template<class R> int meet_ad(om::virtual_ptr<Animal, R>, om::virtual_ptr<Dog, R>) { return 2; }
template<class R> int poke_cat(Cat&) { return 5; }
template<class R, bool V> struct Registrations {
    static inline om::use_classes<Animal, Dog, Cat, Puppy, R> classes;
    static inline typename speak<R>::template override<speak_dog<R>, speak_puppy<R>> speaks;
    static inline typename meet<R>::template override<meet_da<R>, meet_ad<R>> meets;
    static void use() { (void)&classes; (void)&speaks; (void)&meets; if constexpr (V) Registrations<R, false>::pokes(); }
    static void pokes() { static typename poke<R>::template override<poke_cat<R>> p; (void)p; }
};

enum Bad { B_NONE, B_NO_OVR, B_AMBIG, B_NOTINIT, B_FINAL, B_UNREG, B_END };
static const char* BNAME[] = {"none", "no_overrider", "ambiguous_call", "not_initialized", "final_error", "missing_class"};

template<class R, bool V> bool good_uses() {
    Dog d; Puppy p; Cat c;
    bool ok = speak<R>::fn(om::final_virtual_ptr<R>(d), 3) == 13 && speak<R>::fn(om::final_virtual_ptr<R>(p), 3) == 1013;
    ok = ok && meet<R>::fn(om::final_virtual_ptr<R>(d), om::final_virtual_ptr<R>(c)) == 1 && meet<R>::fn(om::final_virtual_ptr<R>(c), om::final_virtual_ptr<R>(p)) == 2;
    ok = ok && speak<R>::fn(om::make_shared_virtual<Puppy, R>(), 1) == 1011;
    if constexpr (V) {
        Animal& a = p;
        ok = ok && speak<R>::fn(om::virtual_ptr<Animal, R>(a), 4) == 1014 && speak<R>::fn(a, 4) == 1014 && poke<R>::fn(static_cast<Animal&>(c)) == 5;
        ok = ok && meet<R>::fn(a, c) == 1;
    }
    return ok;
}
template<class R, bool V> void bad_use(Bad b) {
    Dog d; Cat c; Stray s; Animal& ad = d;
    switch (b) {
    case B_NO_OVR: speak<R>::fn(om::final_virtual_ptr<R>(c), 1); break;
    case B_AMBIG: meet<R>::fn(om::final_virtual_ptr<R>(d), om::final_virtual_ptr<R>(d)); break;
    case B_FINAL: (void)om::final_virtual_ptr<R>(ad); break;
    case B_UNREG: if constexpr (V) speak<R>::fn(static_cast<Animal&>(s), 1); break;
    default: if constexpr (V) poke<R>::fn(static_cast<Animal&>(c)); else speak<R>::fn(om::final_virtual_ptr<R>(d), 1);
    }
}
static void say(const char* s) { if (write(1, s, strlen(s)) < 0) {} }

template<int V, int E, int O> void scenario(Rng& g) {
    using R = Reg<V, E, O>;
    Registrations<R, V != 0>::use();
    int bad = rnd(g, int(B_END));
    if (bad == B_UNREG && (!V || !CHECKS)) bad = B_NO_OVR;
    if ((bad == B_NOTINIT || bad == B_FINAL) && !CHECKS) bad = B_AMBIG;
    bool traced = O && chance(g, 25), after_final = chance(g, 50), late = chance(g, 50);
    char id[200];
    snprintf(id, sizeof id, "vptr %d error handler %d output %d checks %d indirect %d, %s", V, E, O, CHECKS, INDIRECT, BNAME[bad]);
    Child c = in_child([&] {
        if (bad == B_NOTINIT) {
            if (after_final) { om::initialize<R>(); om::finalize<R>(); }
        } else {
            if constexpr (O != 0) { if (traced) om::initialize<R>(om::trace()); else om::initialize<R>(); }
            else om::initialize<R>();
            if (late) { om::finalize<R>(); om::initialize<R>(); }
            if (!good_uses<R, V != 0>()) say("<wrong>");
        }
        if (traced && bad != B_NOTINIT) say("<traced>");
        if (bad) {
            say("<bad>");
            try { bad_use<R, V != 0>(Bad(bad)); say("<returned>"); }
            catch (const std::runtime_error& e) {
                try { throw; }
                catch (const om::openmethod_error&) { say(*e.what() ? "<caught>" : "<caught without description>"); }
                if (bad == B_NOTINIT) om::initialize<R>();
                if (!good_uses<R, V != 0>()) say("<wrong>");
            }
        }
        say("<end>");
    });
    count("scenarios");
    distinct(mix(mix(u64(V) * 64 + E * 8 + O, u64(PART)), u64(bad) * 4 + traced * 2 + late));
    auto has = [&](const char* t) { return c.out.find(t) != std::string::npos; };
    if (has("<wrong>")) violation("compose", "a call gives a wrong result: %s", id);
    if (traced && bad != B_NOTINIT) { if (c.err.empty()) violation("compose", "no trace: %s", id); }
    std::string lines = c.err;
    if (traced) lines.clear();
    if (!bad) {
        if (!c.ok() || !has("<end>")) violation("compose", "good uses ended with status %d: %s: %s", c.status, id, c.err.substr(0, 300).c_str());
        if (!lines.empty()) violation("compose", "output without reason: %s: %s", id, lines.substr(0, 300).c_str());
        return;
    }
    count("bad_uses");
    if (has("<returned>")) violation("compose", "a bad use returned: %s", id);
    if (E == 2) {
        if (!c.ok() || !has("<caught>") || !has("<end>")) violation("compose", "the throwing handler did not throw: %s: %s %s", id, c.out.c_str(), c.err.substr(0, 300).c_str());
        if (!lines.empty()) violation("compose", "the throwing handler wrote: %s: %s", id, lines.substr(0, 300).c_str());
        return;
    }
    if (!c.aborted()) violation("compose", "the program was not aborted (status %d): %s: %s %s", c.status, id, c.out.c_str(), c.err.substr(0, 300).c_str());
    std::string want = E == 3 ? std::string("<bad>[") + BNAME[bad] + "]" : "<bad>", got = c.out.substr(std::min(c.out.find("<bad>"), c.out.size()));
    if (got != want) violation("compose", "handler log '%s', expected '%s': %s", got.c_str(), want.c_str(), id);
    if (traced) return;
    bool line = E == 1 && O;
    if (line && (lines.size() < 2 || lines.find('\n') != lines.size() - 1)) violation("compose", "not one line of description: %s: '%s'", id, lines.substr(0, 300).c_str());
    if (!line && !lines.empty()) violation("compose", "output without default handler and output policy: %s: '%s'", id, lines.substr(0, 300).c_str());
}
template<int... K> void all(Rng& g, std::integer_sequence<int, K...>) { (scenario<K / 12, K / 3 % 4, K % 3>(g), ...); }

int main(int argc, char** argv) {
    return run_cases(argc, argv, [](Rng& g, const Args&) {
        static bool once = (walks(std::make_integer_sequence<int, 25>()), true);
        (void)once;
        all(g, std::make_integer_sequence<int, 36>());
        count("cases");
    });
}
