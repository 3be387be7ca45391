// C20: every error goes once to the handler installed in its registry, with
// its content, before anything else; what the shipped handlers do; abort when
// a handler returns.  VARIANT picks how v-tables are found.
#include "../util.hpp"
#include <boost/openmethod/preamble.hpp>
#include <boost/openmethod/policies/std_rtti.hpp>
#include <boost/openmethod/policies/vptr_vector.hpp>
#include <boost/openmethod/policies/vptr_map.hpp>
#include <boost/openmethod/policies/stderr_output.hpp>
#include <boost/openmethod/policies/fast_perfect_hash.hpp>
#include <boost/openmethod/policies/default_error_handler.hpp>
#include <boost/openmethod/policies/throw_error_handler.hpp>
#include <boost/openmethod/core.hpp>
#include <boost/openmethod/inplace_vptr.hpp>
#include <boost/openmethod/interop/std_shared_ptr.hpp>
#include <boost/openmethod/interop/std_unique_ptr.hpp>
#include <boost/openmethod/initialize.hpp>
#include <boost/mp11.hpp>
#include <memory>
#include <optional>
#include <sstream>
namespace om = boost::openmethod;
namespace po = boost::openmethod::policies;
namespace mp11 = boost::mp11;
#ifndef VARIANT
#define VARIANT 0
#endif

// ---- classes
struct A { enum { K }; virtual ~A() {} };
// names of every length: descriptions must not be cut or overrun a buffer
#define LONG8 a_namespace_with_a_rather_long_name_of_which_there_are_several
#define LONG namespace LONG8::LONG8::LONG8::LONG8::LONG8::LONG8::LONG8::LONG8::LONG8::LONG8::LONG8::LONG8::LONG8::LONG8::LONG8::LONG8::LONG8::LONG8
#define LONG_ LONG8::LONG8::LONG8::LONG8::LONG8::LONG8::LONG8::LONG8::LONG8::LONG8::LONG8::LONG8::LONG8::LONG8::LONG8::LONG8::LONG8::LONG8
struct B : A {};
LONG { struct C : ::A {}; }
using LONG_::C;
namespace LONG8::LONG8::LONG8 { struct M { virtual ~M() {} }; }
using LONG8::LONG8::LONG8::M;
struct D : M, A {}; struct BC : B {};
LONG { struct N : ::B {}; }
using LONG_::N; // never registered
struct G : B {};  // comes and goes
struct L : A {};  // its base comes and goes
template<int> struct Al : A {}; // ids of one class (search errors)
constexpr int NAL = 40;

// ---- registries
struct Text { std::string s; int writes = 0; };
template<class R> Text& text_() { static Text t; return t; }
template<class R> Text& text() { return text_<typename R::registry_type>(); }
template<class R> struct Os {
    friend Os& operator<<(Os& o, const char* p) { text<R>().s += p; ++text<R>().writes; return o; }
    friend Os& operator<<(Os& o, const std::string_view& v) { text<R>().s.append(v.data(), v.size()); ++text<R>().writes; return o; }
    friend Os& operator<<(Os& o, const void* p) { char b[32]; snprintf(b, 32, "%p", p); text<R>().s += b; ++text<R>().writes; return o; }
    friend Os& operator<<(Os& o, std::size_t n) { text<R>().s += std::to_string(n); ++text<R>().writes; return o; }
};
struct recording : po::output { template<class R> struct fn { static inline Os<R> os; }; };
struct merging_rtti : po::std_rtti { // Al<I> are other ids of A
    template<class R> struct fn : po::std_rtti::fn<R> {
        static std::vector<om::type_id>& ids() { static std::vector<om::type_id> v; return v; }
        static std::uintptr_t type_index(om::type_id t) { for (auto i : ids()) if (i == t) return std::uintptr_t(po::std_rtti::fn<R>::template static_type<A>()); return std::uintptr_t(t); }
    };
};
enum Kind { NONE, NOTINIT, NOOVR, AMBIG, MCLASS, MBASE, FINAL, SEARCH, ODR, OTHER };
static const char* KNAME[] = {"none", "not_initialized", "no_overrider", "ambiguous_call", "missing_class", "missing_base", "final_error", "search_error", "odr_violation", "another"};
struct Seen { int kind = NONE; om::type_id method = nullptr; std::vector<om::type_id> t; std::size_t n1 = 0, n2 = 0; std::string text;
    bool operator==(const Seen& o) const { return kind == o.kind && method == o.method && t == o.t; } };
template<class R, class E> std::string written(const E& e) { std::ostringstream os; e.template write<R>(os); return os.str(); }
template<class R> Seen see(const om::not_initialized& e) { return {NOTINIT, nullptr, {}, 0, 0, written<R>(e)}; }
template<class R> Seen see(const om::no_overrider& e) { return {NOOVR, e.method, std::vector<om::type_id>(e.types, e.types + e.arity), 0, 0, written<R>(e)}; }
template<class R> Seen see(const om::ambiguous_call& e) { return {AMBIG, e.method, std::vector<om::type_id>(e.types, e.types + e.arity), 0, 0, written<R>(e)}; }
template<class R> Seen see(const om::missing_class& e) { return {MCLASS, nullptr, {e.type}, 0, 0, written<R>(e)}; }
template<class R> Seen see(const om::missing_base& e) { return {MBASE, nullptr, {e.base, e.derived}, 0, 0, written<R>(e)}; }
template<class R> Seen see(const om::final_error& e) { return {FINAL, nullptr, {e.static_type, e.dynamic_type}, 0, 0, written<R>(e)}; }
template<class R> Seen see(const po::fast_perfect_hash::search_error& e) { return {SEARCH, nullptr, {}, e.attempts, e.buckets, written<R>(e)}; }
template<class R> Seen see(const om::odr_violation& e) { return {ODR, nullptr, {}, 0, 0, written<R>(e)}; }
struct Caught { int handler; Seen seen; };
struct user_handler : po::error_handler { // a policy as a user would write it
    template<class R> struct fn { static inline int calls = 0; template<class E> static void error(const E& e) { ++calls; throw Caught{-1, see<R>(e)}; } };
};
#if VARIANT == 0
#define VT po::vptr_vector, po::fast_perfect_hash
#elif VARIANT == 1
#define VT po::vptr_map<>
#elif VARIANT == 2
#define VT po::vptr_vector, po::fast_perfect_hash, po::indirect_vptr
#elif VARIANT == 3
#define VT po::vptr_map<mp11::mp_quote<std::map>>, po::indirect_vptr
#endif
struct RD : om::registry<po::std_rtti, VT, recording, po::default_error_handler, po::runtime_checks> {};
struct RU : om::registry<po::std_rtti, VT, recording, user_handler, po::runtime_checks> {};
struct RT : om::registry<po::std_rtti, VT, recording, po::throw_error_handler, po::runtime_checks> {};
struct RS : om::registry<po::std_rtti, VT, po::stderr_output, po::default_error_handler, po::runtime_checks> {}; // as shipped
struct RQ : om::registry<po::std_rtti, VT, po::default_error_handler, po::runtime_checks> {};                     // no output
struct RN : om::registry<po::std_rtti, VT, po::runtime_checks> {};                                                // no handler
template<class H> using search_registry = om::registry<merging_rtti, po::vptr_vector, po::fast_perfect_hash, H, recording>;
struct HD : search_registry<po::default_error_handler> {};
struct HT : search_registry<po::throw_error_handler> {};
struct HU : search_registry<user_handler> {};

// ---- methods
static int ran; // overriders entered
template<class R> struct n1; template<class R> struct n2; template<class R> struct n3; template<class R> struct n4;
template<class R> using one = om::method<n1<R>, int(om::virtual_<A&>, int), R>;
template<class R> using two = om::method<n2<R>, int(om::virtual_<A&>, std::string, om::virtual_ptr<A, R>), R>;
template<class R> using three = om::method<n3<R>, int(om::virtual_<A&>, om::virtual_<const M&>, om::virtual_<A*>), R>;
template<class R> using four = om::method<n4<R>, int(om::virtual_ptr<std::shared_ptr<A>, R>), R>;
template<class R> int one_B(B&, int x) { ++ran; return x; }
template<class R> int one_BC(BC& b, int x) { ++ran; return one<R>::template next<one_BC<R>>(b, x + 1); }
template<class R> int one_C(C& c, int x) { ++ran; return one<R>::template next<one_C<R>>(c, x + 1); } // none
template<class R> int two_AB(A&, std::string, om::virtual_ptr<B, R>) { ++ran; return 2; }
template<class R> int two_BA(B&, std::string, om::virtual_ptr<A, R>) { ++ran; return 3; }
template<class R> int three_x(B&, const D&, B*) { ++ran; return 4; }
template<class R> int four_B(om::virtual_ptr<std::shared_ptr<B>, R>) { ++ran; return 5; }
template<class R> int four_G(om::virtual_ptr<std::shared_ptr<G>, R>) { ++ran; return 6; }
template<class R> int one_L(L&, int) { ++ran; return 7; }
template<class R> struct Regs {
    om::use_classes<A, B, C, M, D, BC, R> c;
    typename one<R>::template override<one_B<R>, one_BC<R>, one_C<R>, one_L<R>> o1;
    typename two<R>::template override<two_AB<R>, two_BA<R>> o2;
    typename three<R>::template override<three_x<R>> o3;
    typename four<R>::template override<four_B<R>, four_G<R>> o4;
};
template<class R> struct Opt { // what comes and goes
    std::optional<om::use_classes<B, G, R>> g;
    std::optional<om::use_classes<L, R>> l0;       // without its base
    std::optional<om::use_classes<A, L, R>> l;
};
template<class R> Opt<R>& opt() { static Opt<R> o; return o; }
template<class R> om::type_id method_id(int m) { return m == 1 ? R::rtti::template static_type<one<R>>() : m == 2 ? R::rtti::template static_type<two<R>>() : m == 3 ? R::rtti::template static_type<three<R>>() : R::rtti::template static_type<four<R>>(); }
template<class R, class T> om::type_id id() { return R::rtti::template static_type<T>(); }

static A oa; static B ob; static C oc; static M om_; static D od; static BC obc; static N on;
struct Expect { Seen e; int ran; std::vector<om::type_id> named; };

// Does something that must fail with a given error; ready: initialized.
template<class R> Expect provoke(Rng& g, bool ready, bool doit) {
    auto bad = [&](int kind, int m, std::vector<om::type_id> t, int r = 0) { Expect x; x.e.kind = kind; x.e.method = method_id<R>(m); x.e.t = t; x.ran = r; return x; };
    auto one_type = [&](om::type_id t) { Expect x; x.e.kind = MCLASS; x.e.t = {t}; x.ran = 0; x.named = {t}; return x; };
    int k = rnd(g, ready ? 14 : 5);
    if (!ready) { // not initialized
        Expect x; x.e.kind = NOTINIT; x.ran = 0;
        if (doit) switch (k) {
            case 0: one<R>::fn(ob, 1); break;
            case 1: { om::virtual_ptr<A, R> p(ob); break; }
            case 2: { auto p = om::final_virtual_ptr<R>(ob); break; }
            case 3: { auto p = om::make_shared_virtual<B, R>(); break; }
            case 4: { om::virtual_ptr<std::unique_ptr<A>, R> p(std::unique_ptr<A>(new B)); break; }
        }
        return x;
    }
    switch (k) {
    case 0: if (doit) one<R>::fn(oa, 1); return bad(NOOVR, 1, {id<R, A>()});
    case 1: if (doit) one<R>::fn(od, 1); return bad(NOOVR, 1, {id<R, D>()});
    case 2: if (doit) one<R>::fn(oc, 1); return bad(NOOVR, 1, {id<R, C>()}, 1); // next
    case 3: if (doit) two<R>::fn(ob, "x", om::virtual_ptr<A, R>(obc)); return bad(AMBIG, 2, {id<R, B>(), id<R, BC>()});
    case 4: if (doit) two<R>::fn(oc, "y", om::virtual_ptr<A, R>(od)); return bad(NOOVR, 2, {id<R, C>(), id<R, D>()});
    case 5: if (doit) three<R>::fn(ob, om_, &obc); return bad(NOOVR, 3, {id<R, B>(), id<R, M>(), id<R, BC>()});
    case 6: if (doit) four<R>::fn(om::make_shared_virtual<C, R>()); return bad(NOOVR, 4, {id<R, C>()});
    case 7: if (doit) one<R>::fn(on, 1); return one_type(id<R, N>());
    case 8: if (doit) { om::virtual_ptr<A, R> p(on); } return one_type(id<R, N>());
    case 9: if (doit) { om::virtual_ptr<std::shared_ptr<A>, R> p(std::make_shared<N>()); } return one_type(id<R, N>());
    case 10: if (doit) three<R>::fn(obc, od, static_cast<A*>(&on)); return one_type(id<R, N>());
    case 11: { Expect x; x.e.kind = FINAL; x.ran = 0; x.e.t = {id<R, A>(), id<R, B>()}; x.named = x.e.t; A& a = ob; if (doit) { auto p = om::final_virtual_ptr<R>(a); } return x; }
    case 12: { Expect x; x.e.kind = FINAL; x.ran = 0; x.e.t = {id<R, B>(), id<R, BC>()}; x.named = x.e.t; if (doit) { auto p = om::virtual_ptr<B, R>::final(static_cast<B&>(obc)); } return x; }
    default: if (doit) two<R>::fn(obc, "z", om::final_virtual_ptr<R>(ob)); return bad(AMBIG, 2, {id<R, BC>(), id<R, B>()});
    }
}
// Initializes without a class or a base.
template<class R> Expect provoke_init(Rng& g, bool doit) {
    auto& o = opt<R>();
    Expect x; x.ran = 0;
    if (rnd(g, 2)) { x.e.kind = MCLASS; x.e.t = {id<R, G>()}; if (doit) o.g.reset(); }
    else { x.e.kind = MBASE; x.e.t = {id<R, A>(), id<R, L>()}; if (doit) { o.l.reset(); o.l0.emplace(); } }
    x.named = x.e.t;
    if (doit) om::initialize<R>();
    return x;
}
template<class R> void whole() { auto& o = opt<R>(); if (!o.g) o.g.emplace(); o.l0.reset(); if (!o.l) o.l.emplace(); }

template<class R> std::string type_name(om::type_id t) { std::ostringstream os; R::rtti::type_name(t, os); return os.str(); }
template<class R> std::string show(const Seen& s) { std::string r = KNAME[s.kind]; for (auto t : s.t) r += " " + type_name<R>(t); return r; }
template<class R> void judge(const Expect& x, const Seen& s, const char* where, int entered) {
    count("errors");
    count(KNAME[x.e.kind]);
    distinct(mix(std::hash<std::string>()(show<R>(x.e)), std::hash<std::string>()(where)));
    if (!(s == x.e)) violation("errors", "%s: %s reported, expected %s", where, show<R>(s).c_str(), show<R>(x.e).c_str());
    if (entered != x.ran) violation("errors", "%s: %d overriders ran around %s", where, entered, KNAME[x.e.kind]);
    if (s.kind != NONE && s.kind != SEARCH && (s.text.empty() || s.text.find('\n') != std::string::npos)) violation("errors", "%s: the description of %s is [%s], not one line", where, KNAME[s.kind], s.text.c_str());
    std::size_t at = 0;
    for (auto t : x.named) { at = s.text.find(type_name<R>(t), at); if (at == std::string::npos) { violation("errors", "%s: the description [%s] of %s does not name %s", where, s.text.c_str(), KNAME[s.kind], type_name<R>(t).c_str()); break; } }
}

// ---- default_error_handler with several handlers
constexpr int NH = 6;
template<class R> struct Handlers {
    static inline int calls[NH], total, copies_alive;
    static inline Seen last;
    static inline int entered_at; // overriders run when the handler was called
    struct Big { long pad[8]; };  // does not fit inside a std::function
    using EH = typename R::error_handler;
    using variant = typename EH::error_variant;
    static void record(int k, const variant& v) {
        ++calls[k]; ++total; entered_at = ran;
        std::visit([&](auto& e) { last = see<R>(e); }, v);
    }
    static void plain(const variant& v) { record(2, v); throw Caught{2, last}; }
    static typename EH::function_type make(int k) {
        switch (k) {
        case 0: return [](const variant& v) { record(0, v); throw Caught{0, last}; };
        case 1: { Big b{}; b.pad[3] = 77; return [b](const variant& v) { if (b.pad[3] != 77) violation("errors", "a handler lost its captured state"); record(1, v); throw Caught{1, last}; }; }
        case 2: return plain;
        case 3: { auto p = std::make_shared<int>(5); return [p](const variant& v) { if (*p != 5) violation("errors", "a handler lost its captured state"); record(3, v); throw Caught{3, last}; }; }
        case 4: return [](const variant& v) { // uses the registry before it throws
            record(4, v); Seen s = last; int r = ran; if (s.kind == NOOVR && one<R>::fn(ob, 11) != 11) violation("errors", "a call from a handler fails"); ran = r; throw Caught{4, s}; };
        default: return [](const variant& v) { record(5, v); EH::default_handler(v); throw Caught{5, last}; };
        }
    }
};
// Which handler is f?  -2: the initial one
template<class R> int identify(const typename R::error_handler::function_type& f) {
    using H = Handlers<R>;
    if (!f) return -3;
    int before[NH], which = -2, n = 0;
    for (int i = 0; i < NH; ++i) before[i] = H::calls[i];
    auto t = text<R>();
    try { f(typename H::variant(om::not_initialized())); } catch (Caught&) {}
    for (int i = 0; i < NH; ++i) if (H::calls[i] != before[i]) { which = i; ++n; H::calls[i] = before[i]; --H::total; }
    if (which == -2 && text<R>().s == t.s) which = -4;
    text<R>() = t;
    return n > 1 ? -5 : which;
}

template<class R, class T, class F> void throwing(Rng& g, F attempt) { // throw_error_handler
    Expect x = attempt(false);
    const char* where = "throw handler";
    int r = ran;
    Seen s; bool caught = false;
    auto writes = text<R>().writes;
    std::string what;
    auto by = [&](auto* tag) {
        using E = std::remove_pointer_t<decltype(tag)>;
        try { attempt(true); }
        catch (E& e) {
            caught = true;
            s = see<R>(e);
            try { throw; } catch (om::openmethod_error&) {} catch (...) { violation("errors", "the exception is not an openmethod_error"); }
            try { throw; } catch (std::exception& e) { what = e.what(); } catch (...) { violation("errors", "the exception is not a std::exception"); }
            try { throw; } catch (std::runtime_error& e) { what = e.what(); } catch (...) { violation("errors", "the exception is not a std::runtime_error"); }
        }
        catch (std::runtime_error& e) { violation("errors", "%s: %s is thrown, not as %s", where, e.what(), KNAME[x.e.kind]); }
    };
    switch (x.e.kind) {
    case NOTINIT: by((om::not_initialized*)nullptr); break;
    case NOOVR: by((om::no_overrider*)nullptr); break;
    case AMBIG: by((om::ambiguous_call*)nullptr); break;
    case MCLASS: by((om::missing_class*)nullptr); break;
    case MBASE: by((om::missing_base*)nullptr); break;
    case FINAL: by((om::final_error*)nullptr); break;
    case SEARCH: by((po::fast_perfect_hash::search_error*)nullptr); break;
    }
    if (!caught) violation("errors", "%s: nothing caught for %s", where, KNAME[x.e.kind]);
    else if (what != s.text) violation("errors", "%s: what() is [%s], the description is [%s]", where, what.c_str(), s.text.c_str());
    if (text<R>().writes != writes) violation("errors", "the throwing handler writes to the output");
    judge<R>(x, s, where, ran - r);
}

template<class R, class F> void recorded(Rng& g, F attempt, int h) { // default_error_handler, handler h
    using H = Handlers<R>;
    Expect x = attempt(false);
    int r = ran, t = H::total, c = H::calls[h];
    auto old = text<R>();
    text<R>() = Text();
    Seen s; int who = -9;
    try { attempt(true); violation("errors", "nothing is reported for %s", KNAME[x.e.kind]); } catch (Caught& e) { s = e.seen; who = e.handler; }
    char where[40]; snprintf(where, sizeof where, "handler %d", h);
    if (who != h) violation("errors", "%s installed, %d was called", where, who);
    if (H::total != t + 1 || H::calls[h] != c + 1) violation("errors", "%s called %d times for one %s, all handlers %d times", where, H::calls[h] - c, KNAME[x.e.kind], H::total - t);
    judge<R>(x, s, where, H::entered_at - r);
    if (ran - r != x.ran) violation("errors", "%s: overriders ran after the handler", where);
    if (h == 5) { if (text<R>().s != s.text + "\n") violation("errors", "the default handler wrote [%s] for [%s]", text<R>().s.c_str(), s.text.c_str()); }
    else if (text<R>().writes) violation("errors", "[%s] was written with another handler installed", text<R>().s.c_str());
    text<R>() = old;
}

template<class R, class F> void custom(Rng& g, F attempt) {
    Expect x = attempt(false);
    int r = ran, c = user_handler::fn<typename R::registry_type>::calls;
    Seen s;
    try { attempt(true); } catch (Caught& e) { s = e.seen; }
    if (user_handler::fn<typename R::registry_type>::calls != c + 1) violation("errors", "the user's policy was called %d times", user_handler::fn<typename R::registry_type>::calls - c);
    judge<R>(x, s, "user's policy", ran - r);
}

// In a child: the handler returns; the program must abort, having said this.
template<class F> void dies(const char* where, const std::string& out, const std::string& err, F f) {
    Child c = in_child([&] { f(); std::printf("CONTINUED"); });
    count("aborts");
    if (!c.aborted()) violation("errors", "%s: the process does not abort (status %d, output [%s])", where, c.status, c.out.c_str());
    if (c.out != out) violation("errors", "%s: output [%s], expected [%s]", where, c.out.c_str(), out.c_str());
    if (c.err != err) violation("errors", "%s: standard error [%s], expected [%s]", where, c.err.c_str(), err.c_str());
}

template<class R> void prepare(bool ready) {
    whole<R>();
    if (ready) om::initialize<R>(); else om::finalize<R>();
}
template<class R> void not_so(Rng& g) { (void)g; }

// ---- search errors
template<class R> struct NA; 
template<class R> using plain_m = om::method<NA<R>, int(om::virtual_<A&>), R>;
template<class R> int plain_A(A&) { return 1; }
template<class R> struct SearchRegs {
    om::use_classes<A, R> a;
    typename plain_m<R>::template override<plain_A<R>> o;
    struct Aliases { template<class I> struct C; };
    template<class S> struct all;
    template<std::size_t... I> struct all<std::index_sequence<I...>> { using type = mp11::mp_list<om::use_classes<Al<int(I)>, R>...>; };
    mp11::mp_rename<typename all<std::make_index_sequence<NAL>>::type, std::tuple> many;
    template<std::size_t... I> static void ids(std::index_sequence<I...>) {
        auto& v = R::rtti::ids();
        v.clear();
        (v.push_back(R::rtti::template static_type<Al<int(I)>>()), ...);
        v.push_back(R::rtti::template static_type<A>());
    }
};
// In static storage that is zero, as registrars must be.
template<class T> struct Zeroed {
    static inline unsigned char buf[sizeof(T)] __attribute__((aligned(64)));
    Zeroed() { std::memset(buf, 0, sizeof buf); new (static_cast<void*>(buf)) T; }
    ~Zeroed() { reinterpret_cast<T*>(buf)->~T(); }
};
template<class R> Expect search(bool doit) {
    Expect x; x.e.kind = SEARCH; x.ran = 0;
    if (doit) om::initialize<R>();
    return x;
}

static Seen last_search;
static void one_case(Rng& g, const Args&) {
    int h = -2;
    RD::error_handler::set(RD::error_handler::default_handler);
    bool dr = false, tr = false, ur = false;
    prepare<RD>(false); prepare<RT>(false); prepare<RU>(false);
    for (int step = 0; step < 40; ++step) {
        int k = rnd(g, 100);
        if (k < 25 || h == -2) { // install
            int n = rnd(g, NH);
            auto prev = RD::error_handler::set(Handlers<RD>::make(n));
            int was = identify<RD>(prev);
            count("handlers_set");
            if (was != h) violation("errors", "set returned handler %d, %d was installed", was, h);
            h = n;
        } else if (k < 30) {
            dr = rnd(g, 2); tr = rnd(g, 2); ur = rnd(g, 2);
            prepare<RD>(dr); prepare<RT>(tr); prepare<RU>(ur);
        } else {
            u64 s = g();
            bool init = rnd(g, 6) == 0;
            int reg = rnd(g, 4);
            auto attempt = [&](auto* r, bool ready, bool doit) {
                using R = std::remove_pointer_t<decltype(r)>;
                Rng h(s);
                return init ? provoke_init<R>(h, doit) : provoke<R>(h, ready, doit);
            };
            auto after = [&](auto* r, bool ready) { using R = std::remove_pointer_t<decltype(r)>; if (init) prepare<R>(ready); };
            if (reg < 2) {
                if (!(h == 4 && (init || !dr))) { recorded<RD>(g, [&](bool d) { return attempt((RD*)nullptr, dr, d); }, h); after((RD*)nullptr, dr); }
            } else if (reg == 2) { throwing<RT, RT>(g, [&](bool d) { return attempt((RT*)nullptr, tr, d); }); after((RT*)nullptr, tr); }
            else { custom<RU>(g, [&](bool d) { return attempt((RU*)nullptr, ur, d); }); after((RU*)nullptr, ur); }
        }
    }
    // search errors
    {
        using S = std::make_index_sequence<NAL>;
        static int n = 0;
        if (n++ % 10 == 0) {
            { Zeroed<SearchRegs<HT>> r; SearchRegs<HT>::ids(S()); Seen s; throwing<HT, HT>(g, [](bool d) { return search<HT>(d); }); }
            { Zeroed<SearchRegs<HU>> r; SearchRegs<HU>::ids(S()); custom<HU>(g, [](bool d) { return search<HU>(d); }); }
            for (int k : {0, 1, 5}) { Zeroed<SearchRegs<HD>> r; SearchRegs<HD>::ids(S()); HD::error_handler::set([k](const HD::error_handler::error_variant& v) {
                auto& H = Handlers<RD>::last; std::visit([&](auto& e) { H = see<HD>(e); }, v); if (k == 5) HD::error_handler::default_handler(v); throw Caught{k, H}; });
                text<HD>() = Text();
                Expect x = search<HD>(false); Seen s;
                try { search<HD>(true); } catch (Caught& c) { s = c.seen; }
                judge<HD>(x, s, "handler for search errors", 0);
                if (!s.n1 || !s.n2) violation("errors", "search_error states %zu attempts and %zu buckets", s.n1, s.n2);
                if (s.text.find(std::to_string(s.n1)) == std::string::npos || s.text.find(std::to_string(s.n2)) == std::string::npos || s.text.find('\n') != std::string::npos) violation("errors", "the description [%s] of search_error is not one line with %zu and %zu", s.text.c_str(), s.n1, s.n2);
                if (text<HD>().s != (k == 5 ? s.text + "\n" : "")) violation("errors", "for a search error [%s] was written", text<HD>().s.c_str());
            }
        }
    }
    // handlers that return, and registries with no handler at all
    for (int i = 0; i < 3; ++i) {
        bool ready = rnd(g, 3), init = rnd(g, 4) == 0;
        u64 s = g();
        auto go = [&](auto* r, bool doit) { using R = std::remove_pointer_t<decltype(r)>; Rng h(s); return init ? provoke_init<R>(h, doit) : provoke<R>(h, ready, doit); };
        switch (rnd(g, 4)) {
        case 0: { // the shipped one, on standard error
            Expect x = go((RS*)nullptr, false);
            std::string want;
            { // what it must say, learned from the throwing registry
                prepare<RT>(ready);
                try { go((RT*)nullptr, true); } catch (std::runtime_error& e) { want = e.what(); }
                prepare<RT>(ready); tr = ready;
            }
            dies("default handler on stderr", "", want + "\n", [&] { prepare<RS>(ready); go((RS*)nullptr, true); });
            break;
        }
        case 1: { // one that returns after recording
            Expect x = go((RD*)nullptr, false);
            char want[60]; snprintf(want, sizeof want, "%s %d %d\n", KNAME[x.e.kind], int(x.e.t.size()), x.ran);
            dies("handler that returns", want, "", [&] {
                prepare<RD>(ready);
                int r0 = ran;
                RD::error_handler::set([r0](const RD::error_handler::error_variant& v) { std::visit([r0](auto& e) { Seen s = see<RD>(e); std::printf("%s %d %d\n", KNAME[s.kind], int(s.t.size()), ran - r0); fflush(stdout); }, v); });
                go((RD*)nullptr, true);
            });
            break;
        }
        case 2: dies("no handler", "", "", [&] { prepare<RN>(ready); go((RN*)nullptr, true); }); break;
        case 3: dies("default handler without output", "", "", [&] { prepare<RQ>(ready); go((RQ*)nullptr, true); }); break;
        }
    }
    if (stats().samples.size() < 3) sample("40 steps on three registries, last handler " + std::to_string(h) + ", last error " + show<RD>(Handlers<RD>::last));
}

static Regs<RD> r1; static Regs<RU> r2; static Regs<RT> r3; static Regs<RS> r4; static Regs<RQ> r5; static Regs<RN> r6;
int main(int argc, char** argv) { return run_cases(argc, argv, one_case); }
