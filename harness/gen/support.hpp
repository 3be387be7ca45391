// Support for the generated programs: registries, observed values, the log of
// what overriders saw, and its comparison with what the generator expects.
#pragma once
#include "util.hpp"
#include <boost/openmethod/preamble.hpp>
#include <boost/openmethod/policies/std_rtti.hpp>
#include <boost/openmethod/policies/static_rtti.hpp>
#include <boost/openmethod/policies/vptr_vector.hpp>
#include <boost/openmethod/policies/vptr_map.hpp>
#include <boost/openmethod/policies/stderr_output.hpp>
#include <boost/openmethod/policies/fast_perfect_hash.hpp>
#include <boost/openmethod/policies/default_error_handler.hpp>
#include <boost/openmethod/policies/throw_error_handler.hpp>
#include <boost/openmethod.hpp>
#include <boost/openmethod/inplace_vptr.hpp>
#include <boost/openmethod/interop/std_shared_ptr.hpp>
#include <boost/openmethod/interop/std_unique_ptr.hpp>
#include <boost/openmethod/interop/boost_intrusive_ptr.hpp>
#include <boost/openmethod/initialize.hpp>
#include <functional>
#include <map>
#include <memory>
#include <string>
#include <type_traits>
#include <vector>
namespace om = boost::openmethod;
namespace po = boost::openmethod::policies;
#ifndef CONF
#define CONF 0
#endif

// ---- custom rtti: ids are small integers, read from the object
template<class T, class = void> struct has_k : std::false_type {};
template<class T> struct has_k<T, std::void_t<decltype(T::K)>> : std::true_type {};
inline om::type_id class_ids[64]; // filled before initialize
inline om::type_id class_id(int i) {
#if CONF == 4 || CONF == 5 || CONF == 12 || CONF == 15 // not deferred: known from the start
    return reinterpret_cast<om::type_id>(std::uintptr_t((i * 7) % 64 + 1));
#else
    return class_ids[i];
#endif
}
template<class T> inline char other_id;
inline void fill_ids() { for (int i = 0; i < 64; ++i) class_ids[i] = reinterpret_cast<om::type_id>(std::uintptr_t((i * 7) % 64 + 1)); }
template<class R> struct custom_rtti_fn : po::rtti::defaults {
    template<class C> static constexpr bool is_polymorphic = has_k<C>::value;
    template<class C> static om::type_id static_type() {
        if constexpr (has_k<C>::value && !std::is_const_v<C>) return class_id(C::K); else return &other_id<C>; // asked about classes as such only
    }
    template<class C> static om::type_id dynamic_type(const C& o) {
        if constexpr (has_k<C>::value) return class_id(o.cls()); else return nullptr;
    }
    template<class Stream> static void type_name(om::type_id t, Stream& s) { s << "class#" << (unsigned long)(std::uintptr_t(t)); }
#if CONF != 12 && CONF != 15 // without virtual inheritance, it need not exist
    template<class D, class B> static D dynamic_cast_ref(B&& o) { ++casts(); return dynamic_cast<D>(o); }
#endif
    static int& casts() { static int n; return n; }
};
struct custom_rtti : po::rtti { template<class R> using fn = custom_rtti_fn<R>; };
struct deferred_rtti : po::deferred_static_rtti { template<class R> using fn = custom_rtti_fn<R>; };


// ---- the shipped rtti policy for when there is none; errors need the dynamic type
template<class R> struct static_rtti_plus_fn : po::static_rtti::fn<R> {
    static om::type_id id_of(int k); // generated
    template<class C> static om::type_id dynamic_type(const C& o) {
        if constexpr (has_k<C>::value) return id_of(o.cls()); else return nullptr;
    }
};
struct static_rtti_plus : po::static_rtti { template<class R> using fn = static_rtti_plus_fn<R>; };
#define STATIC (CONF == 13 || CONF == 14 || CONF == 16)

#define INPLACE (CONF == 7 || CONF == 8 || CONF == 15 || CONF == 16)
#if CONF == 0
using R0 = om::default_registry;
#define R0A
#elif CONF == 1 || CONF == 7
struct R0 : om::registry<po::std_rtti, po::vptr_vector, po::fast_perfect_hash, po::throw_error_handler, po::runtime_checks> {};
#elif CONF == 2
struct R0 : om::registry<po::std_rtti, po::vptr_vector, po::fast_perfect_hash, po::throw_error_handler, po::indirect_vptr> {};
#elif CONF == 8
struct R0 : om::registry<po::std_rtti, po::vptr_vector, po::fast_perfect_hash, po::throw_error_handler, po::indirect_vptr, po::runtime_checks> {};
#elif CONF == 3
struct R0 : om::registry<po::std_rtti, po::vptr_map<>, po::throw_error_handler, po::runtime_checks> {};
#elif CONF == 4
struct R0 : om::registry<custom_rtti, po::vptr_vector, po::throw_error_handler, po::indirect_vptr> {};
#elif CONF == 5
struct R0 : om::registry<custom_rtti, po::vptr_map<boost::mp11::mp_quote<std::map>>, po::throw_error_handler> {};
#elif CONF == 6
struct R0 : om::registry<deferred_rtti, po::vptr_map<>, po::throw_error_handler, po::indirect_vptr, po::runtime_checks> {};
#elif CONF == 9
struct R0 : om::registry<deferred_rtti, po::vptr_vector, po::throw_error_handler> {};
#elif CONF == 10 // built with the registry's own tools
struct R0 : om::default_registry::with<po::vptr_map<>, po::throw_error_handler>::without<po::type_hash> {};
#elif CONF == 12 // classes that are not polymorphic for the compiler
struct R0 : om::registry<custom_rtti, po::vptr_vector, po::throw_error_handler, po::runtime_checks> {};
#elif CONF == 13
struct R0 : om::registry<static_rtti_plus, po::throw_error_handler> {};
#elif CONF == 14
struct R0 : om::registry<static_rtti_plus, po::throw_error_handler, po::indirect_vptr, po::runtime_checks> {};
#elif CONF == 15 // v-table pointers in the objects only
struct R0 : om::registry<custom_rtti, po::throw_error_handler, po::runtime_checks> {};
#elif CONF == 16
struct R0 : om::registry<static_rtti_plus, po::throw_error_handler, po::indirect_vptr> {};
#elif CONF == 11
struct R0 : om::indirect_registry::with<po::throw_error_handler> {};
#endif
#ifndef R0A
#define R0A , R0
#endif
struct R1 : om::registry<po::std_rtti, po::vptr_vector, po::fast_perfect_hash, po::stderr_output, po::throw_error_handler, po::runtime_checks> {};
#define R1A , R1

// ---- the log
inline std::string& LOG() { static std::string* s = new std::string; return *s; }
inline void lg(const std::string& s) { LOG() += s; }
inline bool g_next, g_force;
inline int g_throw = -1; // overrider (1000 * method + index) that throws
struct Boom { int id; };
inline int live; // class subobjects alive
inline int class_copies;

// ---- objects known by address
inline std::map<std::pair<int, const void*>, std::string>& places() { static auto* m = new std::map<std::pair<int, const void*>, std::string>; return *m; }
inline std::vector<std::pair<int, const void*>>& temps() { static auto* v = new std::vector<std::pair<int, const void*>>; return *v; }
inline void place(int k, const void* p, const char* name) {
    places()[{k, p}] = name;
    if (name[0] == 'u') temps().push_back({k, p});
}
template<class T> std::string show_obj(const T& o) {
    auto it = places().find({std::remove_cv_t<T>::K, static_cast<const void*>(&o)});
    std::string s = it == places().end() ? std::string("?") : it->second;
    s += "@" + std::to_string(std::remove_cv_t<T>::K) + "#" + std::to_string(o.cls());
    if (!o.ok()) s += "!corrupt";
    return s;
}
inline std::map<const void*, std::string>& names() { static auto* m = new std::map<const void*, std::string>; return *m; }
inline std::string name_of(const void* p) { auto it = names().find(p); return it == names().end() ? "?" : it->second; }

template<class R> om::vptr_type static_vptr_of(int k); // generated
template<class R, class P> std::string show_vp(const P& p) {
    return show_obj(*p) + (p.vptr() == static_vptr_of<R>((*p).cls()) ? "v" : "!vptr");
}
template<class T, class D> T& up(D& d) { return d; }
template<class T, class D> const T& cup(D& d) { return d; }

// ---- non-virtual values
struct Tracked {
    int v, copies = 0;
    explicit Tracked(int v) : v(v) {}
    Tracked(const Tracked& o) : v(o.v), copies(o.copies + 1) {}
    Tracked(Tracked&& o) noexcept : v(o.v), copies(o.copies) { o.v = -1; }
    Tracked& operator=(const Tracked&) = delete;
};
struct Big { long v[12]; explicit Big(int x) { for (int i = 0; i < 12; ++i) v[i] = x * 100 + i; } bool ok() const { for (int i = 0; i < 12; ++i) if (v[i] != v[0] + i) return false; return v[0] % 100 == 0; } };
inline std::string sh(int v) { return std::to_string(v); }
inline std::string sh(const std::string& s) { return "\"" + s + "\""; }
inline std::string sh(const char* s) { return std::string("'") + s + "'"; }
inline std::string sh(double v) { return std::to_string(v).substr(0, 6); }
inline std::string sh(char v) { return std::string("c") + v; }
inline std::string sh(const Big& b) { return "B" + std::to_string(b.v[0] / 100) + (b.ok() ? "" : "!"); }
inline std::string sh(const Tracked& t) { return "T" + std::to_string(t.v) + "c" + std::to_string(t.copies); }
template<class T> std::string sh(const std::unique_ptr<T>& p) { return p ? "U" + std::to_string(*p) : "Unull"; }
template<class T> std::string sh(const std::shared_ptr<T>& p) { return p ? "S" + std::to_string(*p) : "Snull"; }
inline int fp_a(int x) { return x + 1; }
inline int fp_b(int x) { return x + 2; }
inline std::string sh(int (*f)(int)) { return f == fp_a ? "fa" : f == fp_b ? "fb" : "f?"; }
template<class T> std::string shr(const T& t) { return name_of(&t) + "=" + sh(t); }
template<class T> std::string same(const T& t) { auto i = names().find(&t); return i == names().end() ? "" : "=" + std::string(i->second); }
struct Named { template<class T> Named(T& t, const char* n) : p(&t) { names()[p] = n; } ~Named() { names().erase(p); } const void* p; };
template<class T> struct NamedGlobal { T t; NamedGlobal(T x, const char* n) : t(std::move(x)) { names()[&t] = n; } };

// ---- calls
inline int calls_checked;
// what ran, in order: overriders, errors, has_next signs
inline std::vector<std::string> events(const std::string& l) {
    std::vector<std::string> ev;
    for (std::size_t i = 0; i < l.size(); ++i) {
        if (isdigit(l[i])) {
            std::size_t j = i;
            while (j < l.size() && (isdigit(l[j]) || l[j] == '.')) ++j;
            if (j < l.size() && l[j] == '(' && l.substr(i, j - i).find('.') != std::string::npos && (!i || strchr(">,+-!", l[i - 1]))) ev.push_back(l.substr(i, j - i));
            i = j - 1;
        } else if (l.compare(i, 2, "E:") == 0) {
            std::size_t j = l.find(']', i);
            ev.push_back(l.substr(i, j == std::string::npos ? j : j - i + 1));
            if (j == std::string::npos) break;
            i = j;
        } else if (l[i] == ')' && i + 1 < l.size() && (l[i + 1] == '+' || l[i + 1] == '-')) ev.push_back(std::string("has") + l[i + 1]);
    }
    return ev;
}
// which property a difference is about
inline const char* what_differs(const std::string& seen, const std::string& expected) {
    auto a = events(seen), b = events(expected);
    std::string a0 = a.empty() ? "" : a[0], b0 = b.empty() ? "" : b[0];
    if (a0 != b0) return b0.compare(0, 2, "E:") == 0 ? "bad" : "select";
    return a != b ? "next" : "args";
}
inline void check(const char* text, const char* expected) {
    ++calls_checked;
    count("calls");
    auto& l = LOG();
    if (class_copies) l += "!copied" + std::to_string(class_copies);
    class_copies = 0;
    distinct(std::hash<std::string>()(expected));
    if (l != expected) violation(what_differs(l, expected), "%s: observed %s, expected %s", text, l.c_str(), expected);
    if (strchr(expected, '>')) count("chained");
    if (strstr(expected, "E:")) count("errors");
    if (calls_checked % 37 == 5) sample(std::string(text) + " => " + expected);
    l.clear();
    for (auto& t : temps()) places().erase(t);
    temps().clear();
}
template<class F> void run(const char* text, const char* expected, bool next, bool force, int thrower, int* uses, F f) {
    g_next = next; g_force = force; g_throw = thrower;
    int before = live;
    extern int class_index(om::type_id); extern std::string method_name(om::type_id);
    auto err = [&](const char* what, const om::bad_call& e) {
        lg(std::string("E:") + what + ":" + method_name(e.method) + "[");
        for (std::size_t i = 0; i < e.arity && i < om::bad_call::max_types; ++i) lg((i ? "," : "") + std::to_string(class_index(e.types[i])));
        lg("]");
    };
    try { f(); }
    catch (Boom& b) { lg("X" + std::to_string(b.id)); }
    catch (om::no_overrider& e) { err("none", e); }
    catch (om::ambiguous_call& e) { err("ambig", e); }
    catch (om::openmethod_error& e) { lg(std::string("E:") + typeid(e).name()); }
    (void)uses;
    if (live != before) lg("!live" + std::to_string(live - before));
    check(text, expected);
}
// handles to temporaries whose address is noted
template<class P> P noted(P p);
