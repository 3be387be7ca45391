// User-written policies that watch how the library uses them: who is told what
// about the classes, when, how often, and whether lookups come only in between.
#pragma once
#include "engine.hpp"

struct SpyClass { std::vector<type_id> ids; const om::vptr_type* ref; om::vptr_type at_init; };
struct SpyState {
    int inits = 0, finals = 0;
    bool ready = false;
    std::vector<SpyClass> classes;
    bool n2216 = false, trace = false, trace_on = false;
    std::size_t options = 0;
    u64 lookups = 0;
    const char* fault = nullptr;
    void note(const char* f) { if (!fault) fault = f; }
};
template<class Tag, int K> SpyState& spy() { static SpyState s; return s; } // K: 0 vptr, 1 hash
inline Rng& spy_rng() { static Rng g(1); return g; }

template<class O> void spy_option(SpyState&, const O&) {}
inline void spy_option(SpyState& s, const om::n2216&) { s.n2216 = true; }
inline void spy_option(SpyState& s, const om::trace& t) { s.trace = true; s.trace_on = t.on; }

template<class Context, class... O> void spy_initialize(SpyState& s, const Context& ctx, const std::tuple<O...>& options) {
    ++s.inits;
    s.classes.clear();
    for (auto i = ctx.classes_begin(); i != ctx.classes_end(); ++i) {
        SpyClass c;
        for (auto t = i->type_id_begin(); t != i->type_id_end(); ++t) c.ids.push_back(*t);
        const om::vptr_type& v = i->vptr();
        c.ref = &v;
        c.at_init = v;
        s.classes.push_back(c);
    }
    // forward iterators: a second look shows the same
    std::size_t n = 0;
    for (auto i = ctx.classes_begin(); i != ctx.classes_end(); ++i, ++n) {
        std::size_t k = 0;
        if (n < s.classes.size()) for (auto t = i->type_id_begin(); t != i->type_id_end(); ++t, ++k)
            if (k >= s.classes[n].ids.size() || s.classes[n].ids[k] != *t) s.note("a second pass over the context shows other type ids");
        if (n >= s.classes.size() || k != s.classes[n].ids.size() || &i->vptr() != s.classes[n].ref) s.note("a second pass over the context shows other classes");
    }
    s.n2216 = s.trace = s.trace_on = false;
    s.options = sizeof...(O);
    std::apply([&](const auto&... o) { (spy_option(s, o), ...); }, options);
    s.ready = true;
}
template<class Registry> void spy_looked(const Obj& o, const char* what) {
    Log& l = thelog<Registry>();
    for (int i = 0; i < l.nobj; ++i) if (l.objs[i] == &o) return;
    l.fault = what;
}

template<class Tag, bool Fin> struct spy_vptr : pol::vptr {
    template<class Registry> struct fn_base {
        inline static std::map<type_id, const om::vptr_type*> refs;
        inline static std::map<type_id, om::vptr_type> values;
        template<class Context, class... O> static void initialize(const Context& ctx, const std::tuple<O...>& options) {
            auto& s = spy<Tag, 0>();
            spy_initialize(s, ctx, options);
            refs.clear(); values.clear();
            for (auto& c : s.classes) for (auto t : c.ids) { refs[t] = c.ref; values[t] = c.at_init; }
        }
        template<class C> static const om::vptr_type& dynamic_vptr(const C& o) {
            static const om::vptr_type null = nullptr;
            auto& s = spy<Tag, 0>();
            ++s.lookups;
            if (!s.ready) { thelog<Registry>().fault = "dynamic_vptr called outside of initialize .. finalize"; return null; }
            if constexpr (std::is_same_v<C, Obj>) spy_looked<Registry>(o, "dynamic_vptr called for something that is not an argument");
            auto t = Registry::rtti::dynamic_type(o);
            auto i = refs.find(t);
            if (i == refs.end()) { thelog<Registry>().fault = "the class of an object was not in the context given to the vptr policy"; return null; }
            if constexpr (Registry::has_indirect_vptr) return *i->second;
            else return values[t];
        }
    };
    template<class Registry, bool> struct fn_fin : fn_base<Registry> {};
    template<class Registry> struct fn_fin<Registry, true> : fn_base<Registry> {
        template<class... O> static void finalize(const std::tuple<O...>&) {
            auto& s = spy<Tag, 0>();
            ++s.finals; s.ready = false; s.options = sizeof...(O);
            fn_base<Registry>::refs.clear(); fn_base<Registry>::values.clear();
        }
    };
    template<class Registry> struct fn : fn_fin<Registry, Fin> {};
};

// Any injective function into an announced range is a valid hash.
template<class Tag, bool Fin> struct spy_hash : pol::type_hash {
    template<class Registry> struct fn_base {
        inline static std::map<type_id, std::size_t> index;
        inline static std::size_t lo = 0, hi = 0;
        template<class Context, class... O> static std::pair<std::size_t, std::size_t> initialize(const Context& ctx, const std::tuple<O...>& options) {
            auto& s = spy<Tag, 1>();
            spy_initialize(s, ctx, options);
            index.clear();
            std::size_t n = 0;
            for (auto& c : s.classes) n += c.ids.size();
            auto& g = spy_rng();
            lo = chance(g, 40) ? 0 : std::size_t(rnd(g, 3000));
            hi = lo + std::max<std::size_t>(n, 1) - 1 + (chance(g, 50) ? 0 : std::size_t(rnd(g, 500)));
            std::vector<std::size_t> free;
            for (auto k = lo; k <= hi; ++k) free.push_back(k);
            for (std::size_t k = free.size(); k > 1; --k) std::swap(free[k - 1], free[std::size_t(rnd(g, int(k)))]);
            std::size_t k = 0;
            for (auto& c : s.classes) for (auto t : c.ids) if (!index.count(t)) index[t] = free[k++];
            return {lo, hi};
        }
        static std::size_t hash(type_id t) {
            auto& s = spy<Tag, 1>();
            ++s.lookups;
            if (!s.ready) { s.note("hash called outside of initialize .. finalize"); thelog<Registry>().fault = "hash called outside of initialize .. finalize"; return 0; }
            auto i = index.find(t);
            if (i == index.end()) { s.note("hash called for an id that is not registered"); thelog<Registry>().fault = "hash called for an id that was not in the context"; return lo; }
            return i->second;
        }
    };
    template<class Registry, bool> struct fn_fin : fn_base<Registry> {};
    template<class Registry> struct fn_fin<Registry, true> : fn_base<Registry> {
        template<class... O> static void finalize(const std::tuple<O...>&) {
            auto& s = spy<Tag, 1>();
            ++s.finals; s.ready = false; s.options = sizeof...(O);
            fn_base<Registry>::index.clear();
        }
    };
    template<class Registry> struct fn : fn_fin<Registry, Fin> {};
};
