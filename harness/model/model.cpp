#ifndef VARIANT
#define VARIANT 1
#endif
#include "runner.hpp"
#include "forked.hpp"
#include "spy.hpp"
#include <fstream>
#include <iostream>

struct TagA; struct TagB;
using om::trace;
template<class Tag> struct variants {
    using base0 = om::registry<rt_rtti<Tag>, pol::vptr_vector, mem_output<Tag>, rec_error_handler>;
    using base1 = om::registry<rt_rtti<Tag>, pol::vptr_vector, pol::fast_perfect_hash, pol::runtime_checks, mem_output<Tag>, rec_error_handler>;
    using base2 = om::registry<rt_rtti<Tag>, pol::vptr_vector, pol::fast_perfect_hash, pol::indirect_vptr, mem_output<Tag>, rec_error_handler>;
    using base3 = om::registry<rt_rtti<Tag>, pol::vptr_map<>, pol::runtime_checks, mem_output<Tag>, rec_error_handler>;
    using base4 = om::registry<rt_rtti<Tag>, pol::vptr_map<boost::mp11::mp_quote<std::map>>, pol::indirect_vptr, mem_output<Tag>, rec_error_handler>;
    using base5 = om::registry<rt_rtti<Tag>, pol::vptr_vector, pol::indirect_vptr, pol::runtime_checks, mem_output<Tag>, rec_error_handler>;
    // user-written vptr and type_hash policies, with and without `finalize`
    using base6 = om::registry<rt_rtti<Tag>, pol::vptr_vector, spy_hash<Tag, true>, pol::runtime_checks, mem_output<Tag>, rec_error_handler>;
    using base7 = om::registry<rt_rtti<Tag>, spy_vptr<Tag, true>, mem_output<Tag>, rec_error_handler>;
    using base8 = om::registry<rt_rtti<Tag>, spy_vptr<Tag, false>, pol::indirect_vptr, pol::runtime_checks, mem_output<Tag>, rec_error_handler>;
    using base9 = om::registry<spy_hash<Tag, false>, pol::indirect_vptr, rec_error_handler, mem_output<Tag>, pol::vptr_vector, rt_rtti<Tag>>;
};
#define CAT2(a, b) a##b
#define CAT(a, b) CAT2(a, b)
struct RegA : variants<TagA>::CAT(base, VARIANT) {};
struct RegB : variants<TagB>::CAT(base, VARIANT) {};
template<> struct base_of<RegA> { using type = variants<TagA>::CAT(base, VARIANT); };
template<> struct base_of<RegB> { using type = variants<TagB>::CAT(base, VARIANT); };
constexpr bool SMALL_IDS = VARIANT == 0 || VARIANT == 5;
constexpr bool HASHED = VARIANT == 1 || VARIANT == 2;
constexpr bool CHECKED = RegA::has_runtime_checks;

using RA = Runner<RegA, TagA>;

static void seed_case(Rng& g, u64 seed, u64 stream) { std::seed_seq s{u64(seed), u64(stream), u64(seed >> 32)}; g.seed(s); }

static int nslotk(int s) { return slot_k(s); }

template<class Run> static bool prepare(Run& r, Rng& g, Rng& gid, const GenOpt& opt, int alias) {
    for (int k = 0; k < 10; ++k) {
        r.p = gen_model(g, Run::shapes(), opt);
        r.recs = gen_recs(g, r.p, NSLOT, nslotk, opt.noisy_recs);
        if (!r.recs.empty()) break;
    }
    if (r.recs.empty()) return false;
    r.make_ids(gid, Run::pick_style(gid, SMALL_IDS), alias);
    r.identity_perm();
    r.bind(gid);
    return true;
}

static void lattice_stats(const Model& p) {
    int mi = 0, edges = 0;
    for (auto& b : p.bases) { mi += b.size() > 1; edges += int(b.size()); }
    stats().add("classes", p.n);
    stats().add("mi_classes", mi);
    stats().add("edges", edges);
    if (p.n > 5 && mi) {
        std::string d;
        for (int c = 0; c < p.n; ++c) { d += "C" + std::to_string(c) + ":"; for (int b : p.bases[c]) d += " C" + std::to_string(b); d += "; "; }
        for (auto& m : p.m) if (m.active && m.ar == 2 && m.ov.size() == 3) {
            d += "method(C" + std::to_string(m.vp[0]) + ",C" + std::to_string(m.vp[1]) + ") overriders";
            for (auto& o : m.ov) d += " (C" + std::to_string(o.vp[0]) + ",C" + std::to_string(o.vp[1]) + ")";
            d += "; ";
        }
        sample("seed " + std::to_string(cur_seed()) + ": " + d);
    }
}

struct Args {
    std::string mode = "select", out;
    u64 seed = 1, cases = 200;
    long one = -1;
    double seconds = 1e9;
    bool big = false;
};

static GenOpt gen_opt(const Args& a, Rng& g) {
    GenOpt o;
#ifdef WIDE_ENGINE
    if (!HASHED && chance(g, 40)) { o.min_cls = 60; o.max_cls = 110; }
    else { o.min_cls = 4; o.max_cls = 30; }
    return o;
#endif
    if (a.big && chance(g, 40)) { o.min_cls = 10; o.max_cls = HASHED ? 26 : 45; }
    else if (chance(g, 25)) o.max_cls = 6;
    return o;
}
static int cap(const Args& a) { return a.big ? 400 : 120; }

// select / bad / next / report / n2216 : observe against the model
static void case_core(const Args& a, Rng& g, Rng& gid) {
    RA r;
    bool alias = a.mode == "alias";
    if (!prepare(r, g, gid, gen_opt(a, g), alias ? 3 : 1)) return;
    lattice_stats(r.p);
    r.create();
    bool n22 = a.mode == "n2216" || (a.mode == "report" && chance(gid, 40));
    const om::n2216 opt{};
    int rc = !n22 ? r.init() : chance(g, 50) ? r.init(opt) : r.init(om::n2216());
    auto& l = thelog<RA::Base>();
    if (rc) {
        if (l.err.kind == E_SEARCH) { stats().add("hash_not_found"); r.judge_search_error(l.err); }
        else {
            stats().add("init_failed");
            violation("init", "error kind %d reported for consistent registrations: %s", l.err.kind, r.describe().c_str());
        }
        r.destroy(g);
        return;
    }
    stats().add("initializations");
    Rng gc(g());
    if (a.mode == "report") r.judge_report(n22);
    if (a.mode == "init") stats().distinct.insert(mix(r.recs.size(), r.p.n));
    if (a.mode == "select") r.judge_calls(gc, RA::W_SELECT, cap(a));
    if (a.mode == "bad") r.judge_calls(gc, RA::W_BAD | RA::W_SELECT, cap(a));
    if (a.mode == "next") { r.judge_calls(gc, RA::W_NEXT, cap(a)); r.judge_named(gc); }
    if (a.mode == "n2216") r.judge_calls(gc, RA::W_N2216 | RA::W_NEXT, cap(a));
    if (alias) { r.judge_report(); r.judge_calls(gc, RA::W_SELECT | RA::W_BAD | RA::W_NEXT, cap(a)); }
    if (chance(g, 30)) om::finalize<RegA>();
    r.destroy(g);
}


// ------------------------------------------------------------------ C04
// The same program registered in several orders and groupings, each in a
// process of its own; all must behave alike.
static void compare(const char* tag, const Outcome& x, const Outcome& y, const std::string& ctx) {
    if (x.crashed || y.crashed) violation("ub", "%s: %s", x.crashed ? x.crash.c_str() : y.crash.c_str(), ctx.c_str());
    if (x.crashed && y.crashed) { stats().add("inconclusive_crashes"); return; }
    if (x.crashed || y.crashed) { violation(tag, "%s: %s", x.crashed ? x.crash.c_str() : y.crash.c_str(), ctx.c_str()); return; }
    if (x.rc != y.rc) { violation(tag, "initialize gives %d (error kind %d) and %d (error kind %d): %s", x.rc, x.errkind, y.rc, y.errkind, ctx.c_str()); return; }
    if (x.b.h == y.b.h) return;
    for (std::size_t i = 0; i < x.b.h.size() && i < y.b.h.size(); ++i)
        if (x.b.h[i] != y.b.h[i]) {
            violation(tag, "[%s] versus [%s]: %s", i < x.b.what.size() ? x.b.what[i].c_str() : "?", i < y.b.what.size() ? y.b.what[i].c_str() : "?", ctx.c_str());
            return;
        }
    violation(tag, "different number of possible calls: %zu, %zu: %s", x.b.h.size(), y.b.h.size(), ctx.c_str());
}

static void case_order(const Args& a, Rng& g, Rng& gid) {
    GenOpt opt = gen_opt(a, g);
    RA r;
    for (int k = 0; k < 10 && r.recs.empty(); ++k) {
        r.p = gen_model(g, RA::shapes(), opt);
        r.recs = gen_recs(g, r.p, NSLOT, nslotk, false);
    }
    if (r.recs.empty()) return;
    lattice_stats(r.p);
    r.make_ids(gid, RA::pick_style(gid, SMALL_IDS), 1);
    u64 seed = g();
    int variants = a.big ? 6 : 4;
    std::vector<Outcome> res;
    for (int v = 0; v < variants; ++v) {
        RA q = r;
        Rng gv(mix(seed, u64(v)));
        if (v) {
            auto recs = gen_recs(gv, q.p, NSLOT, nslotk, v != 1);
            if (!recs.empty()) q.recs = recs; else shuffle(gv, q.recs);
        }
        q.identity_perm();
        if (v) q.permute(gv);
        res.push_back(forked([&] {
            q.bind(gv);
            q.create();
            Outcome o;
            o.rc = q.init();
            if (o.rc) o.errkind = thelog<RA::Base>().err.kind;
            else o.set(q.behaviour(seed, a.big ? 120 : 40, true, true));
            return o;
        }));
        stats().add("orders");
    }
    u64 h = r.p.n;
    for (auto x : res[0].b.h) h = mix(h, x);
    stats().distinct.insert(h);
    stats().add("compared_calls", res[0].b.h.size() * u64(variants - 1));
    for (int v = 1; v < variants; ++v)
        compare("order", res[0], res[v], "order 0 and order " + std::to_string(v) + " of " + r.describe());
}

// ------------------------------------------------------------------ C05 C26
// An arbitrary past versus a fresh process.
template<class... O> static int init_some(RA& r, Rng& h) {
    switch (rnd(h, 5)) {
    case 0: return r.init(trace(true));
    case 1: return r.init(om::n2216());
    case 2: return r.init(om::n2216(), trace(false));
    default: return r.init();
    }
}
static void play(const RA& r, u64 seed, int cap) { RA q = r; (void)q.behaviour(seed, cap, false, false); }

// Make the registrations inconsistent; returns what initialize may report.
struct Expect { std::set<type_id> missing; std::set<std::pair<type_id, type_id>> edges; };
static bool make_broken(RA& r, Rng& g, Expect& e, bool collect) {
    // r has p, ids; changes recs.  Leaves the tables bound.
    Model& p = r.p;
    std::set<int> skip;
    Model reg = p; // registered relation
    int kind = rnd(g, 3);
    if (kind != 1) {
        // classes used by methods
        int n = 1 + rnd(g, 2);
        while (n--) {
            std::vector<int> used;
            for (int m = 0; m < NMETH; ++m) if (p.m[m].active) {
                for (int i = 0; i < SHAPES[m].arity; ++i) {
                    used.push_back(p.m[m].vp[i]);
                    for (auto& o : p.m[m].ov) used.push_back(o.vp[i]);
                }
                if (p.m[m].ret >= 0) for (auto& o : p.m[m].ov) used.push_back(o.ret);
            }
            if (used.empty()) used.push_back(p.n - 1);
            skip.insert(used[rnd(g, int(used.size()))]);
        }
    }
    if (kind != 0) {
        std::vector<std::pair<int, int>> cand;
        for (int m = 0; m < NMETH; ++m) if (p.m[m].active)
            for (auto& o : p.m[m].ov) for (int i = 0; i < SHAPES[m].arity; ++i)
                if (o.vp[i] != p.m[m].vp[i]) cand.push_back({p.m[m].vp[i], o.vp[i]});
        if (!cand.empty()) {
            auto c = cand[rnd(g, int(cand.size()))];
            // cut every path from c.second up to c.first, at its direct bases
            for (int d = 0; d < p.n; ++d) {
                if (!reg.is_a(c.second, d)) continue;
                auto& b = reg.bases[d];
                if (chance(g, 50) || d == c.second)
                    b.erase(std::remove_if(b.begin(), b.end(), [&](int x) { return p.is_a(x, c.first); }), b.end());
            }
            reg.close();
        }
    }
    r.recs = gen_recs(g, reg, NSLOT, nslotk, false, skip);
    if (r.recs.empty()) return false;
    // what is registered, by whatever means
    std::set<int> known;
    for (auto& rec : r.recs) { known.insert(rec.cls); for (int b : rec.bases) known.insert(b); }
    Model rel = p;
    for (auto& b : rel.bases) b.clear();
    for (auto& rec : r.recs) for (int b : rec.bases) if (b != rec.cls) rel.bases[rec.cls].push_back(b);
    rel.close();
    r.identity_perm();
    r.bind(g);
    if (!collect) return true;
    auto all = [&](int c) { for (auto i : r.ids[c]) e.missing.insert(i); };
    auto edge = [&](int b, int d) { for (auto i : r.ids[b]) for (auto j : r.ids[d]) e.edges.insert({i, j}); };
    for (int m = 0; m < NMETH; ++m) {
        auto& mm = p.m[m];
        for (int i = 0; i < SHAPES[m].arity; ++i) {
            if (!known.count(mm.vp[i])) all(mm.vp[i]);
            for (auto& o : mm.ov) {
                if (!known.count(o.vp[i])) all(o.vp[i]);
                else if (known.count(mm.vp[i]) && !rel.is_a(o.vp[i], mm.vp[i])) edge(mm.vp[i], o.vp[i]);
            }
        }
        if (SHAPES[m].cls_ret && known.count(mm.ret))
            for (auto& o : mm.ov) if (!known.count(o.ret)) all(o.ret);
    }
    return true;
}

// A random past, in this process.  `r` is the program to come.
static void past(RA& r, Rng& h, u64 seed, bool failing_only) {
    int steps = 1 + rnd(h, failing_only ? 2 : 4);
    for (int s = 0; s < steps; ++s) {
        int what = failing_only ? 2 + rnd(h, 2) : rnd(h, 6);
        if (what <= 1) { // another program altogether
            RA q;
            Rng g2(h()), gid2(h());
            GenOpt o;
            if (!prepare(q, g2, gid2, o, 1)) continue;
            q.create();
            if (init_some(q, h) == 0) play(q, seed, 6);
            if (chance(h, 30)) { if (q.init() == 0) play(q, seed, 4); }
            if (chance(h, 40)) om::finalize<RegA>();
            q.destroy(h);
            stats().add("past_programs");
        } else if (what == 2) { // inconsistent registrations of the same program
            RA q = r;
            Rng g2(h());
            Expect e;
            if (!make_broken(q, g2, e, false)) continue;
            q.create();
            int rc = init_some(q, h);
            stats().add(rc ? "past_failures" : "past_successes");
            if (chance(h, 20)) om::finalize<RegA>();
            q.destroy(h);
        } else if (what == 3) { // part of the program, completed later
            r.bind(h);
            for (auto& rec : r.recs) if (!*RA::E::slots()[rec.slot].live && chance(h, 60)) RA::E::slots()[rec.slot].create();
            int rc = init_some(r, h);
            stats().add(rc ? "past_failures" : "past_successes");
            if (chance(h, 50)) { // remove some again
                for (auto& rec : r.recs) if (*RA::E::slots()[rec.slot].live && chance(h, 60)) RA::E::slots()[rec.slot].destroy();
                stats().add("past_removals");
            }
        } else if (what == 4) {
            om::finalize<RegA>();
            if (chance(h, 30)) om::finalize<RegA>();
            stats().add("past_finalize");
        } else { // the program itself, possibly several times
            r.bind(h);
            for (auto& rec : r.recs) if (!*RA::E::slots()[rec.slot].live) RA::E::slots()[rec.slot].create();
            for (int k = 1 + rnd(h, 3); k--;) if (init_some(r, h) == 0) play(r, seed, 6);
            if (chance(h, 30)) om::finalize<RegA>();
            stats().add("past_reinit");
        }
        // other programs may not use the same slots at the same time
        if (s + 1 < steps)
            for (int k = 0; k < NSLOT; ++k) if (*RA::E::slots()[k].live) RA::E::slots()[k].destroy();
    }
}

static void case_history(const Args& a, Rng& g, Rng& gid) {
    bool retry = a.mode == "retry";
    const char* tag = retry ? "retry" : "history";
    RA r;
    if (!prepare(r, g, gid, gen_opt(a, g), 1)) return;
    lattice_stats(r.p);
    u64 seed = g(), hs = g(), bs = g();
    bool n22 = chance(g, 20);
    auto final_part = [&](RA& q) {
        Rng gb(bs);
        q.bind(gb);
        for (auto& rec : q.recs) if (!*RA::E::slots()[rec.slot].live) RA::E::slots()[rec.slot].create();
        Outcome o;
        o.rc = n22 ? q.init(om::n2216()) : q.init();
        if (o.rc) o.errkind = thelog<RA::Base>().err.kind;
        else o.set(q.behaviour(seed, a.big ? 100 : 40, true, true));
        return o;
    };
    Outcome fresh = forked([&] { RA q = r; return final_part(q); });
    if (fresh.rc) { if (fresh.errkind != E_SEARCH) stats().add("init_failed"); return; }
    int n = a.big ? 4 : 2;
    for (int k = 0; k < n; ++k) {
        Outcome old = forked([&] {
            RA q = r;
            Rng h(mix(hs, u64(k)));
            past(q, h, seed, retry);
            return final_part(q);
        });
        stats().add("histories");
        u64 hh = 1;
        for (auto x : old.b.h) hh = mix(hh, x);
        for (auto& [key, v] : old.stats) hh = mix(hh, v);
        stats().distinct.insert(hh);
        stats().add("compared_calls", old.b.h.size());
        compare(tag, fresh, old, std::string("fresh and history ") + std::to_string(k) + " of " + r.describe());
    }
}

// ------------------------------------------------------------------ C08 (C26)
static bool not_initialized_everywhere(RA& r, Rng& g) {
    for (int m = 0; m < NMETH; ++m) {
        for (auto& t : r.tuples(g, m, 2)) {
            Obj store[MAXAR]; const Obj* o[MAXAR];
            if (!r.objects(g, t, SHAPES[m].arity, store, o)) continue;
            auto c = r.call(m, o, 1, false);
            stats().add("calls_not_initialized");
            if (!c.steps.empty() || c.err.kind != E_NOT_INIT || c.err_count != 1) return false;
        }
    }
    return true;
}
static void case_errors(const Args& a, Rng& g, Rng& gid) {
    RA r;
    if (!prepare(r, g, gid, gen_opt(a, g), chance(g, 20) ? 2 : 1)) return;
    Expect e;
    bool broken = chance(g, 75);
    if (broken) { if (!make_broken(r, g, e, true)) return; }
    r.create();
    om::finalize<RegA>();
    int rc = r.init();
    auto& l = thelog<RA::Base>();
    Err err = l.err;
    int count = l.err_count;
    auto ctx = [&] { std::string s = "registered:"; for (auto& rec : r.recs) { s += " [C" + std::to_string(rec.cls) + ":"; for (int b : rec.bases) s += " C" + std::to_string(b); s += "]"; } return s + " in " + r.describe(); };
    bool inconsistent = !e.missing.empty() || !e.edges.empty();
    stats().distinct.insert(mix(mix(e.missing.size(), e.edges.size()), mix(r.recs.size(), r.p.n)));
    if (a.mode == "errors") {
        if (!inconsistent) {
            stats().add("consistent");
            if (rc && err.kind == E_SEARCH) r.judge_search_error(err);
            if (rc && err.kind != E_SEARCH) violation("errors", "error kind %d (type %p) reported for consistent registrations: %s", err.kind, err.a, ctx().c_str());
        } else {
            stats().add(e.missing.empty() ? "missing_edge_sets" : e.edges.empty() ? "missing_class_sets" : "mixed_sets");
            if (!rc) violation("errors", "initialize accepts inconsistent registrations: %s", ctx().c_str());
            else if (count != 1) violation("content", "%d errors reported: %s", count, ctx().c_str());
            else if (err.kind == E_MISSING_CLASS) {
                stats().add("missing_class_errors");
                if (!e.missing.count(err.a)) violation("content", "missing_class names %p, which is %s: %s", err.a, r.cls_of.count(err.a) ? "a class that is registered or not needed" : "unknown", ctx().c_str());
            } else if (err.kind == E_MISSING_BASE) {
                stats().add("missing_base_errors");
                if (!e.edges.count({err.a, err.b})) {
                    auto ca = r.cls_of.count(err.a) ? r.cls_of[err.a] : -1, cb = r.cls_of.count(err.b) ? r.cls_of[err.b] : -1;
                    violation("content", "missing_base names base C%d and derived C%d: %s", ca, cb, ctx().c_str());
                }
            } else violation("errors", "error kind %d: %s", err.kind, ctx().c_str());
        }
    } else if (rc && CHECKED) { // C26: still reported as not initialized
        if (!not_initialized_everywhere(r, g)) violation("retry", "a call after a failed initialization is not reported as not-initialized: %s", ctx().c_str());
    }
    r.destroy(g);
}

// Initialization fails because the hash search does, then most registrations
// go away, and it works.
static void case_search_retry(const Args& a, Rng& g, Rng& gid) {
    RA r;
    GenOpt o = gen_opt(a, g);
    o.min_cls = 2; o.max_cls = 3;
    for (int k = 0; k < 10 && r.recs.empty(); ++k) {
        r.p = gen_model(g, RA::shapes(), o);
        r.recs = gen_recs(g, r.p, NSLOT, nslotk, false);
    }
    if (r.recs.empty()) return;
    r.make_ids(gid, RA::pick_style(gid, SMALL_IDS), 80);
    for (auto& v : r.ids) if (v.size() > 1 && chance(g, 30)) v.resize(1); // then all aliases come from the others
    r.identity_perm();
    RA few = r;
    // many ids for few classes, in the slots that are left
    std::set<int> used;
    for (auto& x : r.recs) used.insert(x.slot);
    for (int s = 0; s < NSLOT; ++s) if (!used.count(s)) {
        Rec rec{rnd(g, r.p.n), {}, s};
        for (int k = 0; k < slot_k(s); ++k) rec.bases.push_back(rec.cls);
        r.recs.push_back(rec);
    }
    u64 seed = g(), bs = g(), hs = g();
    auto final_part = [&](RA& q) {
        Rng gb(bs);
        q.bind(gb);
        for (auto& rec : q.recs) if (!*RA::E::slots()[rec.slot].live) RA::E::slots()[rec.slot].create();
        Outcome o;
        o.rc = q.init();
        if (o.rc) o.errkind = thelog<RA::Base>().err.kind;
        else o.set(q.behaviour(seed, 40, true, true));
        return o;
    };
    Outcome fresh = forked([&] { RA q = few; return final_part(q); });
    if (fresh.rc) return;
    Outcome old = forked([&] {
        Rng h(hs);
        RA q = r;
        Rng gb(bs);
        int before = rnd(h, 3);
        if (before) { // it has worked before
            RA w = few;
            w.bind(gb);
            for (auto& rec : w.recs) RA::E::slots()[rec.slot].create();
            if (init_some(w, h) == 0) play(w, seed, 4);
            if (before == 2) om::finalize<RegA>();
        }
        q.bind(h);
        for (auto& rec : q.recs) if (!*RA::E::slots()[rec.slot].live) RA::E::slots()[rec.slot].create();
        for (int k = 1 + rnd(h, 2); k--;) {
            int rc = init_some(q, h);
            if (!rc) { stats().add("search_found"); continue; }
            stats().add("search_errors");
            q.judge_search_error(thelog<RA::Base>().err);
            if (CHECKED && !not_initialized_everywhere(q, h)) violation("retry", "a call after a failed hash search is not reported as not-initialized: %s", q.describe().c_str());
        }
        std::set<int> keep;
        for (auto& rec : few.recs) keep.insert(rec.slot);
        for (auto& rec : q.recs) if (!keep.count(rec.slot) || chance(h, 30)) RA::E::slots()[rec.slot].destroy();
        RA w = few;
        return final_part(w);
    });
    stats().add("histories");
    stats().add("compared_calls", old.b.h.size());
    u64 hh = 7;
    for (auto x : old.b.h) hh = mix(hh, x);
    for (auto& [key, v] : old.stats) hh = mix(hh, v);
    stats().distinct.insert(hh);
    compare("retry", fresh, old, "fresh and after a failed hash search of " + few.describe());
}

// ------------------------------------------------------------------ C09 (in place)
static void case_hash(const Args& a, Rng& g, Rng& gid) {
    RA r;
    bool fail = HASHED && chance(g, 6);
    bool tight = HASHED && !fail && chance(g, 25);
    GenOpt o = gen_opt(a, g);
    if (fail) { o.min_cls = 1; o.max_cls = 2; }
    if (tight) { o.min_cls = 1; o.max_cls = 4; }
    for (int k = 0; k < 10 && r.recs.empty(); ++k) {
        r.p = gen_model(g, RA::shapes(), o);
        r.recs = gen_recs(g, r.p, NSLOT, nslotk, true);
    }
    if (r.recs.empty()) return;
    // Very many ids for very few classes: no multiplier works, or (tight) one
    // in some thousands does.
    const int target = tight ? 10 + rnd(g, 30) : 1 << 30;
    if (fail || tight) {
        std::set<int> used;
        int have = 0;
        for (auto& x : r.recs) { used.insert(x.slot); have += 1 + int(x.bases.size()); }
        for (int s = 0; s < NSLOT && have < target; ++s) if (!used.count(s)) {
            have += 1 + slot_k(s);
            Rec rec{rnd(g, r.p.n), {}, s};
            for (int k = 0; k < slot_k(s); ++k) rec.bases.push_back(rec.cls);
            r.recs.push_back(rec);
        }
    }
    r.make_ids(gid, RA::pick_style(gid, SMALL_IDS), fail || tight ? 80 : 1 + rnd(g, 3));
    r.identity_perm();
    r.bind(gid);
    r.create();
    om::finalize<RegA>();
    int rc = r.init();
    auto& l = thelog<RA::Base>();
    std::size_t nids = 0;
    for (auto& v : r.reg_ids) nids += v.size();
    stats().distinct.insert(mix(nids, mix(r.p.n, u64(rc))));
    if (rc) {
        stats().add("search_errors");
        if (!HASHED || l.err.kind != E_SEARCH) violation("hash", "initialize failed with error kind %d: %s", l.err.kind, r.describe().c_str());
        else {
            if (l.err_count != 1) violation("hash", "%d errors", l.err_count);
            r.judge_search_error(l.err);
            if (l.err.attempts == 0 || l.err.buckets == 0 || (l.err.buckets & (l.err.buckets - 1)))
                violation("hash", "search_error states %zu attempts and %zu buckets", l.err.attempts, l.err.buckets);
            // the traced search says how many buckets are tried
            auto& os = RegA::output::os;
            os.text.clear();
            r.init(trace(true));
            auto p1 = os.text.rfind("trying with M = ");
            auto p2 = p1 == std::string::npos ? p1 : os.text.find(", ", p1);
            if (p2 != std::string::npos) {
                std::size_t b = std::stoull(os.text.substr(p2 + 2));
                stats().add("buckets_cross_checked");
                if (b != l.err.buckets) violation("hash", "search_error states %zu buckets, %zu were tried last", l.err.buckets, b);
            }
            os.text.clear();
        }
        if (CHECKED && !not_initialized_everywhere(r, g)) violation("hash", "a call works after a failed hash search");
        r.destroy(g);
        return;
    }
    if (tight) { // how far the search had to go
        auto& os = RegA::output::os;
        os.text.clear();
        r.init(trace(true));
        auto p = os.text.find(" after ");
        if (p != std::string::npos && std::stoull(os.text.substr(p + 7)) % 100000 > 500) stats().add("hash_found_late");
        os.text.clear();
        stats().add("hash_tight_found");
    }
    // every registered id finds the v-table of its class, and no other does
    std::map<int, const void*> vt;
    Rng gc(g());
    r.judge_calls(gc, RA::W_SELECT, 30);
    for (auto& v : stats().viol) if (v.tag == "select") v.tag = "hash";
    if (CHECKED) {
        std::vector<u64> probes{0, 1, ~u64(0), ~u64(0) - 1, u64(1) << 63, 0x5555555555555555ull};
        for (auto& v : r.ids) for (auto i : v) for (u64 d : {1, 8, 16, 64}) { probes.push_back(u64(i) + d); probes.push_back(u64(i) - d); }
        for (auto& v : r.ids) for (auto i : v) probes.push_back(u64(i));
        for (int k = 0; k < 200; ++k) probes.push_back(SMALL_IDS && chance(g, 70) ? u64(rnd(g, 1500)) : gc());
        std::set<type_id> reg;
        for (auto& v : r.reg_ids) for (auto i : v) reg.insert(i);
        for (u64 x : probes) {
            auto id = reinterpret_cast<type_id>(x);
            if (reg.count(id)) continue;
            stats().add("foreign_ids");
            int m = rnd(gc, NMETH);
            int bad = rnd(gc, SHAPES[m].arity);
            Obj store[MAXAR]; const Obj* os[MAXAR]; std::array<int, MAXAR> t{};
            auto ts = r.tuples(gc, m, 1);
            if (ts.empty()) continue;
            t = ts[0];
            if (!r.objects(gc, t, SHAPES[m].arity, store, os)) continue;
            store[bad].tid = id;
            auto c = r.call(m, os, 1, false);
            if (!c.steps.empty()) violation("hash", "an object with unregistered type id %p reached an overrider", id);
            else if (c.err.kind != E_MISSING_CLASS || c.err.a != id || c.err_count != 1) violation("hash", "unregistered type id %p: error kind %d naming %p", id, c.err.kind, c.err.a);
        }
    }
    r.destroy(g);
}

// ------------------------------------------------------------------ C21
static void case_trace(const Args& a, Rng& g, Rng& gid) {
    RA r;
    if (!prepare(r, g, gid, gen_opt(a, g), 1)) return;
    u64 seed = g();
    struct Way { const char* name; int on; };
    static const Way ways[] = {{"no option", 0}, {"trace(false)", 0}, {"trace(true)", 1}, {"trace(true) lvalue", 1},
        {"from_env, unset", 0}, {"from_env, 1", 1}, {"from_env, 0", 0}, {"from_env, 11", 0}, {"from_env, empty", 0},
        {"from_env, true", 0}, {"trace(false) lvalue", 0}, {"from_env, ' 1'", 0}, {"from_env, 01", 0}, {"from_env, 1x", 0}, {"trace(true), n2216 second", 1}, {"n2216 first, trace(true)", 1}};
    Outcome ref, ref22;
    std::vector<int> pick{0, 1, 2};
    for (int k = 3; k < 14; ++k) if (chance(g, 35)) pick.push_back(k);
    bool n22 = chance(g, 30);
    if (n22) { pick.push_back(14); pick.push_back(15); }
    for (int w : pick) {
        Outcome o = forked([&] {
            RA q = r;
            q.create();
            auto& os = RegA::output::os;
            os.text.clear(); os.writes = 0;
            const char* var = "BOOST_OPENMETHOD_TRACE";
            unsetenv(var);
            Outcome o;
            trace on(true); const trace off(false);
            switch (w) {
            case 0: o.rc = q.init(); break;
            case 1: o.rc = q.init(trace(false)); break;
            case 2: o.rc = q.init(trace(true)); break;
            case 3: o.rc = q.init(on); break;
            case 4: o.rc = q.init(trace::from_env()); break;
            case 5: setenv(var, "1", 1); o.rc = q.init(trace::from_env()); break;
            case 6: setenv(var, "0", 1); o.rc = q.init(trace::from_env()); break;
            case 7: setenv(var, "11", 1); o.rc = q.init(trace::from_env()); break;
            case 8: setenv(var, "", 1); o.rc = q.init(trace::from_env()); break;
            case 9: setenv(var, "true", 1); o.rc = q.init(trace::from_env()); break;
            case 10: o.rc = q.init(off); break;
            case 11: setenv(var, " 1", 1); o.rc = q.init(trace::from_env()); break;
            case 12: setenv(var, "01", 1); o.rc = q.init(trace::from_env()); break;
            case 13: setenv(var, "1x", 1); o.rc = q.init(trace::from_env()); break;
            case 14: o.rc = q.init(on, om::n2216()); break;
            default: o.rc = q.init(om::n2216(), trace(true)); break;
            }
            if (o.rc) { o.errkind = thelog<RA::Base>().err.kind; return o; }
            auto way = [&](const char* what) { violation("trace", "%s with %s", what, ways[w].name); };
            stats().add("initializations");
            stats().add("trace_bytes", os.text.size());
            if (ways[w].on) {
                if (os.text.empty()) way("no output");
                auto mentioned = [&](type_id id) {
                    char b[40];
                    snprintf(b, sizeof b, "type_id(%lx)", (unsigned long)id);
                    stats().add("mentions");
                    return os.text.find(b) != std::string::npos;
                };
                for (auto& v : q.reg_ids) { bool any = v.empty(); for (auto i : v) any |= mentioned(i); if (!any) way("a registered class is not mentioned"); }
                for (auto i : RA::E::mids()) if (!mentioned(i)) way("a method is not mentioned");
            } else if (os.writes) way(("output \"" + os.text.substr(0, 60) + "\"").c_str());
            auto writes = os.writes;
            o.set(q.behaviour(seed, 40, true, true));
            if (os.writes != writes) way("output from calls after initialize");
            om::finalize<RegA>();
            q.destroy(g);
            return o;
        });
        stats().add("compared_calls", o.b.h.size());
        u64 h = u64(w);
        for (auto x : o.b.h) h = mix(h, x);
        stats().distinct.insert(h);
        if (w < 14) {
            if (w == 0) ref = o; else compare("trace", ref, o, std::string("no option and ") + ways[w].name + " in " + r.describe());
        } else if (w == 14) ref22 = o;
        else compare("trace", ref22, o, std::string("options in the other order in ") + r.describe());
    }
    if (n22) {
        Outcome o = forked([&] {
            RA q = r; q.create(); Outcome o;
            o.rc = q.init(om::n2216());
            if (!o.rc) o.set(q.behaviour(seed, 40, true, true));
            return o;
        });
        compare("trace", ref22, o, "n2216 with and without trace in " + r.describe());
    }
}

// ------------------------------------------------------------------ C10
static void case_policies(const Args& a, Rng& g, Rng& gid) {
    RA r;
    GenOpt o;
    if (chance(g, 25)) o.max_cls = 6;
    if (!prepare(r, g, gid, o, 1)) return;
    u64 seed = g();
    Outcome x = forked([&] { RA q = r; q.create(); Outcome o; o.rc = q.init(); if (!o.rc) o.set(q.behaviour(seed, 60, true, true)); return o; });
    u64 h = x.rc;
    for (auto v : x.b.h) h = mix(h, v);
    stats().add("compared_calls", x.b.h.size());
    stats().distinct.insert(h);
    if (x.crashed) violation("policies", "%s in %s", x.crash.c_str(), r.describe().c_str());
    else if (x.rc && x.errkind != E_SEARCH) violation("policies", "initialize reports error %d in %s", x.errkind, r.describe().c_str());
    else std::printf("DIGEST\t%llu\t%llx\n", (unsigned long long)cur_seed(), (unsigned long long)h);
    (void)a;
}

// ------------------------------------------------------------------ C23
// Repeated cycles must not accumulate memory.
extern "C" std::size_t __sanitizer_get_current_allocated_bytes() __attribute__((weak));
static void case_leak(const Args& a, Rng& g, Rng& gid) {
    Outcome o = forked([&] {
        Outcome o;
        RA r;
        if (!prepare(r, g, gid, gen_opt(a, g), 1)) return o;
        Expect e;
        RA bad = r;
        u64 bs = g(), seed = g();
        bool has_bad = make_broken(bad, g, e, false);
        std::size_t at3 = 0;
        for (int cycle = 0; cycle < 12; ++cycle) {
            {
                Rng gb(bs);
                if (has_bad) {
                    bad.bind(gb);
                    bad.create();
                    bad.init();
                    bad.destroy(gb);
                }
                r.bind(gb);
                r.create();
                r.init();
                r.init(om::n2216());
                if (r.init(trace(true)) == 0) play(r, seed, 4);
                RegA::output::os.text = std::string();
                om::finalize<RegA>();
                r.destroy(gb);
                thelog<RA::Base>().steps = {};
            }
            std::size_t now = __sanitizer_get_current_allocated_bytes ? __sanitizer_get_current_allocated_bytes() : 0;
            if (cycle == 3) at3 = now;
            if (cycle == 11) {
                stats().add("cycles", 12);
                stats().add("bytes_live", now);
                if (now > at3 + 256) violation("leak", "%zu bytes in use after 4 cycles, %zu after 12: %s", at3, now, r.describe().c_str());
            }
        }
        return o;
    });
    if (o.crashed) violation("leak", "%s", o.crash.c_str());
    stats().distinct.insert(o.stats["bytes_live"]);
}

#ifdef SMALL_ENGINE
// ------------------------------------------------------------------ C18
using RB = Runner<RegB, TagB>;
template<class Run, class Reg> struct Side {
    Run r;
    bool initialized = false, registered = false;
    u64 seed = 0;
    typename Run::Behaviour last;
    void obs() { last = initialized ? r.behaviour(seed, 12, true, true) : typename Run::Behaviour(); }
    void check(const char* name, const char* op) {
        if (!initialized) return;
        auto b = r.behaviour(seed, 12, true, true);
        stats().add("compared_calls", b.h.size());
        for (std::size_t i = 0; i < b.h.size() && i < last.h.size(); ++i)
            if (b.h[i] != last.h[i]) { violation("isolation", "after %s the other registry, %s, changed from [%s] to [%s]", op, name, last.what[i].c_str(), b.what[i].c_str()); return; }
        if (b.h.size() != last.h.size()) violation("isolation", "after %s the other registry, %s, has other calls", op, name);
    }
    const char* step(Rng& g) {
        int what = registered ? rnd(g, 8) : 0;
        switch (what) {
        case 0: case 1: {
            if (registered) r.destroy(g);
            Rng gid(g());
            registered = prepare(r, g, gid, GenOpt(), 1);
            if (!registered) { initialized = false; return "nothing"; }
            r.create();
            seed = g();
            int rc = r.init();
            initialized = rc == 0;
            obs();
            return "registering other classes and initialize";
        }
        case 2: { om::finalize<Reg>(); initialized = false; return "finalize"; }
        case 3: { int rc = r.init(); initialized = rc == 0; obs(); return "initialize"; }
        case 4: { int rc = r.init(om::n2216(), trace(true)); initialized = rc == 0; obs(); return "initialize with options"; }
        case 5: { // failure
            r.destroy(g);
            int rc = r.init();
            if (rc == 0) return "initialize without classes";
            om::finalize<Reg>();
            initialized = false;
            registered = false;
            return "a failed initialize";
        }
        case 6: { if (initialized) { Rng gc(g()); (void)r.behaviour(g(), 10, false, false); } return "calls"; }
        default: { r.destroy(g); registered = false; om::finalize<Reg>(); initialized = false; return "removal of all registrations"; }
        }
    }
};
static void case_isolation(const Args& a, Rng& g, Rng&) {
    Side<RA, RegA> A;
    Side<RB, RegB> B;
    A.step(g); B.step(g); A.obs(); B.obs();
    int n = a.big ? 30 : 12;
    u64 h = 0;
    for (int i = 0; i < n; ++i) {
        stats().add("operations");
        bool onA = chance(g, 50);
        auto errs = onA ? thelog<RB::Base>().err_count : thelog<RA::Base>().err_count;
        auto writes = onA ? RegB::output::os.writes : RegA::output::os.writes;
        const char* op = onA ? A.step(g) : B.step(g);
        if ((onA ? thelog<RB::Base>().err_count : thelog<RA::Base>().err_count) != errs) violation("isolation", "%s in one registry reported an error in the other", op);
        if ((onA ? RegB::output::os.writes : RegA::output::os.writes) != writes) violation("isolation", "%s in one registry wrote to the output of the other", op);
        if (onA) B.check("B", op); else A.check("A", op);
        h = mix(h, u64(op[0]) * 2 + onA);
    }
    stats().distinct.insert(mix(h, g()));
    if (A.registered) A.r.destroy(g);
    if (B.registered) B.r.destroy(g);
    om::finalize<RegA>();
    om::finalize<RegB>();
}
#endif

#if VARIANT >= 6
// ------------------------------------------------------------------ C29
// User-written policies: what they are told, and when they are used.
constexpr int SPY = VARIANT == 7 || VARIANT == 8 ? 0 : 1; // 0: vptr, 1: type_hash
constexpr bool SPY_FIN = VARIANT == 6 || VARIANT == 7;
static void judge_spy(RA& r, SpyState& s) {
    std::map<int, int> count;
    auto& where = r.recs;
    for (auto& c : s.classes) {
        stats().add("classes_told");
        if (c.ids.empty()) { violation("spy", "a class without type ids in the context: %s", r.describe().c_str()); continue; }
        std::set<type_id> ids(c.ids.begin(), c.ids.end());
        auto it = r.cls_of.find(c.ids[0]);
        if (it == r.cls_of.end()) { violation("spy", "an unknown type id in the context: %s", r.describe().c_str()); continue; }
        int k = it->second;
        ++count[k];
        if (ids.size() != c.ids.size()) violation("spy", "a type id of C%d appears twice in the context: %s", k, r.describe().c_str());
        if (ids != std::set<type_id>(r.reg_ids[k].begin(), r.reg_ids[k].end()))
            violation("spy", "C%d was registered with %zu type ids, the context has %zu%s: %s", k, r.reg_ids[k].size(), ids.size(), ids.size() == r.reg_ids[k].size() ? " others" : "", r.describe().c_str());
        // the v-table pointer: the one published for (a registration of) the class
        bool own = false, any = false;
        for (auto& q : where) {
            auto pub = RA::E::slots()[q.slot].published;
            if (q.cls == k) { any = true; own = own || pub(-1) == c.at_init; }
            for (int b = 0; b < slot_k(q.slot); ++b) // unused bases name the class itself
                if ((b < int(q.bases.size()) ? q.bases[b] : q.cls) == k) { any = true; own = own || pub(b) == c.at_init; }
        }
        if (!c.at_init) violation("spy", "the context has no v-table pointer for C%d: %s", k, r.describe().c_str());
        else if (any && !own) violation("spy", "the context has a v-table pointer for C%d which is not the published one: %s", k, r.describe().c_str());
        if (*c.ref != c.at_init) violation("spy", "the v-table pointer of C%d changed after the policy was initialized: %s", k, r.describe().c_str());
    }
    for (int k = 0; k < r.p.n; ++k) if (r.class_registered(k) && count[k] != 1)
        violation("spy", "C%d appears %d times in the context: %s", k, count[k], r.describe().c_str());
    for (auto& [k, n] : count) if (!r.class_registered(k)) violation("spy", "C%d, which is not registered, is in the context", k);
}
static void case_spy(const Args& a, Rng& g, Rng& gid) {
    auto& s = spy<TagA, SPY>();
    auto& l = thelog<RA::Base>();
    spy_rng().seed(g());
    std::vector<SpyClass> before;
    int rounds = 1 + rnd(g, 3);
    RA r;
    bool same = false;
    for (int k = 0; k < rounds; ++k) {
        if (!same) {
            if (k) r.destroy(g);
            r = RA();
            if (!prepare(r, g, gid, gen_opt(a, g), chance(g, 50) ? 3 : 1)) return;
            lattice_stats(r.p);
            auto asked = RA::Base::rtti::asked;
            r.create();
            if (RA::Base::rtti::asked != asked) violation("spy", "static_type was called while classes were registered, although the rtti policy is deferred");
            before.clear();
        }
        s.fault = nullptr;
        int inits = s.inits, finals = s.finals;
        int opt = rnd(g, 5);
        auto writes = RegA::output::os.writes;
        const om::trace off(false);
        int rc = opt == 0 ? r.init() : opt == 1 ? r.init(om::n2216()) : opt == 2 ? r.init(off) : opt == 3 ? r.init(om::trace(true), om::n2216()) : r.init(om::n2216(), om::trace(true));
        if (rc) { violation("spy", "error kind %d reported for consistent registrations: %s", l.err.kind, r.describe().c_str()); break; }
        stats().add("initializations");
        if (s.inits != inits + 1) violation("spy", "the policy was initialized %d times by one initialize", s.inits - inits);
        if (s.finals != finals) violation("spy", "the policy was finalized by initialize");
        if (s.fault) violation("spy", "%s: %s", s.fault, r.describe().c_str());
        bool n22 = opt == 1 || opt >= 3, tr = opt >= 2, on = opt >= 3;
        if (s.n2216 != n22 || s.trace != tr || s.trace_on != on || s.options != std::size_t(n22) + tr)
            violation("spy", "the policy received other options than initialize: %zu options, n2216 %d, trace %d on %d", s.options, s.n2216, s.trace, s.trace_on);
        if (!on && RegA::output::os.writes != writes) violation("spy", "output without trace");
        judge_spy(r, s);
        for (auto& c : before) { // references stay good with indirect v-table pointers
            if (!RegA::has_indirect_vptr) break;
            stats().add("kept_references");
            for (auto& d : s.classes) if (d.ids[0] == c.ids[0] && *c.ref != d.at_init)
                violation("spy", "a reference given to the policy by an earlier initialize does not have the present v-table pointer: %s", r.describe().c_str());
        }
        before = s.classes;
        auto lookups = s.lookups;
        Rng gc(g());
        r.judge_calls(gc, n22 ? RA::W_N2216 | RA::W_NEXT : RA::W_SELECT | RA::W_BAD | RA::W_NEXT, cap(a) / 2);
        stats().add("lookups", s.lookups - lookups);
        if (s.fault) violation("spy", "%s: %s", s.fault, r.describe().c_str());
        if (s.inits != inits + 1 || s.finals != finals) violation("spy", "a call initialized or finalized the policy");
        stats().distinct.insert(mix(mix(u64(opt), s.classes.size()), s.lookups - lookups));
        same = chance(g, 50);
        if (chance(g, 40)) {
            bool opts = chance(g, 50);
            if (opts) om::finalize<RegA>(om::n2216(), off); else om::finalize<RegA>();
            stats().add("finalizations");
            if (SPY_FIN && s.finals != finals + 1) violation("spy", "the policy was finalized %d times by one finalize", s.finals - finals);
            if (SPY_FIN && s.options != (opts ? 2u : 0u)) violation("spy", "the policy received other options than finalize");
            if (CHECKED) { // nothing is looked up after finalize
                Obj store[MAXAR]; const Obj* o[MAXAR];
                std::array<int, MAXAR> t{};
                int m = rnd(g, NMETH);
                for (int i = 0; i < SHAPES[m].arity; ++i) t[i] = r.p.m[m].vp[i];
                if (r.objects(g, t, SHAPES[m].arity, store, o)) {
                    auto n = s.lookups;
                    auto c = r.call(m, o, 1, false);
                    stats().add("late_calls");
                    if (c.err.kind != E_NOT_INIT || c.fault || s.lookups != n) violation("spy", "a call after finalize was not reported before the policy was used (error kind %d, %s)", c.err.kind, c.fault ? c.fault : "");
                }
            }
        }
    }
    r.destroy(g);
    om::finalize<RegA>();
}
#endif

static void run_case(const Args& a, u64 seed) {
    cur_seed() = seed;
    Rng g, gid;
    seed_case(g, seed, 1);
    seed_case(gid, seed, 100 + VARIANT);
    alarm(120); // a case takes milliseconds; no answer is a hang
    auto& m = a.mode;
    if (m == "order") case_order(a, g, gid);
    else if (m == "history") case_history(a, g, gid);
    else if (m == "retry") { if (seed % 3 == 0) case_errors(a, g, gid); else if (HASHED && seed % 12 == 1) case_search_retry(a, g, gid); else forked_case([&] { case_history(a, g, gid); }); }
    else if (m == "errors") case_errors(a, g, gid);
    else if (m == "hash") case_hash(a, g, gid);
    else if (m == "trace") case_trace(a, g, gid);
    else if (m == "policies") case_policies(a, g, gid);
    else if (m == "leak") case_leak(a, g, gid);
#if VARIANT >= 6
    else if (m == "spy") case_spy(a, g, gid);
#endif
#ifdef SMALL_ENGINE
    else if (m == "isolation") case_isolation(a, g, gid);
#endif
    else case_core(a, g, gid);
    alarm(0);
    stats().add("cases");
}

int main(int argc, char** argv) {
    Args a;
    for (int i = 1; i < argc; ++i) {
        std::string k = argv[i];
        if (k == "--mode") a.mode = argv[++i];
        else if (k == "--seed") a.seed = std::stoull(argv[++i]);
        else if (k == "--cases") a.cases = std::stoull(argv[++i]);
        else if (k == "--case") a.one = std::stol(argv[++i]);
        else if (k == "--seconds") a.seconds = std::stod(argv[++i]);
        else if (k == "--big") a.big = true;
    }
    watch_crashes();
    Engine<RegA>::setup();
#ifdef SMALL_ENGINE
    Engine<RegB>::setup();
#endif
    auto t0 = time(nullptr);
    if (a.one >= 0) run_case(a, u64(a.one));
    else for (u64 i = 0; i < a.cases && difftime(time(nullptr), t0) < a.seconds; ++i) {
        run_case(a, a.seed * 1000000 + i);
        if (stats().viol.size() >= 20) break;
    }
    for (auto& v : stats().viol) std::printf("VIOL\t%s\t%llu\t%s\n", v.tag.c_str(), (unsigned long long)v.seed, v.msg.c_str());
    for (auto& [k, n] : stats().n) std::printf("STAT\t%s\t%llu\n", k.c_str(), (unsigned long long)n);
    std::printf("STAT\tdistinct\t%zu\n", stats().distinct.size());
    for (auto& t : stats().samples) std::printf("SAMPLE\t%s\n", t.c_str());
    std::printf("DONE\n");
    return 0;
}
