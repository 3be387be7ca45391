// Drives one registry through generated programs and judges what is observed.
#pragma once
#include "engine.hpp"
#include <cstdarg>
#include <csignal>
#include <sys/wait.h>
#include <unistd.h>

// ---------------------------------------------------------------- reporting
struct Violation { std::string tag, msg; u64 seed; };
struct Stats {
    std::map<std::string, u64> n;
    std::set<u64> distinct;
    std::vector<Violation> viol;
    std::vector<std::string> samples;
    void add(const char* k, u64 d = 1) { n[k] += d; }
};
inline Stats& stats() { static Stats s; return s; }
inline void sample(const std::string& s) { if (stats().samples.size() < 3) stats().samples.push_back(s); }
inline u64& cur_seed() { static u64 s = 0; return s; }
inline void violation(const char* tag, const char* fmt, ...) {
    char b[2000];
    va_list ap; va_start(ap, fmt); vsnprintf(b, sizeof b, fmt, ap); va_end(ap);
    auto& v = stats().viol;
    if (v.size() < 50) v.push_back({tag, b, cur_seed()});
    else stats().add("violations_dropped");
}
inline u64 mix(u64 h, u64 x) { h ^= x + 0x9e3779b97f4a7c15ull + (h << 6) + (h >> 2); h *= 0xff51afd7ed558ccdull; return h ^ (h >> 29); }

enum IdStyle { ID_SMALL, ID_RANDOM, ID_CLUSTER, ID_HIGH, ID_SEQ };

template<class R, class Tag>
struct Runner {
    using E = Engine<R>;
    using Base = base_of_t<R>;
    Model p;
    std::vector<Rec> recs;
    std::vector<std::vector<type_id>> ids;      // per class, all its ids
    std::vector<std::vector<type_id>> reg_ids;  // per class, ids mentioned in registrations
    std::vector<std::vector<int>> perm;         // per method: engine overrider -> model overrider
    std::vector<int> mid;                       // per engine method: model identity
    std::map<type_id, int> cls_of;
    std::vector<int> created;                   // slots in creation order

    static std::vector<Shape> shapes() {
        std::vector<Shape> v;
        for (auto& s : SHAPES) v.push_back({s.arity, s.novr, s.cls_ret});
        return v;
    }

    void make_ids(Rng& g, IdStyle st, int max_alias) {
        ids.assign(p.n, {});
        cls_of.clear();
        std::set<u64> used;
        u64 base = g() & 0x00007ffffffff000ull;
        if (st == ID_SMALL) base = rnd(g, 3) == 0 ? 1 : 1 + rnd(g, 500);
        u64 step = (u64[]){8, 16, 24, 64, 1}[rnd(g, 5)];
        std::vector<int> order;
        for (int c = 0; c < p.n; ++c) { int k = 1 + (max_alias > 1 ? rnd(g, max_alias) : 0); while (k--) order.push_back(c); }
        shuffle(g, order);
        u64 i = 0;
        for (int c : order) {
            u64 id;
            do {
                ++i;
                switch (st) {
                case ID_SMALL: id = base + (chance(g, 50) ? i : u64(rnd(g, 900))); break;
                case ID_RANDOM: id = g(); break;
                case ID_CLUSTER: id = base + step * (i + u64(rnd(g, 4))); break;
                case ID_HIGH: id = (i << 48) | 0x1230; break;
                default: id = i; break;
                }
            } while (id == 0 || id == ~u64(0) || used.count(id));
            used.insert(id);
            ids[c].push_back(reinterpret_cast<type_id>(id));
            cls_of[ids[c].back()] = c;
        }
    }
    static IdStyle pick_style(Rng& g, bool small) {
        if (small) return ID_SMALL;
        return (IdStyle[]){ID_RANDOM, ID_CLUSTER, ID_CLUSTER, ID_HIGH, ID_SEQ}[rnd(g, 5)];
    }
    void identity_perm() {
        perm.assign(NMETH, {});
        for (int m = 0; m < NMETH; ++m) for (int o = 0; o < SHAPES[m].novr; ++o) perm[m].push_back(o);
        mid.clear();
        for (int m = 0; m < NMETH; ++m) mid.push_back(m);
    }
    // Register overriders, and methods of the same shape, in another order.
    void permute(Rng& g) {
        for (auto& v : perm) shuffle(g, v);
        for (int a = 0; a < NMETH; ++a) {
            std::vector<int> same;
            for (int b = 0; b <= a; ++b)
                if (SHAPES[a].form == SHAPES[b].form && SHAPES[a].novr == SHAPES[b].novr && SHAPES[a].cls_ret == SHAPES[b].cls_ret) same.push_back(b);
            int b = same[rnd(g, int(same.size()))];
            std::swap(p.m[a], p.m[b]);
            std::swap(mid[a], mid[b]);
        }
    }
    // The observable behaviour: one hash per (method, tuple), in an order that
    // does not depend on the order of registration.  Parallel to `what`.
    struct Behaviour { std::vector<u64> h; std::vector<std::string> what; };
    Behaviour behaviour(u64 seed, int cap, bool report = true, bool text = false) {
        Behaviour b;
        std::vector<int> inv(NMETH);
        for (int m = 0; m < NMETH; ++m) inv[mid[m]] = m;
        if (report) b.h.push_back(rep_digest());
        if (text && report) b.what.push_back("report " + std::to_string(rep.cells) + "/" + std::to_string(rep.none) + "/" + std::to_string(rep.amb));
        for (int k = 0; k < NMETH; ++k) {
            int m = inv[k];
            Rng g(mix(seed, u64(k)));
            auto emit = [&](const Call& c, const char* how, const std::array<int, MAXAR>& t) {
                u64 h = mix(u64(c.first.kind), u64(c.first.o + 1));
                for (auto& s : c.steps) h = mix(h, u64(perm[m][s.o]) * 2 + s.has_next);
                h = mix(h, c.err.kind);
                h = mix(h, u64(c.err_count));
                h = mix(h, u64(c.err.arity));
                h = mix(h, c.err.method == nullptr ? 2 : c.err.method == E::mids()[m]);
                for (std::size_t i = 0; i < c.err.arity && i < 16; ++i) { auto it = cls_of.find(c.err.types[i]); h = mix(h, it == cls_of.end() ? 99 : u64(it->second)); }
                h = mix(h, c.fault != nullptr);
                b.h.push_back(h);
                if (text) {
                    std::string s = std::string(how) + "method " + std::to_string(k) + " (";
                    for (int i = 0; i < SHAPES[m].arity; ++i) s += (i ? "," : "") + std::string("C") + std::to_string(t[i]);
                    s += ") ->";
                    for (auto& st : c.steps) s += " o" + std::to_string(perm[m][st.o]) + (st.has_next ? "+" : "");
                    s += " err " + std::to_string(c.err.kind);
                    if (c.fault) s += std::string(" ") + c.fault;
                    b.what.push_back(s);
                }
            };
            for (auto& t : tuples(g, m, p.m[m].active ? cap : 2)) {
                Obj store[MAXAR]; const Obj* o[MAXAR];
                if (!objects(g, t, SHAPES[m].arity, store, o)) continue;
                emit(call(m, o, 7, true), "", t);
            }
            for (int ov = 0; ov < SHAPES[m].novr; ++ov) {
                int eo = int(std::find(perm[m].begin(), perm[m].end(), ov) - perm[m].begin());
                std::array<int, MAXAR> t{};
                for (int i = 0; i < SHAPES[m].arity; ++i) { auto d = p.desc(p.m[m].ov[ov].vp[i]); t[i] = d[rnd(g, int(d.size()))]; }
                Obj store[MAXAR]; const Obj* o[MAXAR];
                if (!objects(g, t, SHAPES[m].arity, store, o)) continue;
                emit(call(m, o, 7, true, eo), "by name: ", t);
            }
        }
        return b;
    }
    type_id pick(Rng& g, int c) { return ids[c][rnd(g, int(ids[c].size()))]; }

    // Fill the id tables from the program (does not touch registrations).
    void bind(Rng& g) {
        Tables& t = tables<Tag>();
        t.canon.clear();
        for (auto& v : ids) for (auto i : v) t.canon[i] = v[0];
        reg_ids.assign(p.n, {});
        auto note = [&](int c, type_id i) { auto& v = reg_ids[c]; if (std::find(v.begin(), v.end(), i) == v.end()) v.push_back(i); };
        for (auto& r : recs) {
            type_id self = pick(g, r.cls);
            t.cs[r.slot] = self; note(r.cls, self);
            for (int k = 0; k < 4; ++k) {
                if (k < int(r.bases.size())) {
                    t.cb[r.slot][k] = pick(g, r.bases[k]);
                    note(r.bases[k], t.cb[r.slot][k]);
                } else t.cb[r.slot][k] = self;
            }
        }
        for (int m = 0; m < NMETH; ++m) {
            for (int i = 0; i < SHAPES[m].arity; ++i) t.vt[m][i] = pick(g, p.m[m].vp[i]);
            if (SHAPES[m].cls_ret) t.rt[m] = pick(g, p.m[m].ret);
            for (int o = 0; o < SHAPES[m].novr; ++o) {
                auto& ov = p.m[m].ov[perm[m][o]];
                for (int i = 0; i < SHAPES[m].arity; ++i) t.ot[m][o][i] = pick(g, ov.vp[i]);
                if (SHAPES[m].cls_ret) t.ro[m][o] = pick(g, ov.ret);
            }
        }
        conforms<Base>() = [this](int cls, type_id param) {
            auto i = cls_of.find(param);
            return i != cls_of.end() && p.is_a(cls, i->second);
        };
    }
    void create() { for (auto& r : recs) { E::slots()[r.slot].create(); created.push_back(r.slot); } }
    void destroy(Rng& g) {
        shuffle(g, created);
        for (int s : created) E::slots()[s].destroy();
        created.clear();
    }
    // A search error says that no multiplier was found that sends the ids to
    // distinct buckets.  The multipliers are tried at random; if a fair share
    // of them (3 in 10000) would have worked, the 100000 attempts made for each
    // number of buckets cannot have failed honestly.
    void judge_search_error(const Err& e) {
        std::size_t buckets = e.buckets;
        if (buckets < 2 || (buckets & (buckets - 1))) return;
        int shift = 64;
        for (std::size_t b = buckets; b > 1; b >>= 1) --shift;
        std::vector<u64> all;
        for (auto& v : reg_ids) for (auto i : v) all.push_back(reinterpret_cast<u64>(i));
        std::sort(all.begin(), all.end());
        all.erase(std::unique(all.begin(), all.end()), all.end());
        if (all.size() > buckets) return;
        Rng g(mix(4711, buckets));
        int good = 0, tried = 200000;
        std::vector<int> seen(buckets, -1);
        for (int k = 0; k < tried; ++k) {
            u64 mult = g() | 1;
            bool ok = true;
            for (u64 i : all) { auto& s = seen[(i * mult) >> shift]; if (s == k) { ok = false; break; } s = k; }
            good += ok;
        }
        stats().add("search_errors_judged");
        if (good >= 60)
            violation("search", "a search error after %zu attempts with %zu buckets, but %d of %d random multipliers send the %zu registered ids to distinct buckets: %s",
                e.attempts, buckets, good, tried, all.size(), describe().c_str());
    }
    bool class_registered(int c) const { return !reg_ids[c].empty(); }

    // 0 ok, 1 error thrown through the handler (recorded in the log)
    Model::Rep rep{};
    template<class... O> int init(O&&... o) {
        auto& l = thelog<Base>();
        l.reset();
        try {
            auto c = om::initialize<R>(std::forward<O>(o)...);
            rep = {c.report.cells, c.report.not_implemented, c.report.ambiguous};
            return 0;
        } catch (const Thrown&) { return 1; }
    }

    struct Call { Out first; std::vector<Step> steps; Err err; int err_count; const char* fault; int ret; bool threw; };
    Call call(int m, const Obj* const* o, int x, bool chain, int named = -1) {
        auto& l = thelog<Base>();
        l.reset();
        l.chain = chain;
        l.nobj = SHAPES[m].arity;
        l.x = x;
        for (int i = 0; i < l.nobj; ++i) l.objs[i] = o[i];
        Call c{};
        int ax = has_int(SHAPES[m].form) ? x : 0;
        try { c.ret = named < 0 ? E::invokers()[m](o, ax) : E::named()[m][named](o, ax); }
        catch (const Thrown&) { c.threw = true; }
        c.steps = l.steps; c.err = l.err; c.err_count = l.err_count; c.fault = l.fault;
        if (!c.steps.empty()) c.first = {O_RUN, perm[m][c.steps[0].o]};
        else if (c.err.kind == E_AMBIG) c.first = {O_AMBIG, -1};
        else c.first = {O_NONE, -1};
        return c;
    }
    static std::string show(int m, const Obj* const* o) {
        std::string s = "method " + std::to_string(m) + " (";
        for (int i = 0; i < SHAPES[m].arity; ++i) s += (i ? "," : "") + std::string("C") + std::to_string(o[i]->cls);
        return s + ")";
    }
    static std::string show(Out o) { return o.kind == O_RUN ? "overrider " + std::to_string(o.o) : o.kind == O_NONE ? "no overrider" : "ambiguous"; }
    std::string describe() const {
        std::string s;
        for (int c = 0; c < p.n; ++c) {
            s += "C" + std::to_string(c) + ":";
            for (int b : p.bases[c]) s += " C" + std::to_string(b);
            s += "; ";
        }
        return s;
    }
    std::string describe(int m) const {
        std::string s = "m(";
        auto tup = [&](const int* v) { std::string t; for (int i = 0; i < SHAPES[m].arity; ++i) t += (i ? "," : "") + std::string("C") + std::to_string(v[i]); return t; };
        s += tup(p.m[m].vp) + ")";
        for (auto& o : p.m[m].ov) s += " (" + tup(o.vp) + (o.ret >= 0 ? ")->C" + std::to_string(o.ret) : ")");
        return s;
    }

    // All tuples of classes below the method's parameters (sampled above cap).
    std::vector<std::array<int, MAXAR>> tuples(Rng& g, int m, int cap) const {
        std::vector<std::vector<int>> d;
        u64 prod = 1;
        for (int i = 0; i < SHAPES[m].arity; ++i) { d.push_back(p.desc(p.m[m].vp[i])); prod = std::min(prod * d.back().size(), ~u64(0) >> 16); }
        std::vector<std::array<int, MAXAR>> r;
        auto at = [&](u64 k) { std::array<int, MAXAR> a{}; for (std::size_t i = 0; i < d.size(); ++i) { a[i] = d[i][k % d[i].size()]; k /= d[i].size(); } return a; };
        if (prod <= u64(cap)) for (u64 k = 0; k < prod; ++k) r.push_back(at(k));
        else {
            for (int i = 0; i < cap; ++i) {
                std::array<int, MAXAR> a{};
                for (std::size_t k = 0; k < d.size(); ++k) a[k] = d[k][rnd(g, int(d[k].size()))];
                r.push_back(a);
            }
            // parameter tuples of the overriders are always of interest
            for (auto& o : p.m[m].ov) { std::array<int, MAXAR> a{}; std::copy(o.vp, o.vp + MAXAR, a.begin()); r.push_back(a);
                // and those a little below them
                for (std::size_t k = 0; k < d.size(); ++k) if (chance(g, 50)) { auto u = p.desc(a[k]); a[k] = u[rnd(g, int(u.size()))]; }
                r.push_back(a);
            }
        }
        return r;
    }
    // Objects for a tuple; false if a class has no registered id.
    bool objects(Rng& g, const std::array<int, MAXAR>& t, int ar, Obj* store, const Obj** o) {
        for (int i = 0; i < ar; ++i) {
            auto& v = reg_ids[t[i]];
            if (v.empty()) return false;
            store[i] = {v[rnd(g, int(v.size()))], t[i], rnd(g, 1 << 20)};
            o[i] = &store[i];
        }
        return true;
    }

    // what: bit 0 unique selection, 1 bad calls, 2 next chains
    enum { W_SELECT = 1, W_BAD = 2, W_NEXT = 4, W_N2216 = 8 };
    void judge_calls(Rng& g, int what, int cap, u64* digest = nullptr) {
        for (int m = 0; m < NMETH; ++m) {
            auto ts = tuples(g, m, p.m[m].active ? cap : 2);
            if (chance(g, 50)) { for (int i = int(ts.size()) - 1; i > 0; --i) std::swap(ts[i], ts[rnd(g, i + 1)]); }
            // next reference, lazily
            for (auto& t : ts) {
                Obj store[MAXAR]; const Obj* o[MAXAR];
                if (!objects(g, t, SHAPES[m].arity, store, o)) continue;
                auto app = p.applicable_set(m, t.data());
                Out want = p.decide(m, app);
                int x = 1 + rnd(g, 1000);
                bool n22 = what & W_N2216;
                if (what & (W_SELECT | W_BAD | W_N2216)) judge_one(m, o, x, app, want, what);
                if ((what & W_NEXT) && (want.kind == O_RUN || (n22 && want.kind == O_AMBIG))) judge_chain(m, o, x, t, want, n22);
                if (digest) {
                    Call c = call(m, o, x, true);
                    u64 h = mix(u64(c.first.kind), u64(c.first.o + 1));
                    for (auto& s : c.steps) h = mix(h, u64(perm[m][s.o]) * 2 + s.has_next);
                    h = mix(h, c.err.kind);
                    h = mix(h, u64(c.err.arity));
                    h = mix(h, c.fault != nullptr);
                    for (int i = 0; i < SHAPES[m].arity; ++i) h = mix(h, u64(t[i]));
                    *digest = mix(*digest, h);
                    stats().add("digested_calls");
                }
            }
        }
    }
    void judge_one(int m, const Obj* const* o, int x, const std::vector<int>& app, Out want, int what) {
        Call c = call(m, o, x, false);
        auto where = [&] { return show(m, o) + " in " + describe() + describe(m); };
        int xx = has_int(SHAPES[m].form) ? x : 0;
        bool n22 = what & W_N2216;
        if (n22 && want.kind == O_AMBIG) {
            stats().add("n2216_resolved");
            auto ok = p.n2216(m, app);
            stats().distinct.insert(mix(app.size() * 64 + ok.size(), u64(c.first.o + 1)));
            if (c.first.kind != O_RUN || c.steps.size() != 1 || c.err.kind != E_NONE)
                violation("n2216", "ambiguous call did not run an overrider: %s, %s", show(c.first).c_str(), where().c_str());
            else if (!ok.count(c.first.o))
                violation("n2216", "%s picked, not one of the most specific results: %s", show(c.first).c_str(), where().c_str());
            else if (c.fault) violation("n2216", "%s: %s", c.fault, where().c_str());
            Call again = call(m, o, x, false);
            if (!(again.first == c.first)) violation("n2216", "two equal calls picked %s and %s: %s", show(c.first).c_str(), show(again.first).c_str(), where().c_str());
            return;
        }
        const char* tag = n22 ? "n2216" : want.kind == O_RUN ? "select" : "bad";
        if (want.kind == O_RUN) {
            if (!(what & (W_SELECT | W_N2216))) return;
            stats().add("selections");
            stats().distinct.insert(mix(mix(u64(SHAPES[m].arity), app.size()), mix(p.n, p.groups(m).size() + u64(m) * 100 + u64(want.o))));
            if (!(c.first == want)) violation(tag, "expected %s, observed %s: %s", show(want).c_str(), show(c.first).c_str(), where().c_str());
            else if (c.steps.size() != 1) violation(tag, "%d overriders ran for one call: %s", int(c.steps.size()), where().c_str());
            else if (c.threw || c.err.kind != E_NONE) violation(tag, "error reported by a good call: %s", where().c_str());
            else if (c.fault) violation(tag, "%s: %s", c.fault, where().c_str());
            else {
                int eo = c.steps[0].o;
                if (c.ret != (m + 1) * 1000 + eo * 7 + xx && !(xx == 0 && c.ret == (m + 1) * 1000 + eo * 7 + x))
                    violation(tag, "result %d is not the overrider's: %s", c.ret, where().c_str());
            }
        } else {
            if (!(what & (W_BAD | W_N2216))) return;
            stats().add(want.kind == O_NONE ? "no_overrider" : "ambiguous");
            stats().distinct.insert(mix(mix(u64(m), app.size()), mix(u64(want.kind), p.n)));
            if (!(c.first == want)) violation(tag, "expected %s, observed %s: %s", show(want).c_str(), show(c.first).c_str(), where().c_str());
            else if (!c.steps.empty()) violation(tag, "an overrider ran: %s", where().c_str());
            else if (c.err_count != 1 || !c.threw) violation(tag, "%d errors, %s: %s", c.err_count, c.threw ? "thrown" : "not thrown", where().c_str());
            else judge_err(tag, m, o, c.err, want.kind == O_NONE ? E_NO_OVR : E_AMBIG, where());
        }
    }
    void judge_err(const char* tag, int m, const Obj* const* o, const Err& e, ErrKind k, const std::string& where) {
        if (e.kind != k) violation(tag, "error kind %d instead of %d: %s", e.kind, k, where.c_str());
        else if (e.method != E::mids()[m]) violation("content", "error names another method: %s", where.c_str());
        else if (e.arity != std::size_t(SHAPES[m].arity)) violation("content", "error states %d virtual arguments instead of %d: %s", int(e.arity), SHAPES[m].arity, where.c_str());
        else for (int i = 0; i < SHAPES[m].arity && i < 16; ++i)
            if (e.types[i] != o[i]->tid) violation("content", "type %d in the error is not the argument's: %s", i, where.c_str());
    }

    // next(): what would run if the overrider did not exist
    std::map<std::pair<int, int>, std::pair<bool, Out>> next_ref; // agreed?, value
    std::pair<bool, Out> next_reference(int m, int o) {
        auto key = std::make_pair(m, o);
        auto it = next_ref.find(key);
        if (it != next_ref.end()) return it->second;
        return next_ref[key] = p.next_of(m, o);
    }
    void judge_chain(int m, const Obj* const* o, int x, const std::array<int, MAXAR>& t, Out want, bool n22, int named = -1) {
        Call c = call(m, o, x, true, named);
        auto where = [&] { return show(m, o) + " in " + describe() + describe(m); };
        stats().add("chains");
        stats().add("chain_steps", c.steps.size());
        if (c.fault) { violation("next", "%s: %s", c.fault, where().c_str()); return; }
        if (c.steps.empty()) { if (!n22) violation("next", "call did not run: %s", where().c_str()); return; }
        if (!n22 && !(c.first == want)) return; // a selection matter
        if (c.err_count > 1) violation("next", "%d errors for one chain: %s", c.err_count, where().c_str());
        std::set<int> seen;
        for (std::size_t i = 0; i < c.steps.size(); ++i) {
            int cur = perm[m][c.steps[i].o];
            bool last = i + 1 == c.steps.size();
            Out got = last ? Out{c.err.kind == E_AMBIG ? O_AMBIG : O_NONE, -1} : Out{O_RUN, perm[m][c.steps[i + 1].o]};
            if (!seen.insert(cur).second) { violation("next", "chain visits overrider %d twice: %s", cur, where().c_str()); return; }
            if (!p.applicable(p.m[m].ov[cur], SHAPES[m].arity, t.data())) { violation("next", "chain entered inapplicable overrider %d: %s", cur, where().c_str()); return; }
            if (last && c.err.kind != E_NO_OVR && c.err.kind != E_AMBIG) { violation("next", "chain ended without a no-overrider or ambiguity error (kind %d): %s", c.err.kind, where().c_str()); return; }
            if (c.steps[i].has_next != (got.kind == O_RUN)) {
                violation("next", "has_next() is %d but next() gives %s, from overrider %d: %s", c.steps[i].has_next, show(got).c_str(), cur, where().c_str());
                return;
            }
            if (n22) { stats().add("next_n2216"); continue; }
            auto ref = next_reference(m, cur);
            // only meaningful if this overrider is the selected one somewhere
            Out own = p.outcome(m, p.m[m].ov[cur].vp);
            if (own.kind != O_RUN || own.o != cur) {
                // called by name, although no call selects it
                if (i == 0 && named >= 0) { stats().add("next_never_selected"); continue; }
                violation("next", "chain reached overrider %d that is never the best: %s", cur, where().c_str());
                return;
            }
            if (ref.first) {
                stats().add("next_exact");
                if (!(got == ref.second)) { violation("next", "from overrider %d: expected %s, observed %s: %s", cur, show(ref.second).c_str(), show(got).c_str(), where().c_str()); return; }
            } else {
                stats().add("next_contextual");
                Out ctx = p.outcome(m, t.data(), cur);
                if (!(got == ref.second) && !(got == ctx)) stats().add("next_contextual_other");
            }
        }
        if (!n22) judge_err("next", m, o, c.err, c.err.kind, where());
        u64 h = mix(c.steps.size(), c.err.kind);
        for (auto& s : c.steps) h = mix(h, s.o);
        stats().distinct.insert(mix(h, mix(p.n, m)));
    }
    // has_next()/next from overriders no call selects: they can still be
    // called by name.
    void judge_named(Rng& g) {
        for (int m = 0; m < NMETH; ++m) for (int eo = 0; eo < SHAPES[m].novr; ++eo) {
            int cur = perm[m][eo];
            std::array<int, MAXAR> t{};
            for (int i = 0; i < SHAPES[m].arity; ++i) { auto d = p.desc(p.m[m].ov[cur].vp[i]); t[i] = d[rnd(g, int(d.size()))]; }
            Obj store[MAXAR]; const Obj* o[MAXAR];
            if (!objects(g, t, SHAPES[m].arity, store, o)) continue;
            judge_chain(m, o, 1 + rnd(g, 1000), t, Out{O_RUN, cur}, false, eo);
            stats().add("named");
        }
    }
    void judge_report(bool n22 = false) {
        auto want = p.report(n22);
        if (n22) stats().add("reports_n2216");
        stats().add("reports");
        stats().distinct.insert(mix(want.cells, mix(want.none, want.amb)));
        if (rep.cells != want.cells) violation("report", "cells %d, expected %d: %s", int(rep.cells), int(want.cells), describe().c_str());
        if (rep.none != want.none) violation("report", "not_implemented %d, expected %d: %s", int(rep.none), int(want.none), describe().c_str());
        if (rep.amb < want.amb || rep.amb > want.amb_max) violation("report", "ambiguous %d, expected %d to %d%s: %s", int(rep.amb), int(want.amb), int(want.amb_max), n22 ? " (N2216)" : "", describe().c_str());
    }
    u64 rep_digest() const { return mix(rep.cells, mix(rep.none, rep.amb)); }
};
