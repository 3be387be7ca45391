// Reference model of the documented dispatch semantics, and the random program
// generator.  Nothing here includes or imitates the library's implementation:
// it works on class sets, not on groups, slots or dispatch tables.
#pragma once
#include <algorithm>
#include <bitset>
#include <cstdint>
#include <cstring>
#include <map>
#include <random>
#include <set>
#include <string>
#include <vector>
#include "../rng.hpp"

#ifdef WIDE_ENGINE // methods of many parameters or many overriders, many classes
constexpr int MAXMETH = 24, MAXOVR = 140, MAXAR = 17, MAXSET = 192;
#else
constexpr int MAXMETH = 24, MAXOVR = 9, MAXAR = 4, MAXSET = 64;
#endif
using Set = std::bitset<MAXSET>; // of classes, of overriders
struct SetLess { bool operator()(const Set& a, const Set& b) const { return std::memcmp(&a, &b, sizeof a) < 0; } };
using Sets = std::set<Set, SetLess>;
template<class T> void shuffle(Rng& g, std::vector<T>& v) {
    for (int i = int(v.size()) - 1; i > 0; --i) std::swap(v[i], v[rnd(g, i + 1)]);
}

enum OutKind { O_NONE, O_AMBIG, O_RUN };
struct Out {
    OutKind kind = O_NONE;
    int o = -1;
    bool operator==(const Out& x) const { return kind == x.kind && (kind != O_RUN || o == x.o); }
    bool operator<(const Out& x) const { return kind != x.kind ? kind < x.kind : kind == O_RUN && o < x.o; }
};

struct MOvr { int vp[MAXAR]; int ret; };
struct MMeth { bool active = false; int ar = 1; int vp[MAXAR]; int ret = -1; std::vector<MOvr> ov; };

struct Model {
    int n = 0;                              // classes; the last one is the island
    std::vector<std::vector<int>> bases;    // direct bases
    std::vector<Set> anc;                   // ancestors, including self
    std::vector<MMeth> m;

    void close() {
        anc.assign(n, Set());
        for (int i = 0; i < n; ++i) { // bases precede derived
            anc[i].set(i);
            for (int b : bases[i]) anc[i] |= anc[b];
        }
    }
    bool is_a(int d, int b) const { return anc[d][b]; }
    bool proper(int d, int b) const { return d != b && is_a(d, b); }
    bool applicable(const MOvr& o, int ar, const int* t) const {
        for (int i = 0; i < ar; ++i) if (!is_a(t[i], o.vp[i])) return false;
        return true;
    }
    bool dominates(const MOvr& a, const MOvr& b, int ar) const {
        bool more = false;
        for (int i = 0; i < ar; ++i) {
            if (proper(a.vp[i], b.vp[i])) more = true;
            else if (proper(b.vp[i], a.vp[i])) return false;
        }
        return more;
    }
    std::vector<int> applicable_set(int mi, const int* t, int excl = -1) const {
        std::vector<int> r;
        auto& mm = m[mi];
        for (int o = 0; o < int(mm.ov.size()); ++o)
            if (o != excl && applicable(mm.ov[o], mm.ar, t)) r.push_back(o);
        return r;
    }
    std::vector<int> undominated(int mi, const std::vector<int>& c) const {
        std::vector<int> r;
        auto& mm = m[mi];
        for (int a : c) {
            bool dom = false;
            for (int b : c) if (a != b && dominates(mm.ov[b], mm.ov[a], mm.ar)) dom = true;
            if (!dom) r.push_back(a);
        }
        return r;
    }
    Out decide(int mi, const std::vector<int>& c) const {
        if (c.empty()) return {O_NONE, -1};
        auto u = undominated(mi, c);
        if (u.size() == 1) return {O_RUN, u[0]};
        return {O_AMBIG, -1};
    }
    Out outcome(int mi, const int* t, int excl = -1) const { return decide(mi, applicable_set(mi, t, excl)); }
    // Acceptable picks of an ambiguous call with the N2216 option.
    std::set<int> n2216(int mi, const std::vector<int>& c) const {
        auto u = undominated(mi, c);
        if (u.empty()) u = c;
        std::set<int> r;
        for (int a : u) {
            bool out = false;
            if (m[mi].ret >= 0)
                for (int b : u)
                    if (m[mi].ov[a].ret >= 0 && m[mi].ov[b].ret >= 0 && proper(m[mi].ov[b].ret, m[mi].ov[a].ret)) out = true;
            if (!out) r.insert(a);
        }
        return r;
    }
    // What next() from overrider o gives: the best of the others.  False if the
    // argument tuples that select o do not agree on it.
    std::pair<bool, Out> next_of(int mi, int o) const {
        auto& mm = m[mi];
        std::pair<bool, Out> r{true, outcome(mi, mm.ov[o].vp, o)};
        auto g = groups(mi);
        std::size_t prod = 1;
        for (auto& x : g) prod *= x.size();
        Sets seen;
        for (std::size_t k = 0; k < prod; ++k) {
            std::size_t q = k; Set mask = Set().set();
            for (auto& x : g) { mask &= x[q % x.size()]; q /= x.size(); }
            if (!mask[o] || !seen.insert(mask).second) continue;
            std::vector<int> c, cx;
            for (int i = 0; i < int(mm.ov.size()); ++i) if (mask[i]) { c.push_back(i); if (i != o) cx.push_back(i); }
            Out d = decide(mi, c);
            if (d.kind == O_RUN && d.o == o && !(decide(mi, cx) == r.second)) r.first = false;
        }
        return r;
    }
    std::vector<int> desc(int c) const {
        std::vector<int> r;
        for (int i = 0; i < n; ++i) if (is_a(i, c)) r.push_back(i);
        return r;
    }
    // With N2216, a combination stays ambiguous unless one return type is more
    // specialized than the others.  Equal return types may count either way.
    struct Rep { std::size_t cells = 0, none = 0, amb = 0, amb_max = 0; };
    // Sets of overriders classes can select, per parameter; all combinations.
    std::vector<std::vector<Set>> groups(int mi) const {
        std::vector<std::vector<Set>> g;
        for (int i = 0; i < m[mi].ar; ++i) {
            Sets s;
            for (int c : desc(m[mi].vp[i])) {
                Set k;
                for (int o = 0; o < int(m[mi].ov.size()); ++o) if (is_a(c, m[mi].ov[o].vp[i])) k.set(o);
                s.insert(k);
            }
            g.emplace_back(s.begin(), s.end());
        }
        return g;
    }
    Rep report(bool n22 = false) const {
        Rep r;
        for (int mi = 0; mi < int(m.size()); ++mi) {
            auto g = groups(mi);
            std::size_t prod = 1;
            for (auto& x : g) prod *= x.size();
            if (m[mi].ar > 1) r.cells += prod;
            bool none = false, amb = false, maybe = false;
            Sets seen;
            for (std::size_t k = 0; k < prod; ++k) {
                std::size_t q = k;
                Set mask = Set().set();
                for (auto& x : g) { mask &= x[q % x.size()]; q /= x.size(); }
                if (!seen.insert(mask).second) continue;
                std::vector<int> c;
                for (int o = 0; o < int(m[mi].ov.size()); ++o) if (mask[o]) c.push_back(o);
                auto d = decide(mi, c);
                none |= d.kind == O_NONE;
                if (d.kind == O_AMBIG && n22 && m[mi].ret >= 0) {
                    auto left = n2216(mi, c);
                    std::set<int> types;
                    for (int o : left) types.insert(m[mi].ov[o].ret);
                    maybe |= left.size() > 1;
                    amb |= types.size() > 1;
                } else amb |= d.kind == O_AMBIG;
            }
            r.none += none;
            r.amb += amb;
            r.amb_max += amb || maybe;
        }
        return r;
    }
};

// One use_classes<> registration: a class with some of its bases.
struct Rec { int cls; std::vector<int> bases; int slot = -1; };

struct GenOpt {
    int min_cls = 1, max_cls = 14;
    int active_pct = 60;      // methods taking part
    int mi_pct = -1;          // chance of extra bases; -1: random per program
    bool noisy_recs = true;   // duplicates and extra ancestors
};

// shapes: arity, number of overriders, class return
struct Shape { int ar, novr; bool cls_ret; };

// The dispatch table of a method grows with the product of the groups of its
// parameters: make parameters plain until it has a bounded size.
inline void bound_cells(Rng& g, Model& p, int mi) {
    auto& mm = p.m[mi];
    for (;;) {
        auto gr = p.groups(mi);
        double cells = 1;
        for (auto& x : gr) cells *= double(x.size());
        if (cells <= 12000) return;
        int i = rnd(g, mm.ar);
        for (auto& o : mm.ov) if (chance(g, 70)) o.vp[i] = mm.vp[i];
    }
}

inline Model gen_model(Rng& g, const std::vector<Shape>& shapes, const GenOpt& opt) {
    Model p;
    int n = opt.min_cls + rnd(g, opt.max_cls - opt.min_cls + 1);
    int mi = opt.mi_pct >= 0 ? opt.mi_pct : (int[]){0, 10, 30, 60, 85}[rnd(g, 5)];
    int roots = (int[]){1, 1, 1, 2, 3}[rnd(g, 5)];
    int window = chance(g, 30) ? 3 : 100; // deep chains
    p.n = n + 1;
    p.bases.resize(p.n);
    p.anc.assign(p.n, Set());
    for (int i = 0; i < n; ++i) {
        if (i >= roots || (i > 0 && chance(g, 20))) {
            int nb = 1;
            while (nb < 5 && chance(g, mi)) ++nb;
            std::set<int> bs;
            for (int k = 0; k < nb; ++k) {
                int lo = std::max(0, i - window);
                if (i > 0) bs.insert(lo + rnd(g, i - lo));
            }
            // keep direct bases only (drop those reachable through another one)
            for (int b : bs) {
                bool red = false;
                for (int c : bs) if (c != b && p.anc[c][b]) red = true;
                if (!red) p.bases[i].push_back(b);
            }
            shuffle(g, p.bases[i]);
        }
        p.anc[i].set(i);
        for (int b : p.bases[i]) p.anc[i] |= p.anc[b];
    }
    p.close();
    int island = n;
    int active = opt.active_pct;
    if (chance(g, 30)) active = 20;
    for (auto& s : shapes) {
        MMeth mm;
        mm.ar = s.ar;
        mm.active = chance(g, active);
        for (int i = 0; i < MAXAR; ++i) {
            mm.vp[i] = island;
            if (mm.active && i < s.ar) {
                // prefer classes with many descendants
                int best = rnd(g, n);
                for (int k = 0; k < 2; ++k) {
                    int c = rnd(g, n);
                    if (chance(g, 70) && p.desc(c).size() > p.desc(best).size()) best = c;
                }
                mm.vp[i] = best;
                if (i && chance(g, 40)) mm.vp[i] = mm.vp[0];
            }
        }
        if (s.cls_ret) mm.ret = chance(g, 80) ? rnd(g, n) : island;
        for (int o = 0; o < s.novr; ++o) {
            MOvr ov{};
            for (int i = 0; i < MAXAR; ++i) {
                if (!mm.active || i >= s.ar) { ov.vp[i] = island; continue; }
                auto d = p.desc(mm.vp[i]);
                ov.vp[i] = d[rnd(g, int(d.size()))];
                if (chance(g, 15)) ov.vp[i] = mm.vp[i];
            }
            if (!mm.ov.empty() && mm.active && chance(g, 25)) { // variation on an earlier one
                ov = mm.ov[rnd(g, int(mm.ov.size()))];
                if (chance(g, 92)) {
                    int i = rnd(g, s.ar);
                    auto d = p.desc(mm.vp[i]);
                    ov.vp[i] = d[rnd(g, int(d.size()))];
                }
            }
            ov.ret = -1;
            if (s.cls_ret) {
                if (mm.ret == island) ov.ret = island;
                else { auto d = p.desc(mm.ret); ov.ret = d[rnd(g, int(d.size()))]; }
            }
            mm.ov.push_back(ov);
        }
        p.m.push_back(mm);
        if (s.ar > 4) bound_cells(g, p, int(p.m.size()) - 1);
    }
    return p;
}

// Registrations for a model.  Empty result: does not fit in the slots.
template<class SlotK>
std::vector<Rec> gen_recs(Rng& g, const Model& p, int nslot, SlotK slot_k, bool noisy, const std::set<int>& skip = {}) {
    for (int attempt = 0; attempt < 20; ++attempt) {
        std::vector<Rec> recs;
        bool calm = attempt > 10 || !noisy;
        std::set<int> as_base;
        for (int c = 0; c < p.n; ++c) if (!skip.count(c)) for (int b : p.bases[c]) as_base.insert(b);
        for (int c = 0; c < p.n; ++c) {
            if (skip.count(c)) continue;
            std::vector<int> bs;
            for (int b : p.bases[c]) if (!skip.count(b)) bs.push_back(b);
            shuffle(g, bs);
            if (bs.empty()) {
                // a root class is also registered by a mention as a base
                if (!as_base.count(c) || chance(g, 70)) recs.push_back({c, {}});
            }
            std::size_t i = 0;
            while (i < bs.size()) {
                std::size_t k = std::min<std::size_t>(bs.size() - i, std::size_t(1 + rnd(g, 4)));
                if (calm) k = std::min<std::size_t>(bs.size() - i, 4);
                Rec r{c, {bs.begin() + i, bs.begin() + i + k}};
                i += k;
                recs.push_back(r);
            }
        }
        if (!calm) {
            std::vector<Rec> more;
            for (auto& r : recs) {
                if (chance(g, 20) && r.bases.size() < 4) { // extra ancestor
                    std::vector<int> a;
                    for (int b = 0; b < p.n; ++b) if (p.is_a(r.cls, b) && !skip.count(b)) a.push_back(b);
                    r.bases.push_back(a[rnd(g, int(a.size()))]);
                    shuffle(g, r.bases);
                }
                if (chance(g, 15)) more.push_back(r);
                if (chance(g, 8)) more.push_back({r.cls, {}});
            }
            recs.insert(recs.end(), more.begin(), more.end());
        }
        shuffle(g, recs);
        std::vector<int> order(nslot);
        for (int i = 0; i < nslot; ++i) order[i] = i;
        shuffle(g, order);
        std::vector<bool> used(nslot);
        bool ok = true;
        // big ones first for allocation, creation order stays as shuffled
        std::vector<int> by(recs.size());
        for (int i = 0; i < int(by.size()); ++i) by[i] = i;
        std::stable_sort(by.begin(), by.end(), [&](int a, int b) { return recs[a].bases.size() > recs[b].bases.size(); });
        for (int i : by) {
            int best = -1;
            for (int s : order)
                if (!used[s] && slot_k(s) >= int(recs[i].bases.size())) {
                    if (best < 0 || (!calm ? false : slot_k(s) < slot_k(best)) || (recs.size() > 30 && slot_k(s) < slot_k(best))) best = s;
                }
            if (best < 0) { ok = false; break; }
            used[best] = true;
            recs[i].slot = best;
        }
        if (ok) return recs;
    }
    return {};
}
