// C13 (and C11 for indirect registries): random histories of operations on
// smart virtual_ptrs.  Every object has a twin owned by plain smart pointers
// that go through the same operations: life times and counts must agree.
#include "zoo.hpp"
#ifndef KIND
#define KIND 0 // 0 shared_ptr, 1 boost::intrusive_ptr, 2 unique_ptr
#endif
#include <boost/smart_ptr/intrusive_ptr.hpp>
#include <boost/openmethod/interop/std_shared_ptr.hpp>
#include <boost/openmethod/interop/std_unique_ptr.hpp>
#include <boost/openmethod/interop/boost_intrusive_ptr.hpp>
constexpr bool COPY = KIND != 2;
#if KIND == 0
template<class T> using SP = std::shared_ptr<T>;
template<class C> SP<C> make_sp() { return std::make_shared<C>(); }
template<class C> auto make_vp() { return om::make_shared_virtual<C, Reg>(); }
template<class T> long uses(const SP<T>& p) { return p.use_count(); }
#elif KIND == 1
template<class T> using SP = boost::intrusive_ptr<T>;
template<class C> SP<C> make_sp() { return SP<C>(new C); }
template<class C> auto make_vp() { return om::make_boost_intrusive_virtual<C, Reg>(); }
template<class T> long uses(const SP<T>& p) { return p ? p->refs() : 0; }
#else
template<class T> using SP = std::unique_ptr<T>;
template<class C> SP<C> make_sp() { return std::make_unique<C>(); }
template<class C> auto make_vp() { return om::make_unique_virtual<C, Reg>(); }
template<class T> long uses(const SP<T>&) { return 1; }
#endif
template<class T> using VP = om::virtual_ptr<SP<T>, Reg>;
template<class T> using PP = om::virtual_ptr<T, Reg>;
template<class T, class S> SP<T> cast_sp(const SP<S>& p) { // how a user would cast the smart pointer, copying
#if KIND == 0
    return std::dynamic_pointer_cast<T>(p);
#else
    return SP<T>(dynamic_cast<T*>(p.get()));
#endif
}

struct NextHolder { VP<A> vnext; SP<A> snext; };
Extra::Extra() : h(new NextHolder) {}
Extra::~Extra() { delete h; }

// ---- methods
struct Thrown {};
template<class Root, int Form> struct id;
template<class Root> using val = om::method<id<Root, 0>, Who(VP<Root>, int), Reg>;
template<class Root> using cref = om::method<id<Root, 1>, Who(int, const VP<Root>&), Reg>;
template<class Root> using plain = om::method<id<Root, 2>, Who(PP<Root>), Reg>;
static int inside = 0; // chain length
static bool bad_vptr = false;
static SP<A>* keep_target = nullptr;
template<class T> void seen(const VP<T>& p) { ++inside; if (p.vptr() != expected_vptr(p->cls())) bad_vptr = true; }
template<class Root, class T> Who val_fn(VP<T> p, int mode) {
    using Method = val<Root>;
    seen(p);
    Who w{index_of<T>, p.get(), dynamic_cast<const void*>(p.get()), p.vptr()};
    if (mode == 1) throw Thrown();
    if (mode == 2 && Method::template has_next<val_fn<Root, T>>()) {
        if constexpr (COPY) { if (inside % 2) Method::template next<val_fn<Root, T>>(p, 2); else Method::template next<val_fn<Root, T>>(std::move(p), 2); }
        else Method::template next<val_fn<Root, T>>(std::move(p), 2);
    }
    return w;
}
template<class Root, class T> Who cref_fn(int mode, const VP<T>& p) {
    using Method = cref<Root>;
    seen(p);
    Who w{index_of<T>, p.get(), dynamic_cast<const void*>(p.get()), p.vptr()};
    if (mode == 1) throw Thrown();
    if (mode == 2 && Method::template has_next<cref_fn<Root, T>>()) Method::template next<cref_fn<Root, T>>(2, p);
    return w;
}
template<class Root, class T> Who plain_fn(PP<T> p) { return {index_of<T>, p.get(), dynamic_cast<const void*>(p.get()), p.vptr()}; }
template<class Root, class... T> struct OverAll {
    std::tuple<typename val<Root>::template override<val_fn<Root, T>>...> a;
#if KIND != 2
    std::tuple<typename cref<Root>::template override<cref_fn<Root, T>>...> b;
#endif
    std::tuple<typename plain<Root>::template override<plain_fn<Root, T>>...> c;
};
static OverAll<A, A, B, D, E, F, X, Y> oa;
static OverAll<M, M, D, E, F> omm;
static OverAll<V, V, W, X, Y> ov;
// length of a complete next chain from an object of class k, at root r
static int chain(int k, int root) {
    switch (root) {
    case kA: return k == kA ? 1 : k == kB || k == kD || k == kX ? 2 : 3;   // E: E,B,A  F: F,D,A  Y: Y,X,A
    case kM: return k == kM ? 1 : k == kD || k == kE ? 2 : 3;
    default: return k == kV ? 1 : k == kW || k == kX ? 2 : 1;              // Y: next is ambiguous
    }
}

using Slots = mp11::mp_list<A, B, M, D, E, F, V, W, X, Y
#if KIND != 2
    , const A, const D
#endif
    >;
constexpr int NT = int(mp11::mp_size<Slots>::value), NS = 2;
template<class T> constexpr int slot_of = int(mp11::mp_find<Slots, T>::value);
template<class T> struct Slot { static inline VP<T> vp[NS]; static inline SP<T> sh[NS]; static inline SP<T> rp[NS], rs[NS]; };
static int next_pair = 0;
template<class F> auto real_obj(F f) { cur_pair = next_pair; cur_shadow = false; return f(); }
template<class F> auto shadow_obj(F f) { cur_pair = next_pair; cur_shadow = true; return f(); }

template<class T> void same(const char* what, const VP<T>& v, const SP<T>& s) {
    count("verified");
    if ((v.get() == nullptr) != (s.get() == nullptr)) { violation("ownership", "%s: virtual_ptr is %s, the smart pointer is %s", what, v.get() ? "not null" : "null", s ? "not null" : "null"); return; }
    if (v.pointer().get() != v.get()) violation("ownership", "%s: pointer() and get() differ", what);
    if (!v.get()) { count("nulls"); if (v.vptr() != nullptr) violation("ownership", "%s: null virtual_ptr has a v-table", what); return; }
    if (v->pair() != s->pair() || v->cls() != s->cls()) { violation("ownership", "%s: virtual_ptr owns another object than the smart pointer", what); return; }
    if (&*v != v.get() || v.operator->() != v.get()) violation("ownership", "%s: * or -> differ", what);
    if (v.vptr() != expected_vptr(v->cls())) violation("pairing", "%s: v-table is not that of %s", what, cname(v->cls()));
    if (uses(v.pointer()) != uses(s)) violation("ownership", "%s: count is %ld, the smart pointer has %ld", what, uses(v.pointer()), uses(s));
}
static void check_alive(const char* what) {
    for (int i = 0; i <= next_pair && i < MAXPAIR; ++i)
        if (alive[0][i] != alive[1][i]) { violation("life", "%s: object %d: %s while its twin is %s", what, i, alive[0][i] ? "alive" : "destroyed", alive[1][i] ? "alive" : "destroyed"); return; }
}
template<class T, class Root> void calls(Rng& g, int i) {
    if constexpr (std::is_convertible_v<T*, Root*>) {
        VP<T>& v = Slot<T>::vp[i];
        SP<T>& s = Slot<T>::sh[i];
        if (!v.get()) return;
        int k = v->cls(), pair = v->pair();
        const void* full = dynamic_cast<const void*>(v.get());
        om::vptr_type vt = expected_vptr(k);
        bool moved = false;
        int form = rnd(g, COPY ? 6 : 3), mode = rnd(g, 3);
        Who w; bool threw = false; inside = 0; bad_vptr = false;
        try {
            if constexpr (COPY) {
                if (form == 0) w = val<Root>::fn(v, mode);
                else if (form == 1) w = cref<Root>::fn(mode, v);
                else if (form == 2) { VP<T> c(v); w = val<Root>::fn(std::move(c), mode); if (c.get() || c.vptr()) violation("ownership", "argument moved into a call is not null afterwards"); }
                else if (form == 3) { moved = true; w = val<Root>::fn(std::move(v), mode); }
                else if (form == 4) w = cref<Root>::fn(mode, std::as_const(v));
                else w = plain<Root>::fn(v), mode = 3;
            } else {
                if (form == 0) { moved = true; w = val<Root>::fn(std::move(v), mode); }
                else if (form == 1) { moved = true; VP<T> c(std::move(v)); w = val<Root>::fn(std::move(c), mode); if (c.get() || c.vptr()) violation("ownership", "argument moved into a call is not null afterwards"); }
                else w = plain<Root>::fn(v), mode = 3;
            }
        } catch (Thrown&) { threw = true; }
        catch (om::openmethod_error&) { violation("who", "call on a %s object threw", cname(k)); return; }
        if (moved) s.reset();
        count("calls");
        trail() += std::string("call") + std::to_string(form) + "/" + std::to_string(mode) + " " + cname(k) + "; ";
        if (threw != (mode == 1)) violation("who", "exception of the overrider did not reach the caller");
        if (mode != 3 && inside != (mode == 2 ? chain(k, index_of<Root>) : 1)) violation("who", "%d overriders ran for a %s object seen as %s", inside, cname(k), cname(index_of<Root>));
        if (bad_vptr) violation("pairing", "virtual_ptr with a wrong v-table in an overrider, class %s", cname(k));
        if (!threw) {
            if (w.cls != k) violation("who", "overrider for %s ran on a %s object", cname(w.cls), cname(k));
            if (w.full != full || w.vp != vt) violation("who", "overrider got another object or v-table");
        }
        same("after a call", v, s);
        if (moved && alive[0][pair] != alive[1][pair]) violation("life", "object moved into a call: %s while its twin is %s", alive[0][pair] ? "alive" : "destroyed", alive[1][pair] ? "alive" : "destroyed");
    }
}
#define OP(...) do { char b_[160]; snprintf(b_, sizeof b_, __VA_ARGS__); trail() += b_; trail() += "; "; } while (0)

static int force = -1;
template<class T, class S> void op(Rng& g) {
    int i = rnd(g, NS), j = rnd(g, NS), what = force >= 0 ? force : rnd(g, 26);
    auto& dv = Slot<T>::vp[i]; auto& ds = Slot<T>::sh[i];
    auto& sv = Slot<S>::vp[j]; auto& ss = Slot<S>::sh[j];
    auto& rp = Slot<S>::rp[j]; auto& rs = Slot<S>::rs[j];
    constexpr bool up = std::is_convertible_v<S*, T*>;
    constexpr bool same_type = std::is_same_v<T, S>;
    constexpr bool related = std::is_base_of_v<T, S> || std::is_base_of_v<S, T>;
    constexpr bool constok = std::is_const_v<T> || !std::is_const_v<S>;
    constexpr bool fresh = !std::is_const_v<S>;
    auto note = [&](const char* o) { OP("%s %s%s%d<-%s%d", o, std::is_const_v<T> ? "c" : "", cname(index_of<T>), i, cname(index_of<S>), j); count("ops"); distinct(mix(mix(mix(u64(what), u64(slot_of<T>)), u64(slot_of<S>)), u64(dv.get() ? dv->cls() : 99))); };
    if constexpr (fresh) {
        if (what != 16 && what > 3 && next_pair + 4 < MAXPAIR) {
            if (!sv.get() && chance(g, 50)) { ++next_pair; sv = real_obj([] { return make_vp<S>(); }); ss = shadow_obj([] { return make_sp<S>(); }); }
            if (!rp && what < 10 && chance(g, 70)) { ++next_pair; rp = real_obj([] { return make_sp<S>(); }); rs = shadow_obj([] { return make_sp<S>(); }); }
        }
    }
    if (same_type && i == j && what != 24) return; // self assignment is not what std smart pointers promise
    switch (what) {
    case 0: case 1:
        if constexpr (up && fresh) {
            if (next_pair + 2 >= MAXPAIR) return;
            ++next_pair;
            dv = real_obj([] { return make_vp<S>(); });
            ds = shadow_obj([] { return make_sp<S>(); });
            note("make");
        }
        break;
    case 2: case 3:
        if constexpr (up && fresh) { // S's raw slot gets an object of a class derived from S
            if (next_pair + 2 >= MAXPAIR) return;
            if constexpr (std::is_convertible_v<S*, T*> && !std::is_const_v<T>) {
                ++next_pair;
                Slot<T>::rp[i] = real_obj([] { return make_sp<S>(); });
                Slot<T>::rs[i] = shadow_obj([] { return make_sp<S>(); });
                note("raw make");
            }
        }
        break;
    case 4: if constexpr (up && COPY) { VP<T> v(std::as_const(rp)); SP<T> s(std::as_const(rs)); dv = std::move(v); ds = std::move(s); note("ctor(const raw&)"); } break;
    case 5: if constexpr (up && COPY) { VP<T> v(rp); SP<T> s(rs); dv = std::move(v); ds = std::move(s); note("ctor(raw&)"); } break;
    case 6: if constexpr (up) { VP<T> v(std::move(rp)); SP<T> s(std::move(rs)); dv = std::move(v); ds = std::move(s); if (rp) violation("ownership", "smart pointer moved into a virtual_ptr is not empty"); note("ctor(raw&&)"); } break;
    case 7: if constexpr (up && COPY) { dv = std::as_const(rp); ds = std::as_const(rs); note("=const raw&"); } break;
    case 8: if constexpr (up && COPY) { dv = rp; ds = rs; note("=raw&"); } break;
    case 9: if constexpr (up) { dv = std::move(rp); ds = std::move(rs); if (rp) violation("ownership", "smart pointer moved to a virtual_ptr is not empty"); note("=raw&&"); } break;
    case 10: if constexpr (up && COPY) { VP<T> v(std::as_const(sv)); SP<T> s(std::as_const(ss)); dv = std::move(v); ds = std::move(s); note("ctor(const vp&)"); } break;
    case 11: if constexpr (up && COPY) { VP<T> v(sv); SP<T> s(ss); if (v.get() && uses(v.pointer()) != uses(s)) violation("ownership", "count after copy construction"); dv = std::move(v); ds = std::move(s); note("ctor(vp&)"); } break;
    case 12: if constexpr (up) { VP<T> v(std::move(sv)); SP<T> s(std::move(ss)); same("constructed by move", v, s); dv = std::move(v); ds = std::move(s); note("ctor(vp&&)"); } break;
    case 13: if constexpr (up && COPY) { dv = std::as_const(sv); ds = std::as_const(ss); note("=const vp&"); } break;
    case 14: if constexpr (up && COPY) { dv = sv; ds = ss; note("=vp&"); } break;
    case 15: if constexpr (up) { dv = std::move(sv); ds = std::move(ss); note("=vp&&"); } break;
    case 16:
        if (chance(g, 60)) break;
        if (chance(g, 30)) { dv = nullptr; note("=nullptr"); } else if (chance(g, 50)) { VP<T> v(nullptr); same("built from nullptr", v, SP<T>()); dv = std::move(v); note("ctor(nullptr)"); } else { VP<T> v; same("default constructed", v, SP<T>()); dv = std::move(v); note("ctor()"); }
        ds.reset();
        break;
    case 17: case 18:
        if constexpr (related && constok && COPY) {
            if (!sv.get() || !dynamic_cast<T*>(sv.get())) return;
            if (chance(g, 50)) dv = sv.template cast<T>(); else dv = std::as_const(sv).template cast<T>();
            { SP<T> t = cast_sp<T>(ss); ds = std::move(t); }
            note("=cast&"); count("casts");
        }
        break;
    case 19: case 20:
        if constexpr (related && constok && !std::is_const_v<S>) {
            if (!sv.get() || !dynamic_cast<T*>(sv.get())) return;
            if constexpr (COPY) {
                auto r = std::move(sv).template cast<T>();
                SP<T> t = cast_sp<T>(ss);
                if (!sv.get()) ss.reset(); // the language version decides whether it moves
                dv = std::move(r); ds = std::move(t);
            } else {
                dv = std::move(sv).template cast<T>();
                auto* q = dynamic_cast<std::remove_const_t<T>*>(ss.release());
                ds = SP<std::remove_const_t<T>>(q);
            }
            note("=cast&&"); count("casts");
        }
        break;
    case 21:
        if constexpr (up && fresh) {
            if (next_pair + 2 >= MAXPAIR) return;
            ++next_pair;
            auto r = real_obj([] { return make_sp<S>(); });
            auto s = shadow_obj([] { return make_sp<S>(); });
            if (chance(g, 50)) dv = om::final_virtual_ptr<Reg>(std::move(r)); else dv = VP<S>::final(std::move(r));
            ds = std::move(s);
            if (r) violation("ownership", "smart pointer moved into final_virtual_ptr is not empty");
            note("final");
        }
        break;
    case 22:
        if constexpr (same_type) { std::swap(Slot<T>::vp[0], Slot<T>::vp[1]); std::swap(Slot<T>::sh[0], Slot<T>::sh[1]); note("swap"); }
        else if constexpr (up) {
            bool want = ds.get() == ss.get();
            if ((dv == sv) != want || (dv != sv) == want) violation("compare", "comparison differs from that of the smart pointers");
            note("compare");
        }
        break;
    case 23:
        if constexpr (up) {
            if (!sv.get()) break;
            PP<T> p(sv), q(nullptr);
            q = sv;
            if (p.get() != sv.get() || p.vptr() != sv.vptr() || q.get() != sv.get() || q.vptr() != sv.vptr()) violation("pairing", "plain virtual_ptr made from a smart one differs");
            PP<T> r(*sv);
            if (r.vptr() != sv.vptr()) violation("pairing", "virtual_ptr made from the object has another v-table");
            note("plain");
        }
        break;
    case 24:
        if constexpr (CHECKED && std::is_convertible_v<N*, T*>) {
            if (next_pair + 2 >= MAXPAIR) return;
            ++next_pair;
            auto r = real_obj([] { return make_sp<N>(); });
            auto s = shadow_obj([] { return make_sp<N>(); });
            bool threw = false;
            int how = rnd(g, 4);
            try {
                if (how == 0) dv = std::move(r);
                else if (how == 1) { VP<T> v(std::move(r)); }
                else if constexpr (COPY) { if (how == 2) dv = r; else { VP<T> v(r); } }
                else { VP<T> v(std::move(r)); }
            } catch (om::missing_class& e) { threw = e.type == om::type_id(&typeid(N)); }
            if (!threw) violation("pairing", "object of an unregistered class accepted");
            if (!r || r->pair() != next_pair || uses(r) != uses(s)) violation("ownership", "a rejected object was taken from its owner");
            count("rejected");
            note("unregistered");
        }
        break;
    case 25:
        if constexpr (std::is_same_v<T, A> && std::is_convertible_v<S*, A*>) {
            // lists: A has a next
            if (!dv.get() || next_pair + 4 >= MAXPAIR) break;
            auto& rn = dv->extra.h->vnext; auto& sn = ds->extra.h->snext;
            int how = rnd(g, 6);
            if (how <= 1) {
                if constexpr (fresh) {
                    ++next_pair; // a new object, so never a cycle
                    rn = real_obj([] { return make_vp<S>(); }); sn = shadow_obj([] { return make_sp<S>(); });
                    note("link");
                }
            } else if (!rn.get() && how != 5) {
            } else if (how == 2) { if constexpr (COPY) { dv = rn; ds = sn; note("p=p->next"); count("unlinked"); } }
            else if (how == 3) { dv = std::move(rn); ds = std::move(sn); note("p=move(p->next)"); count("unlinked"); }
            else if (how == 4) { if constexpr (COPY) { dv = std::as_const(rn); ds = std::as_const(sn); note("p=const p->next"); count("unlinked"); } }
            else if constexpr (COPY) { // an object that owns itself, then lets go
                ++next_pair;
                auto r = real_obj([] { return make_vp<S>(); });
                auto s = shadow_obj([] { return SP<A>(make_sp<std::remove_const_t<S>>()); });
                auto rp = r.get(); auto sp = s.get();
                rp->extra.h->vnext = r; sp->extra.h->snext = s;
                r = nullptr; s.reset();
                if (chance(g, 50)) { rp->extra.h->vnext = nullptr; sp->extra.h->snext.reset(); }
                else { rp->extra.h->vnext = VP<A>(); sp->extra.h->snext = SP<A>(); }
                note("cycle"); count("cycles");
            }
        }
        break;
    }
    same("destination", dv, ds);
    same("source", sv, ss);
    if (chance(g, 30)) { calls<T, A>(g, i); calls<T, M>(g, i); calls<T, V>(g, i); }
    if (chance(g, 10)) check_alive("during the history");
}
using OpFn = void (*)(Rng&);
static std::vector<OpFn> table;
template<class F> void each(F f) { mp11::mp_for_each<mp11::mp_iota_c<NT>>([&](auto n) { using T = mp11::mp_at<Slots, decltype(n)>; f(mp11::mp_identity<T>()); }); }
static void verify_all(const char* what) {
    each([&](auto t) { using T = typename decltype(t)::type; for (int i = 0; i < NS; ++i) same(what, Slot<T>::vp[i], Slot<T>::sh[i]); });
    check_alive(what);
}
static void reset_all() {
    each([&](auto t) { using T = typename decltype(t)::type; for (int i = 0; i < NS; ++i) { Slot<T>::vp[i] = nullptr; Slot<T>::sh[i].reset(); Slot<T>::rp[i].reset(); Slot<T>::rs[i].reset(); } });
}
static void reinit(Rng& g) {
    if (!INDIRECT) reset_all();
    toggle_classes(g);
    if (chance(g, 20)) om::finalize<Reg>();
    om::initialize<Reg>();
    count("reinits");
    OP("reinit");
    forced_tag() = "reinit";
    verify_all("after re-initialization");
    each([&](auto t) { using T = typename decltype(t)::type; for (int i = 0; i < NS; ++i) { calls<T, A>(g, i); calls<T, M>(g, i); calls<T, V>(g, i); } });
    forced_tag() = nullptr;
}

int main(int argc, char** argv) {
    om::initialize<Reg>();
    each([&](auto t) { each([&](auto s) {
        using T = typename decltype(t)::type; using S = typename decltype(s)::type;
        if constexpr (std::is_base_of_v<T, S> || std::is_base_of_v<S, T>) { table.push_back(op<T, S>); if (std::is_convertible_v<S*, T*>) table.push_back(op<T, S>); }
    }); });
    int rc = run_cases(argc, argv, [](Rng& g, const Args& a) {
        reset_all();
        next_pair = 0;
        int ops = 50 + rnd(g, 800);
        for (int n = 0; n < ops && stats().viol.size() < 20; ++n) {
            force = chance(g, COPY ? 12 : 25) ? rnd(g, 4) : chance(g, 20) ? 25 : -1;
            table[rnd(g, int(table.size()))](g);
            if (rnd(g, a.mode == "reinit" ? 12 : 200) == 0) reinit(g);
        }
        verify_all("at the end");
        count("objects", next_pair);
        reset_all();
        for (int i = 0; i < MAXPAIR; ++i) if (alive[0][i] || alive[1][i]) { violation("life", "object %d is still alive when its owners are gone (twin: %d)", i, alive[1][i]); alive[0][i] = alive[1][i] = 0; }
        sample(trail().substr(0, 900));
    });
    return rc;
}
