// Classes with single, multiple and virtual inheritance; every object knows
// its dynamic class, counts its references and reports its life.
#pragma once
#include "util.hpp"
#include "registries.hpp"
#include <array>
#include <memory>
#include <optional>
#include <boost/mp11.hpp>
namespace mp11 = boost::mp11;

constexpr int MAXPAIR = 4096;
inline int alive[2][MAXPAIR];
inline int cur_pair = 0;
inline bool cur_shadow = false;
struct Tok {
    int pair = cur_pair; bool shadow = cur_shadow;
    Tok() { ++alive[shadow][pair]; }
    Tok(const Tok&) = delete;
    ~Tok() { --alive[shadow][pair]; pair = -1; }
};
enum Cls { kA, kB, kM, kD, kE, kF, kV, kW, kX, kY, kN, NCLS };
inline const char* cname(int k) { static const char* n[] = {"A", "B", "M", "D", "E", "F", "V", "W", "X", "Y", "N"}; return n[k]; }

#define COMMON(K)                                                              \
    Tok tok; mutable int rc = 0;                                               \
    virtual int cls() const { return K; }                                      \
    virtual int pair() const { return tok.pair; }                              \
    virtual void add_ref() const { ++rc; }                                     \
    virtual int del_ref() const { return --rc; }                               \
    virtual int refs() const { return rc; }
#define BODY(K)                                                                \
    Tok tok; mutable int rc = 0;                                               \
    int cls() const override { return K; }                                     \
    int pair() const override { return tok.pair; }                             \
    void add_ref() const override { ++rc; }                                    \
    int del_ref() const override { return --rc; }                              \
    int refs() const override { return rc; }
struct NextHolder; // defined by the smart pointer harness
struct Extra { NextHolder* h; Extra(); ~Extra(); Extra(const Extra&) = delete; };
struct A { COMMON(kA) long a = 1; Extra extra; virtual ~A() {} };
struct B : A { BODY(kB) long b = 2; };
struct M { COMMON(kM) long m = 3; virtual ~M() {} };
struct D : M, A { BODY(kD) long d = 4; };
struct E : B, M { BODY(kE) long e = 5; };
struct F : D { BODY(kF) };
struct V { COMMON(kV) long v = 6; virtual ~V() {} };
struct W : virtual V { BODY(kW) long w = 7; };
struct X : A, virtual V { BODY(kX) long x = 8; };
struct Y : W, X { BODY(kY) };
struct N : A { BODY(kN) }; // never registered
using Classes = mp11::mp_list<A, B, M, D, E, F, V, W, X, Y>;
template<class T> constexpr int index_of = int(mp11::mp_find<mp11::mp_push_back<Classes, N>, std::remove_cv_t<T>>::value);
template<class T> void intrusive_ptr_add_ref(const T* p) { p->add_ref(); }
template<class T> void intrusive_ptr_release(const T* p) { if (p->del_ref() == 0) delete p; }

inline om::vptr_type expected_vptr(int k) {
    om::vptr_type r = nullptr;
    mp11::mp_for_each<mp11::mp_transform<mp11::mp_identity, Classes>>([&](auto i) {
        using T = typename decltype(i)::type;
        if (index_of<T> == k) r = Reg::static_vptr<T>;
    });
    return r;
}
static om::use_classes<A, B, M, D, E, F, V, W, X, Y, Reg> use_zoo;

// Classes that come and go, so that re-initialization moves every table.
struct G0 : A {}; struct G1 : B {}; struct G2 : M {}; struct G3 : Y {};
inline std::optional<om::use_classes<A, G0, Reg>> g0;
inline std::optional<om::use_classes<B, G1, Reg>> g1;
inline std::optional<om::use_classes<M, G2, Reg>> g2;
inline std::optional<om::use_classes<Y, G3, Reg>> g3;
inline void toggle_classes(Rng& r) {
    auto t = [&](auto& o) { if (chance(r, 50)) { if (o) o.reset(); else o.emplace(); } };
    t(g0); t(g1); t(g2); t(g3);
}

// who: which overrider ran, and on which subobject.
struct Who { int cls = -1; const void* sub = nullptr; const void* full = nullptr; om::vptr_type vp = nullptr; };
