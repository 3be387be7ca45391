// C14 (and C11 for indirect registries): life cycles of objects that embed
// their v-table pointer.  Constructors, destructors and members call methods;
// a shadow "current class" says which overrider a virtual call would run.
#include "../util.hpp"
#include <boost/openmethod/preamble.hpp>
#include <boost/openmethod/policies/std_rtti.hpp>
#include <boost/openmethod/policies/vptr_vector.hpp>
#include <boost/openmethod/policies/stderr_output.hpp>
#include <boost/openmethod/policies/fast_perfect_hash.hpp>
#include <boost/openmethod/policies/throw_error_handler.hpp>
#include <boost/openmethod/core.hpp>
#include <boost/openmethod/inplace_vptr.hpp>
#include <boost/openmethod/interop/std_shared_ptr.hpp>
#include <boost/openmethod/interop/std_unique_ptr.hpp>
#include <boost/openmethod/initialize.hpp>
#include <memory>
#include <optional>
namespace om = boost::openmethod;
namespace po = boost::openmethod::policies;
namespace mp11 = boost::mp11;
#ifndef VARIANT
#define VARIANT 0
#endif
#ifndef POLY
#define POLY 1 // 0: classes without virtual functions
#endif
#if VARIANT == 0   // nothing to locate v-tables outside of the objects
struct Reg : om::registry<po::std_rtti, po::throw_error_handler> {};
#elif VARIANT == 1
struct Reg : om::registry<po::std_rtti, po::throw_error_handler, po::indirect_vptr> {};
#elif VARIANT == 2
struct Reg : om::registry<po::std_rtti, po::vptr_vector, po::fast_perfect_hash, po::throw_error_handler, po::runtime_checks> {};
#elif VARIANT == 3
struct Reg : om::registry<po::std_rtti, po::vptr_vector, po::fast_perfect_hash, po::throw_error_handler, po::runtime_checks, po::indirect_vptr> {};
#endif
constexpr bool INDIRECT = Reg::has_indirect_vptr, CHECKED = Reg::has_runtime_checks;
#if POLY
#define VDTOR virtual
#define VIRT virtual int cls() const
#define PURE virtual int pure() const = 0;
#define IMPURE int pure() const override { return 0; }
#else
#define VDTOR
#define VIRT int cls_static() const
#define PURE
#define IMPURE
#endif

enum Cls { kAnimal, kDog, kBull, kCat, kProp, kPet, kBig, kTrio, kCombo, kUlt, kLeaf, kAbs, kCon, kShape, kDisc, NCLS };
static const char* NAMES[] = {"Animal", "Dog", "Bull", "Cat", "Prop", "Pet", "Big", "Trio", "Combo", "Ult", "Leaf", "Abs", "Con", "Shape", "Disc"};
struct Boom {};
static int throw_in = -1;      // class whose constructor throws next
static int phase_checks = 0;
static bool ready = false;     // the registry is initialized
template<class C> void phase(C* self, const char* what);
template<class C> struct Probe { // a member that looks at its owner
    C* owner;
    explicit Probe(C* o) : owner(o) { phase(owner, "member constructor"); }
    ~Probe() { phase(owner, "member destructor"); }
};
#define LIFE(C, K)                                                             \
    C() : probe(this) { phase(this, "constructor"); if (throw_in == K) { throw_in = -1; throw Boom(); } }   \
    C(const C& o) : bases_of_copy(o) probe(this) { phase(this, "copy constructor"); if (throw_in == K) { throw_in = -1; throw Boom(); } }  \
    C& operator=(const C&) = default;                                          \
    VDTOR ~C() { phase(this, "destructor"); }                                  \
    VIRT { return K; }
// a probe belongs to its own object
template<class C> struct Own : Probe<C> { using Probe<C>::Probe; Own& operator=(const Own&) { return *this; } };

struct Animal : om::inplace_vptr_base<Animal, Reg> {
    long a = 1; Own<Animal> probe;
#define bases_of_copy(o) om::inplace_vptr_base<Animal, Reg>(o), a(o.a),
    LIFE(Animal, kAnimal)
#undef bases_of_copy
};
struct Dog : Animal, om::inplace_vptr_derived<Dog, Animal> {
    long d = 2; Own<Dog> probe;
#define bases_of_copy(o) Animal(o), om::inplace_vptr_derived<Dog, Animal>(o), d(o.d),
    LIFE(Dog, kDog)
#undef bases_of_copy
};
struct Bull : Dog, om::inplace_vptr_derived<Bull, Dog> {
    Own<Bull> probe;
#define bases_of_copy(o) Dog(o), om::inplace_vptr_derived<Bull, Dog>(o),
    LIFE(Bull, kBull)
#undef bases_of_copy
};
struct Cat : Animal, om::inplace_vptr_derived<Cat, Animal> {
    Own<Cat> probe; long c = 3;
#define bases_of_copy(o) Animal(o), om::inplace_vptr_derived<Cat, Animal>(o),
    LIFE(Cat, kCat)
#undef bases_of_copy
};
struct Prop : om::inplace_vptr_base<Prop, Reg> {
    long p = 4; Own<Prop> probe;
#define bases_of_copy(o) om::inplace_vptr_base<Prop, Reg>(o), p(o.p),
    LIFE(Prop, kProp)
#undef bases_of_copy
};
struct Pet : Dog, Prop, om::inplace_vptr_derived<Pet, Dog, Prop> {
    Own<Pet> probe;
#define bases_of_copy(o) Dog(o), Prop(o), om::inplace_vptr_derived<Pet, Dog, Prop>(o),
    LIFE(Pet, kPet)
#undef bases_of_copy
};
struct Big : Pet, om::inplace_vptr_derived<Big, Pet> {
    long b = 5; Own<Big> probe;
#define bases_of_copy(o) Pet(o), om::inplace_vptr_derived<Big, Pet>(o), b(o.b),
    LIFE(Big, kBig)
#undef bases_of_copy
};
struct Trio : om::inplace_vptr_base<Trio, Reg> {
    Own<Trio> probe; long t = 6;
#define bases_of_copy(o) om::inplace_vptr_base<Trio, Reg>(o),
    LIFE(Trio, kTrio)
#undef bases_of_copy
};
struct Combo : Prop, Cat, Trio, om::inplace_vptr_derived<Combo, Prop, Cat, Trio> {
    Own<Combo> probe;
#define bases_of_copy(o) Prop(o), Cat(o), Trio(o), om::inplace_vptr_derived<Combo, Prop, Cat, Trio>(o),
    LIFE(Combo, kCombo)
#undef bases_of_copy
};
struct Ult : Trio, Big, om::inplace_vptr_derived<Ult, Trio, Big> {
    Own<Ult> probe; long u = 7;
#define bases_of_copy(o) Trio(o), Big(o), om::inplace_vptr_derived<Ult, Trio, Big>(o),
    LIFE(Ult, kUlt)
#undef bases_of_copy
};
// everything implicit, as most classes are
struct Leaf : Combo, om::inplace_vptr_derived<Leaf, Combo> {
#if POLY
    int cls() const override { return kLeaf; }
#endif
};
// abstract classes: objects are of these classes only while they are built and
// destroyed
struct Abs : Dog, om::inplace_vptr_derived<Abs, Dog> {
    Own<Abs> probe;
    PURE
#define bases_of_copy(o) Dog(o), om::inplace_vptr_derived<Abs, Dog>(o),
    LIFE(Abs, kAbs)
#undef bases_of_copy
};
struct Con : Abs, om::inplace_vptr_derived<Con, Abs> {
    Own<Con> probe;
    IMPURE
#define bases_of_copy(o) Abs(o), om::inplace_vptr_derived<Con, Abs>(o),
    LIFE(Con, kCon)
#undef bases_of_copy
};
struct Shape : om::inplace_vptr_base<Shape, Reg> {
    Own<Shape> probe;
    PURE
#define bases_of_copy(o) om::inplace_vptr_base<Shape, Reg>(o),
    LIFE(Shape, kShape)
#undef bases_of_copy
};
struct Disc : Shape, Prop, om::inplace_vptr_derived<Disc, Shape, Prop> {
    Own<Disc> probe;
    IMPURE
#define bases_of_copy(o) Shape(o), Prop(o), om::inplace_vptr_derived<Disc, Shape, Prop>(o),
    LIFE(Disc, kDisc)
#undef bases_of_copy
};
using Classes = mp11::mp_list<Animal, Dog, Bull, Cat, Prop, Pet, Big, Trio, Combo, Ult, Leaf, Abs, Con, Shape, Disc>;
template<class C> constexpr int index_of = int(mp11::mp_find<Classes, std::remove_cv_t<C>>::value);

template<class C> using PP = om::virtual_ptr<C, Reg>;
struct Who { int cls = -1; const void* sub = nullptr; };
template<class Root, int> struct id;
template<class Root> using by_ref = om::method<id<Root, 0>, Who(om::virtual_<const Root&>), Reg>;
template<class Root> using by_vp = om::method<id<Root, 1>, Who(int, PP<Root>), Reg>;
template<class A1, class A2> using by_two = om::method<id<A1, 2>, int(om::virtual_<A1&>, om::virtual_<const A2&>), Reg>;
template<class T> Who ref_fn(const T& t) { return {index_of<T>, &t}; }
template<class T> Who vp_fn(int, PP<T> t) { return {index_of<T>, t.get()}; }
template<class T, class U> int two_fn(T&, const U&) { return index_of<T> * 100 + index_of<U>; }
template<class Root, class... T> struct OverAll {
    std::tuple<typename by_ref<Root>::template override<ref_fn<T>>...> a;
    std::tuple<typename by_vp<Root>::template override<vp_fn<T>>...> b;
};
static OverAll<Animal, Animal, Dog, Bull, Cat, Pet, Big, Combo, Ult, Leaf, Abs, Con> oa;
static OverAll<Prop, Prop, Pet, Big, Combo, Ult, Leaf, Disc> op;
static OverAll<Shape, Shape, Disc> os;
static OverAll<Trio, Trio, Combo, Ult, Leaf> ot;
using two = by_two<Prop, Trio>;
static two::override<two_fn<Prop, Trio>, two_fn<Pet, Trio>, two_fn<Prop, Ult>, two_fn<Combo, Ult>, two_fn<Combo, Combo>, two_fn<Ult, Ult>, two_fn<Pet, Combo>, two_fn<Ult, Combo>, two_fn<Combo, Trio>, two_fn<Ult, Trio>> otwo;

template<class Class, class Root, class C> void look(C& obj, const char* what) {
    if constexpr (std::is_base_of_v<Root, Class>) {
        auto& o = static_cast<Class&>(obj);
        Root& r = o;
        ++phase_checks;
        Who w[2];
        try {
            w[0] = by_ref<Root>::fn(r);
#if POLY
            w[1] = by_vp<Root>::fn(1, PP<Root>(r));
#else
            w[1] = w[0];
#endif
        } catch (om::openmethod_error&) { violation("class", "%s: a call on the %s part of a %s object threw", what, NAMES[index_of<Root>], NAMES[index_of<Class>]); return; }
        for (int i = 0; i < 2; ++i) {
            if (w[i].cls != index_of<Class>) { violation("class", "%s: a call on the %s part of a %s object ran the overrider for %s", what, NAMES[index_of<Root>], NAMES[index_of<Class>], NAMES[w[i].cls]); return; }
            if (w[i].sub != static_cast<const void*>(&o)) violation("class", "%s: overrider for %s got another object", what, NAMES[index_of<Class>]);
        }
#if POLY
        PP<Root> p(r);
        if (p.vptr() != Reg::static_vptr<Class>) violation("class", "%s: virtual_ptr to the %s part of a %s object has another v-table", what, NAMES[index_of<Root>], NAMES[index_of<Class>]);
        PP<Class> q(o);
        if (q.vptr() != Reg::static_vptr<Class>) violation("class", "%s: virtual_ptr to a %s object has another v-table", what, NAMES[index_of<Class>]);
#endif
        distinct(mix(mix(mix(index_of<Root>, index_of<Class>), 77), std::hash<std::string>()(what)));
    }
}
template<class Class, class C> void look_all(C& o, const char* what) { look<Class, Animal>(o, what); look<Class, Prop>(o, what); look<Class, Trio>(o, what); look<Class, Shape>(o, what); }
template<class C> void phase(C* self, const char* what) { if (ready) { count("phases"); look_all<C>(*self, what); } }

// ---- a pool of objects of static type C whose dynamic type is C
struct Held { void* p; int k; };
static std::vector<Held> pool;
template<class C> struct Tag { using type = C; };
template<class F> void with(int k, F f) { mp11::mp_for_each<mp11::mp_transform<mp11::mp_identity, Classes>>([&](auto t) { using C = typename decltype(t)::type; if constexpr (!std::is_abstract_v<C>) if (index_of<C> == k) f(Tag<C>()); }); } // nothing for abstract classes
static void check(const Held& h, const char* what) {
    if (!ready) return;
    count("objects_checked");
    with(h.k, [&](auto t) { using C = typename decltype(t)::type; look_all<C>(*static_cast<C*>(h.p), what); });
}
static void check_all(const char* what) { for (auto& h : pool) check(h, what); }
static void kill(std::size_t i) {
    Held h = pool[i];
    pool.erase(pool.begin() + i);
    with(h.k, [&](auto t) {
        using C = typename decltype(t)::type;
#if POLY
        // through a base, as owners do
        if constexpr (std::is_base_of_v<Trio, C>) { Trio* b = static_cast<C*>(h.p); delete b; }
        else if constexpr (std::is_base_of_v<Prop, C>) { Prop* b = static_cast<C*>(h.p); delete b; }
        else if constexpr (std::is_base_of_v<Shape, C>) { Shape* b = static_cast<C*>(h.p); delete b; }
        else { Animal* b = static_cast<C*>(h.p); delete b; }
#else
        delete static_cast<C*>(h.p);
#endif
    });
}
struct GX : Dog, om::inplace_vptr_derived<GX, Dog> {};
struct GY : Prop {}; struct GZ : Trio {};
static std::optional<om::use_classes<Prop, GY, Reg>> gy;
static std::optional<om::use_classes<Trio, GZ, Reg>> gz;
static void reinit(Rng& g) {
    if (!INDIRECT) while (!pool.empty()) kill(pool.size() - 1);
    if (chance(g, 60)) { if (gy) gy.reset(); else gy.emplace(); }
    if (chance(g, 60)) { if (gz) gz.reset(); else gz.emplace(); }
    if (chance(g, 40)) {
        om::finalize<Reg>();
        ready = false;
        if (INDIRECT) for (int n = rnd(g, 3); n > 0; --n) { // made and destroyed while there are no tables
            int k = rnd(g, NCLS);
            with(k, [&](auto t) { using C = typename decltype(t)::type; pool.push_back({new C, k}); if (chance(g, 30)) kill(pool.size() - 1); });
        }
    }
    om::initialize<Reg>();
    ready = true;
    trail() += "reinit; ";
    count("reinits");
    forced_tag() = "reinit";
    check_all("after re-initialization");
    forced_tag() = nullptr;
}

int main(int argc, char** argv) {
    return run_cases(argc, argv, [](Rng& g, const Args& a) {
        if (!ready) { om::initialize<Reg>(); ready = true; }
        throw_in = -1;
        int ops = 40 + rnd(g, 200);
        for (int n = 0; n < ops && stats().viol.size() < 20; ++n) {
            int what = rnd(g, 12), k = rnd(g, NCLS);
            count("ops");
            char b[64]; snprintf(b, sizeof b, "%d:%s; ", what, NAMES[k]); trail() += b;
            if (chance(g, 12)) throw_in = rnd(g, NCLS); else throw_in = -1;
            if (pool.size() > 25) kill(rnd(g, int(pool.size())));
            try {
                with(k, [&](auto t) {
                    using C = typename decltype(t)::type;
                    auto other = [&](auto f) { // some object convertible to C
                        for (int m = 0; m < 30 && !pool.empty(); ++m) {
                            auto h = pool[rnd(g, int(pool.size()))];
                            bool done = false;
                            with(h.k, [&](auto u) { using D = typename decltype(u)::type; if constexpr (std::is_base_of_v<C, D>) { f(*static_cast<D*>(h.p)); done = true; } });
                            if (done) return;
                        }
                    };
                    switch (what) {
                    case 0: case 1: case 2: pool.push_back({new C, k}); check(pool.back(), "new"); break;
                    case 3: other([&](auto& d) { C* c = new C(d); pool.push_back({c, k}); check(pool.back(), "copied"); }); break;
                    case 4: other([&](auto& d) { C* c = new C(std::move(d)); pool.push_back({c, k}); check(pool.back(), "moved"); }); break;
                    case 5: case 6: other([&](auto& d) {
                        for (int m = 0; m < 20; ++m) {
                            auto h = pool[rnd(g, int(pool.size()))];
                            if (h.k == k) { if (what == 5) *static_cast<C*>(h.p) = d; else *static_cast<C*>(h.p) = std::move(d); check(h, "assigned"); break; }
                        }
                    }); break;
                    case 7: other([&](auto& d) { // assignment to the base part of an object of a derived class
                        for (int m = 0; m < 20; ++m) {
                            auto h = pool[rnd(g, int(pool.size()))];
                            with(h.k, [&](auto u) { using E = typename decltype(u)::type; if constexpr (std::is_base_of_v<C, E>) { C& c = *static_cast<E*>(h.p); if (chance(g, 50)) c = d; else c = C(); check(h, "base part assigned"); } });
                        }
                    }); break;
                    case 8: { // objects on the stack, in arrays and vectors
                        C c; look_all<C>(c, "local");
                        C d(c); std::swap(c, d); look_all<C>(c, "swapped"); look_all<C>(d, "swapped");
                        std::vector<C> v; for (int m = rnd(g, 5) + 1; m > 0; --m) { v.push_back(c); v.emplace_back(); }
                        if (v.size() > 2) v.erase(v.begin() + 1);
                        for (auto& e : v) look_all<C>(e, "in a vector");
                        std::optional<C> o(c); look_all<C>(*o, "in an optional"); o.emplace(); look_all<C>(*o, "in an optional");
                        break;
                    }
                    case 9: if (!pool.empty()) kill(rnd(g, int(pool.size()))); break;
                    case 10: { // smart virtual_ptrs to such objects
                        auto s = om::make_shared_virtual<C, Reg>(); look_all<C>(*s, "shared");
                        if (s.vptr() != Reg::static_vptr<C>) violation("class", "make_shared_virtual<%s>: another v-table", NAMES[k]);
                        auto u = om::make_unique_virtual<C, Reg>(); look_all<C>(*u, "unique");
#if POLY
                        om::virtual_ptr<std::shared_ptr<C>, Reg> q(std::make_shared<C>());
                        if (q.vptr() != Reg::static_vptr<C> || u.vptr() != q.vptr()) violation("class", "shared_ptr<%s>: another v-table", NAMES[k]);
#endif
                        break;
                    }
                    case 11: { // storage reused by an object of another class
                        alignas(std::max_align_t) unsigned char buf[1024];
                        static_assert(sizeof(Ult) <= 1024 && sizeof(Leaf) <= 1024);
                        for (int m = 0; m < 3; ++m) with(rnd(g, NCLS), [&](auto u) { using D = typename decltype(u)::type; D* d = new (buf) D; look_all<D>(*d, "in reused storage"); d->~D(); });
                        break;
                    }
                    }
                    if constexpr (std::is_base_of_v<Prop, C>) {
                        if (!pool.empty() && chance(g, 20)) {
                            auto h = pool[rnd(g, int(pool.size()))];
                            with(h.k, [&](auto u) { using D = typename decltype(u)::type; if constexpr (std::is_base_of_v<Trio, D>) {
                                throw_in = -1;
                                int a = std::is_base_of_v<Ult, C> ? kUlt : std::is_base_of_v<Combo, C> ? kCombo : std::is_base_of_v<Pet, C> ? kPet : kProp;
                                int b2 = std::is_base_of_v<Ult, D> ? kUlt : std::is_base_of_v<Combo, D> ? kCombo : kTrio;
                                if (a == kPet && b2 == kUlt) return; // ambiguous: (Pet,Trio) and (Prop,Ult)
                                C c; int r = two::fn(c, *static_cast<D*>(h.p));
                                int want = a * 100 + b2;
                                if (a == kProp && b2 == kCombo) want = kProp * 100 + kTrio;
                                if (r != want) violation("class", "two-argument call on %s and %s ran %d, expected %d", NAMES[k], NAMES[h.k], r, want);
                                count("two_calls");
                            } });
                        }
                    }
                });
            } catch (Boom&) { count("constructors_thrown"); check_all("after a throwing constructor"); }
            throw_in = -1;
            if (rnd(g, a.mode == "reinit" ? 6 : 60) == 0) reinit(g);
        }
        check_all("at the end");
        while (!pool.empty()) kill(pool.size() - 1);
        count("phase_checks", phase_checks); phase_checks = 0;
        sample(trail().substr(0, 900));
    });
}
