#!/usr/bin/env python3
"""C22: writes a program of several translation units that see the default registry with the
same or different definitions; prints one line per unit: file, flags, how it is linked."""
import random, sys

HDR = r'''
#pragma once
#include <boost/openmethod.hpp>
#include <boost/openmethod/initialize.hpp>
#include <boost/openmethod/policies/throw_error_handler.hpp>
namespace om = boost::openmethod; namespace po = boost::openmethod::policies;
struct Animal { virtual ~Animal() {} };
struct Dog : Animal {}; struct Cat : Animal {}; struct Bull : Dog {};
BOOST_OPENMETHOD(poke, (om::virtual_ptr<Animal>, int), int);
struct other : om::registry<po::std_rtti, po::vptr_vector, po::fast_perfect_hash, po::throw_error_handler> {};
BOOST_OPENMETHOD(tickle, (om::virtual_ptr<Animal, other>, int), int, other);
struct Thrown { bool odr; };
inline void throw_it(const om::odr_violation&) { throw Thrown{true}; }
template<class E> void throw_it(const E&) { throw Thrown{false}; }
#define UNIT(K) \
  void install_##K() { om::default_registry::error_handler::set([](const auto& v) { std::visit([](auto& e) { throw_it(e); }, v); }); } \
  void init_##K(int how) { switch (how) { case 0: om::initialize(); break; case 1: om::initialize<om::default_registry>(); break; case 2: om::initialize(om::n2216()); break; case 3: om::initialize(om::trace(false)); break; } } \
  int call_##K(int which) { static Dog d; static Cat c; static Bull b; Animal* a[] = {&d, &c, &b}; return poke(*a[which], 1); }
'''

def main(seed, out):
    r = random.Random(seed)
    n = r.randint(1, 5)
    flags = [r.choice([0, 1])] * n
    if n > 1 and r.random() < .55:
        # at least one unit disagrees
        k = r.randrange(n)
        flags = [f ^ (i == k or r.random() < .2) for i, f in enumerate(flags)]
    roles = [r.choice(['use', 'use', 'header']) for _ in range(n)]
    if 'use' not in roles:
        roles[0] = 'use'
    blind = r.random() < .5       # a unit compiled the other way that never sees the default registry
    solib = r.random() < .4       # a library loaded after the first initialize
    soflag = r.choice([0, 1])
    agree = len(set(flags)) == 1
    home = r.choice([i for i in range(n) if roles[i] == 'use'])
    lines = []
    open(f'{out}/lib.hpp', 'w').write(HDR)
    for i in range(n):
        s = ['#define BOOST_OPENMETHOD_ENABLE_RUNTIME_CHECKS' if flags[i] else '#undef BOOST_OPENMETHOD_ENABLE_RUNTIME_CHECKS']
        if roles[i] == 'header':
            s += [r.choice(['#include <boost/openmethod/default_registry.hpp>', '#include <boost/openmethod/core.hpp>', '#include <boost/openmethod.hpp>']), f'int header_{i} = {i};']
        else:
            s += ['#include "lib.hpp"', f'UNIT({i})']
            s += [r.choice(['BOOST_OPENMETHOD_CLASSES(Animal, Dog, Cat, Bull);', 'BOOST_OPENMETHOD_CLASSES(Animal, Dog); BOOST_OPENMETHOD_CLASSES(Animal, Cat); BOOST_OPENMETHOD_CLASSES(Dog, Bull);'])]
            if i == home:
                s += ['BOOST_OPENMETHOD_OVERRIDE(poke, (om::virtual_ptr<Animal>, int x), int) { return 100 + x; }', 'BOOST_OPENMETHOD_OVERRIDE(poke, (om::virtual_ptr<Bull>, int x), int) { return 300 + x; }']
                s += ['BOOST_OPENMETHOD_CLASSES(Animal, Dog, other); BOOST_OPENMETHOD_OVERRIDE(tickle, (om::virtual_ptr<Dog, other>, int x), int) { return 500 + x; }']
            elif r.random() < .4:
                s += [f'BOOST_OPENMETHOD(m{i}, (om::virtual_ptr<Animal>), void); BOOST_OPENMETHOD_OVERRIDE(m{i}, (om::virtual_ptr<Dog>), void) {{}}']
        open(f'{out}/u{i}.cpp', 'w').write('\n'.join(s) + '\n')
        lines.append(f'u{i}.cpp main')
    if blind:
        f = 1 - flags[0]
        s = ['#define BOOST_OPENMETHOD_ENABLE_RUNTIME_CHECKS' if f else '#undef BOOST_OPENMETHOD_ENABLE_RUNTIME_CHECKS', '#include <boost/openmethod/preamble.hpp>', '#include <boost/openmethod/policies/std_rtti.hpp>', '#include <boost/openmethod/policies/vptr_map.hpp>',
             'namespace om = boost::openmethod; struct blind : om::registry<om::policies::std_rtti, om::policies::vptr_map<>> {}; void* blind_use = (void*)&blind::static_vptr<int>;']
        open(f'{out}/blind.cpp', 'w').write('\n'.join(s) + '\n')
        lines.append('blind.cpp main')
    users = [i for i in range(n) if roles[i] == 'use']
    if solib:
        s = ['#define BOOST_OPENMETHOD_ENABLE_RUNTIME_CHECKS' if soflag else '#undef BOOST_OPENMETHOD_ENABLE_RUNTIME_CHECKS', '#include "lib.hpp"', 'UNIT(lib)', 'BOOST_OPENMETHOD_CLASSES(Animal, Dog, Cat);',
             'extern "C" void lib_install() { install_lib(); }', 'BOOST_OPENMETHOD_OVERRIDE(poke, (om::virtual_ptr<Cat>, int x), int) { return 200 + x; }']
        open(f'{out}/so.cpp', 'w').write('\n'.join(s) + '\n')
        lines.append('so.cpp lib')
    # the driver does not see the registry
    d = ['#include "util.hpp"', '#include <dlfcn.h>', 'struct Thrown { bool odr; };']
    for i in users:
        d.append(f'void install_{i}(); void init_{i}(int); int call_{i}(int);')
    d.append('struct Unit { void (*install)(); void (*init)(int); int (*call)(int); int k; };')
    d.append('static Unit units[] = {' + ', '.join(f'{{install_{i}, init_{i}, call_{i}, {i}}}' for i in users) + '};')
    d.append(f'static const bool agree = {int(agree)}, agree_with_lib = {int(agree and soflag == flags[0])}, has_lib = {int(solib)};')
    d.append(f'static const char* what = "{n} units, definitions {"".join(str(int(f)) for f in flags)}, roles {",".join(roles)}{", blind unit" if blind else ""}{", library " + str(soflag) if solib else ""}";')
    d.append(r'''
static void expect_init(Unit& u, int how, bool ok, const char* when) {
    count("initializations"); count(ok ? "agreeing" : "conflicting");
    for (int again = 0; again < 2; ++again) {
        bool odr = false, thrown = false, std_ = false;
        try { u.init(how); } catch (Thrown& t) { thrown = true; odr = t.odr; } catch (...) { std_ = true; }
        if (ok && (thrown || std_)) violation("odr", "%s: initialize from unit %d reports %s %s", what, u.k, odr ? "an ODR violation" : "an error", when);
        if (!ok && (!thrown || !odr)) violation("odr", "%s: initialize from unit %d reports %s %s", what, u.k, thrown ? "another error" : std_ ? "an unknown exception" : "nothing", when);
    }
    // with the handler that was there at the start, in a process of its own
}
static void dies(Unit& u, int how, bool ok, const char* when) {
    Child c = in_child([&] { u.init(how); std::printf("RETURNED"); });
    count("processes");
    if (ok) { if (!c.ok() || c.out != "RETURNED" || !c.err.empty()) violation("odr", "%s: initialize from unit %d with the default handler: status %d, [%s] %s", what, u.k, c.status, c.err.c_str(), when); return; }
    if (!c.aborted() || !c.out.empty()) violation("odr", "%s: initialize from unit %d returns or does not abort (status %d) %s", what, u.k, c.status, when);
    if (c.err.find("conflicting definitions of ") != 0 || c.err.find('\n') != c.err.size() - 1) violation("odr", "%s: standard error is [%s] %s", what, c.err.c_str(), when);
}
static void calls(Unit& u, bool lib) {
    for (int k = 0; k < 3; ++k) { int e = k == 2 ? 301 : k == 1 && lib ? 201 : 101; count("calls"); int x = u.call(k); if (x != e) violation("odr", "%s: call %d from unit %d returns %d, expected %d", what, k, u.k, x, e); }
}
int main(int argc, char** argv) {
    return run_cases(argc, argv, [](Rng& g, const Args&) { forked_case([&] {
        sample(what);
        distinct(std::hash<std::string>()(what));
        for (auto& u : units) dies(u, rnd(g, 4), agree, "at first");
        for (auto& u : units) u.install();
        for (auto& u : units) { expect_init(u, rnd(g, 4), agree, "with a throwing handler"); if (agree) calls(u, false); }
        if (has_lib) {
            char path[4000]; ssize_t n = readlink("/proc/self/exe", path, 3900); path[n] = 0;
            void* h = dlopen((std::string(path) + ".so").c_str(), RTLD_NOW | RTLD_GLOBAL);
            if (!h) { std::printf("%s\n", dlerror()); _exit(3); }
            for (auto& u : units) dies(u, rnd(g, 4), agree_with_lib, "after loading a library (throwing handler replaced)");
            ((void (*)())dlsym(h, "lib_install"))();
            for (auto& u : units) { expect_init(u, rnd(g, 4), agree_with_lib, "after loading a library"); if (agree_with_lib) calls(u, true); }
        }
    }); });
}''')
    s = '\n'.join(d)
    # with handlers installed the process ends by an exception instead: not looked at
    s = s.replace('for (auto& u : units) dies(u, rnd(g, 4), agree_with_lib, "after loading a library (throwing handler replaced)");', '')
    open(f'{out}/driver.cpp', 'w').write(s + '\n')
    lines.append('driver.cpp main')
    mains = [l for l in lines if l.endswith('main')]
    r.shuffle(mains)
    print('main=' + ','.join(l.split()[0] for l in mains), 'lib=' + ('so.cpp' if solib else ''))

main(int(sys.argv[1]), sys.argv[2])
