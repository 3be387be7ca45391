"""One function per property: which harnesses run, what counts as evidence."""
from common import *

MODEL = 'harness/model/model.cpp'
VNAMES = {0: 'vector', 1: 'hash_checked', 2: 'hash_indirect', 3: 'map_checked', 4: 'stdmap_indirect', 5: 'vector_indirect_checked'}
A_MODEL = ['the reference model of harness/model/model.hpp states the documented rules',
           'class lattices of at most 45 classes (110 in the wide builds), at most 4 (17) virtual parameters and 9 (130) overriders per method',
           'programs are presented through a deferred custom RTTI policy; the E2 checks use compiled C++ classes']


def model_builds(c, asan, fast, small=False):
    bs = []
    d = ' -DSMALL_ENGINE' if small else ''
    for v in asan:
        bs.append(Build(f'model_asan_{VNAMES[v]}', MODEL, f'{ASAN} -DVARIANT={v}{d}'))
    for v in fast:
        bs.append(Build(f'model_fast_{VNAMES[v]}', MODEL, f'{FAST} -DVARIANT={v}{d}'))
    return bs


def model_runs(c, builds, modes, asan_cases, fast_cases, shards=1, timeout=420):
    runs = []
    for i, b in enumerate(builds):
        n = asan_cases if 'asan' in b.name else fast_cases
        for mode in modes:
            for s in range(shards):
                big = '--big' if (c.thorough and s % 2) or s % 4 == 3 else ''
                seed = c.seed * 1000 + i * 10 + s
                runs.append(Run(b, f'--mode {mode} --seed {seed} --cases {n} {big}', timeout=timeout,
                                replay=lambda k, mode=mode, big=big: f'--mode {mode} --case {k} {big}'))
    return runs


def model_check(c, modes, tags, evals, rule, quick=(60, 900), thorough=(600, 12000), asan=(1,), fast=(0, 2, 3), shards=2, minimum=100, assumptions=(), small=False, wide=()):
    if c.thorough:
        asan, fast, (na, nf), shards, timeout = (0, 1, 2, 3, 4, 5), (0, 1, 2, 3, 4, 5), thorough, 4, 3000
    else:
        (na, nf), timeout = quick, 420
    bs = model_builds(c, asan, fast, small)
    runs = model_runs(c, bs, modes, na, nf, shards, timeout)
    if wide:
        ws = [Build(f'model_wide_{VNAMES[v]}', MODEL, f'{FAST} -DVARIANT={v} -DWIDE_ENGINE') for v in (wide if c.thorough else wide[:1])]
        runs += model_runs(c, ws, modes, 0, max(nf // 30, 10), shards, timeout)
        bs += ws
    res = c.run_all(bs, runs, tags)
    ev = sum(c.stats.get(k, 0) for k in evals)
    if c.stats.get('programs'):
        ev += c.stats.get('calls', 0)
        rule += '; and compiled random programs, where an evaluation is a call compared with the log expected from the declarations'
        assumptions = list(assumptions) + A_GEN
    return ev, c.stats.get('distinct', 0), rule, list(A_MODEL) + list(assumptions), minimum


# ---------------------------------------------------------------- generated programs
GEN_CONF = {0: 'default_registry', 1: 'hash_checked', 2: 'hash_indirect', 3: 'map_checked', 4: 'custom_vector_indirect', 5: 'custom_stdmap', 6: 'deferred_map_indirect_checked',
            7: 'inplace', 8: 'inplace_indirect_checked', 9: 'deferred_vector', 10: 'with_without', 11: 'indirect_registry', 12: 'custom_nonpolymorphic',
            13: 'static_rtti', 14: 'static_rtti_indirect_checked', 15: 'inplace_nonpolymorphic', 16: 'static_rtti_inplace_indirect'}
A_GEN = ['the generated programs are well-formed uses of the documented interface; expectations are computed by harness/gen/gen.py from the declarations alone',
         'at most 11 classes, 7 methods, 4 virtual parameters per generated program; in programs with embedded v-table pointers there is no virtual inheritance']


def gen_build(seed, conf, cxx='clang++', std='17', san=True, tus=1, opt='-O0'):
    extra = {7: ' --inplace', 8: ' --inplace', 12: ' --nonpoly', 13: ' --statics', 14: ' --statics', 15: ' --nonpoly --inplace', 16: ' --statics --inplace'}.get(conf, '')
    flags = f'-O0 -g1 -fsanitize=address,undefined -fno-sanitize-recover=undefined' if san else f'{opt} -g0'
    if san and conf in (7, 8, 15, 16):
        flags += ' -fno-sanitize=vptr'
    cc = f'{cxx} -std=c++{std} {BASE} {"-fno-lifetime-dse " if cxx == "g++" else ""}{flags}'
    inc = f'-I{REPO}/include -I{VERIF}/harness -I{VERIF}/harness/gen'
    def shell(out):
        return (f'export PYTHONHASHSEED=0; g={out}_gen; rm -rf $g; fs=$(python3 {VERIF}/harness/gen/gen.py {seed} $g --tus {tus}{extra}) || exit 1; os=; '
                f'for x in $fs; do {cc} -DCONF={conf} {inc} -I$g -c $x -o $x.o || exit 1; os="$os $x.o"; done; {cc} $os -o {out}; r=$?; rm -rf $g; [ $r = 0 ]')
    return Build(f'gen_{seed}_{GEN_CONF[conf]}_{cxx.replace("+", "x")}{std}_{tus}tu{"" if san else "_plain"}', [], shell=shell)


def gen_programs(c, specs, tags):
    """specs: dicts of gen_build arguments; every program calls, chains and re-initializes by itself."""
    bs = [gen_build(**s) for s in specs]
    for b in bs:
        b.well_formed = c.prop in ('C10', 'C16', 'C24')
    c.run_all(bs, [Run(b, '--cases 1', timeout=300) for b in bs], tags)
    c.stats['programs'] = c.stats.get('programs', 0) + len(bs)


def gen_mix(c, n, confs=tuple(GEN_CONF), tus=(1,), first=0):
    """n programs, each under the next configuration."""
    base = c.seed * 1000 + 500 * int(c.thorough) + int(c.prop[1:]) * 100000
    r = []
    for i in range(n):
        k = i + first
        r.append(dict(seed=base + i, conf=confs[k % len(confs)], tus=tus[k % len(tus)], cxx='g++' if k % 5 == 4 else 'clang++', std='20' if k % 7 == 3 else '17',
                      san=k % 5 != 4, opt='-O2 -DNDEBUG' if k % 10 == 4 else '-O0'))
    return r


def done(c, t):
    ev, d, rule, a, minimum = t
    return c.finish(ev, d, rule, a, minimum)


def C01(c):
    gen_programs(c, gen_mix(c, 120 if c.thorough else 8, (1, 2, 4, 3, 9, 11, 0, 5)), {'select'})
    return done(c, model_check(c, ['select'], {'select'}, ['selections'],
        'random class lattices, methods and overriders; one evaluation is a call with a unique most specialised overrider, compared with the reference model; distinct by (arity, applicable set size, lattice size, method, overrider)', wide=(3, 1, 0)))


def C02(c):
    gen_programs(c, gen_mix(c, 120 if c.thorough else 8, (1, 4, 11, 3, 9, 2, 6, 8)), {'bad'})
    return done(c, model_check(c, ['bad'], {'bad', 'content'}, ['no_overrider', 'ambiguous'],
        'random programs; one evaluation is a call without a unique best overrider, its error compared field by field', wide=(1, 0, 3)))


def C03(c):
    gen_programs(c, gen_mix(c, 120 if c.thorough else 8, (11, 3, 1, 9, 2, 7, 5, 10)), {'next'})
    return done(c, model_check(c, ['next'], {'next', 'content'}, ['chains', 'named'],
        'random programs; one evaluation is a chain of next() from a call or from an overrider called by name, each link compared with the model', wide=(2, 4, 0)))


def C04(c):
    return done(c, model_check(c, ['order'], {'order'}, ['compared_calls'],
        'each random program is registered in 4 (6) orders and groupings, each in its own process; evaluations are calls whose complete behaviour was compared; distinct programs by behaviour'))


def C05(c):
    return done(c, model_check(c, ['history'], {'history'}, ['compared_calls'],
        'random histories of initialize/finalize/failed initialize/added and removed registrations, then the program; compared call by call with a process that did only the last step', quick=(40, 600)))


def C06(c):
    gen_programs(c, gen_mix(c, 120 if c.thorough else 8, (11, 0, 9, 3, 7, 2, 5, 10)), {'report'})
    return done(c, model_check(c, ['report'], {'report'}, ['reports'],
        'random programs; the report is compared with counts over all class combinations; distinct by the report', quick=(300, 3000), thorough=(4000, 40000), wide=(0, 1)))


def C07(c):
    return done(c, model_check(c, ['n2216'], {'n2216', 'content'}, ['n2216_resolved'],
        'random programs initialized with n2216; an evaluation is an ambiguous call; the pick is checked against the model and repeated', wide=(4, 1)))


def C08(c):
    return done(c, model_check(c, ['errors', 'init'], {'errors', 'init', 'search', 'content'}, ['missing_class_errors', 'missing_base_errors', 'consistent', 'initializations'],
        'random programs with classes or inheritance edges removed from the registrations (and consistent ones); the error must be one of those the model derives', quick=(300, 4000), thorough=(3000, 40000)))


def C09(c):
    return done(c, model_check(c, ['hash'], {'hash', 'search'}, ['selections', 'foreign_ids', 'search_errors'],
        'random type id sets in several styles', asan=(1,), fast=(1, 2, 3, 5)))


def C18(c):
    return done(c, model_check(c, ['isolation'], {'isolation'}, ['compared_calls'],
        'random interleavings of operations on two registries sharing type ids; after each one the other registry must behave as before', small=True))


DL_CONF = {0: 'default', 1: 'indirect', 2: 'map_checked', 3: 'hash_indirect_checked', 4: 'map_indirect'}


def dl_build(seed, conf, cxx='clang++', san=True):
    cc = f'{cxx} -std=c++17 {BASE} {"-fno-lifetime-dse -fno-gnu-unique " if cxx == "g++" else ""}{ASAN if san else FAST} -DCONF={conf} -I{REPO}/include -I{VERIF}/harness -I{VERIF}/harness/dlopen'
    def shell(out):
        return (f'g={out}_gen; rm -rf $g; k=$(python3 {VERIF}/harness/dlopen/gendl.py {seed} $g) || exit 1; ps=; {cc} -I$g -rdynamic $g/main.cpp -o {out} -ldl & ps=$!; '
                f'for i in $(seq $k); do {cc} -I$g -fPIC -shared $g/p$i.cpp -o {out}_p$i.so & ps="$ps $!"; done; r=0; for p in $ps; do wait $p || r=1; done; rm -rf $g; [ $r = 0 ]')
    return Build(f'dl_{seed}_{DL_CONF[conf]}_{cxx.replace("+", "x")}{"" if san else "_plain"}', [], shell=shell)


def C19(c):
    n, cases = (60, 300) if c.thorough else (7, 60)
    base = c.seed * 1000 + 500 * int(c.thorough)
    # the sanitizers' own bookkeeping of globals keeps unloaded memory from being reused at once, so some run without
    bs = [dl_build(base + i, i % 5, 'g++' if i % 3 == 2 else 'clang++', i % 4 != 3) for i in range(n)]
    runs = [Run(b, f'--seed {base + i} --cases {cases}', timeout=900, replay=lambda k: f'--case {k}') for i, b in enumerate(bs)]
    c.run_all(bs, runs, {'dl', 'crash'}, jobs=3)
    if not c.violations and not c.errors and c.stats.get("unloads", 0) < 20 * n:
        raise CheckError(f'only {c.stats.get("unloads", 0)} plugins were unloaded')
    return c.finish(c.stats.get('calls', 0), c.stats.get('distinct', 0),
        'random programs split over an executable and two to four plugins; random histories of dlopen (local, global, repeated), dlclose, initialize (from the executable or a plugin) and finalize; an evaluation is a call, from the executable or a plugin, compared with the reference model of the modules loaded; distinct by method, overriders present, outcome and argument classes',
        ['libraries are unloadable (compiled by clang++, or by g++ with -fno-gnu-unique), and those that share classes or methods unknown to the program are loaded with RTLD_GLOBAL, because the documentation requires static variables to be unique',
         'no call is made between loading or unloading and the next initialize', 'at most 13 classes, 7 methods, 4 plugins'], 1000)


def C21(c):
    return done(c, model_check(c, ['trace'], {'trace'}, ['compared_calls'],
        'the same program initialized with different trace options, in separate processes', quick=(20, 250), asan=(1,), fast=(0, 3, 4)))


def C25(c):
    return done(c, model_check(c, ['alias'], {'select', 'bad', 'next', 'report', 'init', 'search', 'content'}, ['selections', 'no_overrider', 'ambiguous', 'chains'],
        'random programs in which classes have up to three type ids, used at random in registrations, signatures and objects'))


def C26(c):
    return done(c, model_check(c, ['retry'], {'retry', 'crash', 'search'}, ['compared_calls', 'calls_not_initialized'],
        'failed initializations, then the corrected program; compared with a fresh process', quick=(60, 900)))


# ---------------------------------------------------------------- handwritten harnesses
NOVPTR = ASAN + ' -fno-sanitize=vptr'  # CRTP bases and unregistered objects are looked at as what they are not yet


def histories(c, specs, quick, thorough, tags, evals, rule, assumptions=(), minimum=500, mode='', timeout=420):
    """specs: (source, flags, compiler, standard[, quick?]); each is built and run with several seeds."""
    bs, runs = [], []
    n = thorough if c.thorough else quick
    for k, sp in enumerate(specs):
        src, flags, cxx, std = sp[:4]
        inquick = sp[4] if len(sp) > 4 else True
        if not inquick and not c.thorough:
            continue
        name = os.path.basename(src).split('.')[0] + '_' + re.sub(r'[^A-Za-z0-9]+', '_', ' '.join(re.findall(r'-D(\S+)', flags))) + f'_{cxx.replace("+", "x")}{std}' + ('' if 'fsanitize' in flags else '_plain')
        b = Build(name, src, flags, cxx, std)
        bs.append(b)
        for s in range(4 if c.thorough else 1):
            seed = c.seed * 1000 + k * 10 + s
            m = f'--mode {mode} ' if mode else ''
            runs.append(Run(b, f'{m}--seed {seed} --cases {n}', timeout=3000 if c.thorough else timeout, replay=lambda i, m=m: f'{m}--case {i}'))
    c.run_all(bs, runs, tags)
    ev = sum(c.stats.get(k, 0) for k in evals)
    return c.finish(ev, c.stats.get('distinct', 0), rule, list(assumptions), minimum)


PLAIN, SMART, INPLACE, MISUSE = 'harness/vptr/plain.cpp', 'harness/vptr/smart.cpp', 'harness/inplace/inplace.cpp', 'harness/misuse/misuse.cpp'
A_ZOO = ['ten classes with single, multiple and virtual inheritance (harness/vptr/zoo.hpp), standard RTTI']


def C10(c):
    confs = list(GEN_CONF)
    base = c.seed * 1000 + 10 * 100000
    specs = []
    for i in range(40 if c.thorough else 2):
        # one program, every configuration without embedded pointers; and one for those with
        for conf in confs:
            specs.append(dict(seed=base + i + (500 if conf in (7, 8, 15, 16) else 0), conf=conf, cxx='g++' if (conf + i) % 6 == 5 else 'clang++', san=(conf + i) % 6 != 5))
        specs.append(dict(seed=base + i + 500, conf=1))
    gen_programs(c, specs, None)
    # model programs, the same under every v-table strategy
    bs = model_builds(c, (1,) if not c.thorough else tuple(VNAMES), tuple(VNAMES))
    n = 3000 if c.thorough else 150
    rs = [Run(b, f'--mode policies --seed {c.seed * 1000 + 77} --cases {n if "fast" in b.name else n // 5}', timeout=3000 if c.thorough else 420, replay=lambda k: f'--mode policies --case {k}') for b in bs]
    res = c.run_all(bs, rs, {'policies'})
    seen = {}
    for r, x in res.items():
        for k, d in x.digests.items():
            o = seen.setdefault(k, (d, r))
            c.stats['digests_compared'] = c.stats.get('digests_compared', 0) + 1
            if o[0] != d:
                c.violation('digest', f'seed {k}: {o[1].build.name} and {r.build.name} do not behave alike', c.replay_script(o[1], f'--mode policies --case {k}') + '\n' + c.replay_script(r, f'--mode policies --case {k}'))
    return c.finish(c.stats.get('calls', 0) + c.stats.get('vptrs', 0) + c.stats.get('compared_calls', 0), c.stats.get('distinct', 0),
                    'compiled random programs under twelve registries (v-table strategy, RTTI, indirection, checks) with arguments passed in every supported form, each call compared with the expectation computed from the declarations; and abstract random programs under six strategies, their complete behaviour compared; an evaluation is a call or a dynamic-versus-static v-table comparison',
                    A_GEN + A_MODEL[1:2], 2000)


def C16(c):
    gen_programs(c, gen_mix(c, 300 if c.thorough else 24), {'args'})
    return c.finish(c.stats.get('calls', 0), c.stats.get('distinct', 0), 'compiled random programs; every overrider (also those reached by next) logs identity, subobject, dynamic class, v-table and value of all its arguments, every call its result or exception, copies and live objects are counted; an evaluation is a call; distinct by the expected log', A_GEN, 2000)


THREADS = 'harness/threads/threads.cpp'


def C17(c):
    T = c.thorough
    bs, runs = [], []
    for v in range(6):
        cxx = 'g++' if v % 3 == 2 else 'clang++'
        specs = [(f'threads_tsan_{v}', '-O1 -g1 -fsanitize=thread', cxx)]
        if T or v in (1, 2):
            specs.append((f'threads_plain_{v}', '-O2 -DNDEBUG', 'clang++' if v % 2 else 'g++'))
        for name, flags, cx in specs:
            b = Build(name, THREADS, f'{flags} -DVARIANT={v}', cx, '20' if v == 3 else '17')
            bs.append(b)
            for s in range(12 if T else 4):  # each process reaches every lazy state once
                runs.append(Run(b, f'--mode {"long" if s % 4 == 3 else "short"} --seed {c.seed * 1000 + v * 20 + s} --cases {400 if T else 40}', timeout=1500 if T else 400,
                                replay=lambda k: f'--mode short --case {k}'))
    c.run_all(bs, runs, {'concurrent'})
    return c.finish(c.stats.get('operations', 0), c.stats.get('distinct', 0),
                    'random work of eight threads (calls, next chains, errors, virtual_ptrs of every kind, objects with embedded pointers) on initialized registries while up to four others are registered, initialized, used, failed and finalized by threads of their own, with random delays, under ThreadSanitizer; every thread repeats its work alone and must log the same; an evaluation is an operation; distinct by the observed order of steps among threads',
                    ['ThreadSanitizer sees the accesses of the executions made; the harness orders threads with relaxed atomics only, so it adds no happens-before edges beyond those of shared_ptr counts and stdio'], 5000)


ERRORS = 'harness/errors/errors.cpp'


def C20(c):
    # the contents of errors from random programs
    bs = model_builds(c, (1,) if c.thorough else (), (2, 3, 5) if c.thorough else (2,))
    c.run_all(bs, model_runs(c, bs, ['errors', 'bad'], 300, 6000 if c.thorough else 800, 2, 3000 if c.thorough else 420), {'content'})
    return histories(c, [(ERRORS, ASAN + f' -DVARIANT={v}', 'clang++' if v % 2 else 'g++', '20' if v == 3 else '17') for v in range(4)] + [(ERRORS, '-O2 -DNDEBUG -DVARIANT=0', 'g++', '17')],
        150, 5000, {'errors'}, ['errors', 'aborts', 'handlers_set', 'missing_class_errors', 'missing_base_errors', 'no_overrider', 'ambiguous'],
        'random histories of installing handlers (small, with captured state, calling methods, delegating to the default one), initializing, finalizing and provoking each kind of error in registries with the default, the throwing and a user-written handler; an evaluation is an error, an identified previous handler or a process that had to abort; distinct by error, types and handler', ['odr_violation is provoked by the check of C22'])


def C22(c):
    bs, runs = [], []
    for i in range(160 if c.thorough else 20):
        seed = c.seed * 1000 + i + (500 if c.thorough else 0)
        cc = f'{"g++" if i % 3 == 2 else "clang++"} -std=c++{"20" if i % 5 == 4 else "17"} {BASE} {"-O2" if i % 4 == 3 else "-O0"}'
        b = Build(f'odr_{seed}', [], shell=lambda out, seed=seed, cc=cc: f'CC={shlex.quote(cc)} INC={REPO}/include {VERIF}/harness/odr/build.sh {seed} {out}')
        bs.append(b)
        runs.append(Run(b, '--cases 3' if c.thorough else '--cases 2', replay=lambda k: f'--case {k}'))
    c.run_all(bs, runs, {'odr'})
    return c.finish(c.stats.get('initializations', 0) + c.stats.get('processes', 0) + c.stats.get('calls', 0), len(bs),
                    'programs of one to five translation units (only including the header, or registering) compiled with equal or different definitions of default_registry, linked in random order, some with units that never see the registry and libraries loaded later; initialize called from every unit, with the default handler (in a process that must abort) and a throwing one; an evaluation is an initialize or, where definitions agree, a call; distinct counts programs',
                    ['definitions differ by BOOST_OPENMETHOD_ENABLE_RUNTIME_CHECKS, the documented way'], 100)


VALGRIND = ['valgrind', '-q', '--error-exitcode=77', '--leak-check=full', '--show-leak-kinds=definite', '--errors-for-leak-kinds=definite', '--num-callers=25', '--exit-on-first-error=no']


def C23(c):
    tags = {'leak', 'life', 'ub'}
    gd = '-O0 -g1 -D_GLIBCXX_DEBUG -D_GLIBCXX_DEBUG_PEDANTIC'
    T = c.thorough
    bs, runs = [], []
    def add(b, *rs):
        bs.append(b)
        for args, replay, wrap in rs:
            runs.append(Run(b, args, timeout=3000 if T else 500, replay=replay, wrap=wrap))
    def model(b, modes, cases, seed, wrap=None, n=1):
        add(b, *[(f'--mode {m} --seed {c.seed * 1000 + seed + 17 * s} --cases {cases if m not in ("leak",) else max(cases // 6, 2)} {"--big" if s % 2 else ""}', (lambda k, m=m: f'--mode {m} --case {k}'), wrap) for m in modes for s in range(n)])
    every = ['select', 'bad', 'next', 'errors', 'hash', 'alias', 'n2216', 'report', 'history', 'order', 'retry', 'leak']
    for v in (range(6) if T else (1, 3)):
        model(Build(f'model_asan_{VNAMES[v]}', MODEL, f'{ASAN} -DVARIANT={v}'), every, 400 if T else 30, 300 + v, n=2 if T else 1)
    for v in ((1, 3, 5) if T else (2,)):
        model(Build(f'model_debugstl_{VNAMES[v]}', MODEL, f'{gd} -DVARIANT={v}'), every[:-1], 300 if T else 20, 320 + v)
    for v in ((0, 2, 4) if T else (0,)):
        model(Build(f'model_valgrind_{VNAMES[v]}', MODEL, f'-O1 -g1 -DVARIANT={v}'), ['select', 'errors', 'history', 'retry'], 40 if T else 4, 340 + v, wrap=VALGRIND)
    def hist(name, src, flags, cxx, cases, mode='', wrap=None):
        m = f'--mode {mode} ' if mode else ''
        add(Build(name, src, flags, cxx), (f'{m}--seed {c.seed * 1000 + 360} --cases {cases}', lambda k, m=m: f'{m}--case {k}', wrap))
    hist('plain_asan', PLAIN, ASAN + ' -DVARIANT=3', 'g++', 2000 if T else 60)
    hist('smart_asan', SMART, ASAN + ' -DVARIANT=2 -DKIND=1', 'clang++', 2000 if T else 60)
    hist('smart_valgrind', SMART, '-O1 -g1 -DVARIANT=0 -DKIND=0', 'clang++', 60 if T else 6, wrap=VALGRIND)
    hist('inplace_asan', INPLACE, NOVPTR + ' -DVARIANT=3', 'clang++', 1500 if T else 50)
    hist('inplace_valgrind', INPLACE, '-O1 -g1 -DVARIANT=1', 'g++', 60 if T else 5, wrap=VALGRIND)
    hist('misuse_asan', MISUSE, NOVPTR + ' -DVARIANT=2', 'g++', 1500 if T else 40)
    for k, conf in enumerate(list(GEN_CONF) if T else (0, 6, 11)):
        b = gen_build(c.seed * 1000 + 2300000 + k, conf, tus=1 + k % 3, cxx='g++' if k % 3 == 1 else 'clang++')
        add(b, ('--cases 1', None, None))
        b = gen_build(c.seed * 1000 + 2300500 + k, conf, san=False, opt='-O1', tus=1 + k % 2)
        add(b, ('--cases 1', None, VALGRIND))
    c.run_all(bs, runs, tags)
    names = ['selections', 'no_overrider', 'ambiguous', 'chains', 'missing_class_errors', 'missing_base_errors', 'consistent', 'compared_calls', 'reports', 'cycles', 'verified', 'phase_checks', 'right_uses', 'calls', 'n2216_resolved']
    return c.finish(sum(c.stats.get(k, 0) for k in names), c.stats.get('distinct', 0),
                    'the workloads of the other checks (registrations in every order, failed and repeated initializations, error paths, virtual_ptr and object histories, compiled programs up to their exit) under AddressSanitizer, UndefinedBehaviorSanitizer, valgrind memcheck (uninitialised reads, definite leaks at exit) and the checked standard library; memory in use compared over repeated cycles; an evaluation is a call, error, report or cycle observed',
                    ['memory kept by the library for reuse after finalize counts as a leak only if it grows over cycles or is unreachable at exit'], 2000)


def C24(c):
    gen_programs(c, gen_mix(c, 120 if c.thorough else 10, (0, 1, 2, 11, 3, 4, 8, 10), tus=(2, 3, 4)), None)
    return c.finish(c.stats.get('calls', 0), c.stats.get('distinct', 0), 'compiled random programs of 2 to 4 translation units linked in random order; methods declared in a shared header or in one unit, overriders through every macro and the core interface, overloads by arity, nested namespaces; an evaluation is a call compared with the expected log', A_GEN, 1000)


def C11(c):
    # generated programs: every registry, non-polymorphic classes too
    gen_programs(c, gen_mix(c, 80 if c.thorough else 6, (14, 2, 8, 16, 6, 11, 4)), {'keep', 'vptr'})
    return histories(c, [
        (PLAIN, ASAN + ' -DVARIANT=2', 'g++', '17'), (PLAIN, ASAN + ' -DVARIANT=4', 'clang++', '17', False), (PLAIN, ASAN + ' -DVARIANT=5', 'g++', '20', False),
        (SMART, ASAN + ' -DVARIANT=5 -DKIND=0', 'g++', '17'), (SMART, ASAN + ' -DVARIANT=2 -DKIND=2', 'g++', '20'), (SMART, ASAN + ' -DVARIANT=4 -DKIND=1', 'g++', '17'),
        (SMART, ASAN + ' -DVARIANT=4 -DKIND=2', 'clang++', '17', False),
        (INPLACE, NOVPTR + ' -DVARIANT=1', 'clang++', '17'), (INPLACE, NOVPTR + ' -DVARIANT=3', 'g++', '17')],
        80, 2500, {'reinit'}, ['reinits', 'kept'],
        'random histories in which re-initialization, with classes added and removed so that every table moves, comes every dozen operations; an evaluation is a re-initialization after which every live virtual_ptr and embedded pointer is checked and called; plus generated programs that keep virtual_ptrs to every class across initialize', A_ZOO, mode='reinit')


def C12(c):
    return histories(c, [
        (PLAIN, ASAN + ' -DVARIANT=0', 'g++', '17'), (PLAIN, ASAN + ' -DVARIANT=1', 'clang++', '20'), (PLAIN, ASAN + ' -DVARIANT=3', 'g++', '17'),
        (PLAIN, ASAN + ' -DVARIANT=5', 'g++', '17'), (PLAIN, '-O2 -DNDEBUG -DVARIANT=2', 'g++', '17'), (PLAIN, '-O2 -DNDEBUG -DVARIANT=4', 'clang++', '17', False)],
        300, 8000, {'pairing', 'who', 'compare', 'reinit'}, ['verified'],
        'random histories of construction, assignment, casts, resets and comparisons on 51 plain virtual_ptrs of 17 static types, mirrored on raw pointers; an evaluation is one virtual_ptr compared with its raw pointer after an operation', A_ZOO)


def C13(c):
    return histories(c, [
        (SMART, ASAN + ' -DVARIANT=1 -DKIND=0', 'g++', '17'), (SMART, ASAN + ' -DVARIANT=2 -DKIND=0', 'g++', '20'), (SMART, ASAN + ' -DVARIANT=5 -DKIND=1', 'g++', '17'),
        (SMART, ASAN + ' -DVARIANT=0 -DKIND=2', 'g++', '17'), (SMART, ASAN + ' -DVARIANT=3 -DKIND=2', 'clang++', '20'),
        (SMART, ASAN + ' -DVARIANT=0 -DKIND=1', 'clang++', '20', False), (SMART, '-O2 -DNDEBUG -DVARIANT=4 -DKIND=0', 'clang++', '17', False)],
        300, 8000, {'ownership', 'pairing', 'life', 'who', 'compare', 'reinit'}, ['verified'],
        'random histories on smart virtual_ptrs; every object has a twin owned by plain smart pointers put through the same operations; an evaluation compares one virtual_ptr with its twin (null, identity, count, v-table)', A_ZOO)


def C14(c):
    return histories(c, [
        (INPLACE, NOVPTR + ' -DVARIANT=0', 'g++', '17'), (INPLACE, NOVPTR + ' -DVARIANT=1', 'clang++', '17'), (INPLACE, NOVPTR + ' -DVARIANT=2 -DPOLY=0', 'g++', '17'), (INPLACE, NOVPTR + ' -DVARIANT=3', 'g++', '20'),
        (INPLACE, '-O2 -DNDEBUG -DVARIANT=0', 'g++', '17'), (INPLACE, '-O2 -DNDEBUG -DVARIANT=1', 'clang++', '20', False), (INPLACE, NOVPTR + ' -DVARIANT=3 -DPOLY=0', 'g++', '17', False)],
        150, 4000, {'class', 'reinit'}, ['phase_checks'],
        'random object life cycles over eleven classes with embedded v-table pointers; constructors, destructors and members call methods through every base subobject; an evaluation is such a look at an object',
        ['eleven classes, three roots, up to three bases; virtual inheritance of classes with embedded v-table pointers is not exercised'])


def C15(c):
    return histories(c, [(MISUSE, NOVPTR + f' -DVARIANT={v}', 'clang++' if v == 3 else 'g++', '17') for v in (1, 2, 3, 4, 5, 6)],
        150, 5000, {'misuse', 'crash'}, ['right_uses', 'not_initialized_uses', 'unregistered_uses', 'final_uses'],
        'random histories of initialize, failed initialize, finalize, unregistration and uses, each in its own process; an evaluation is one use whose outcome the model predicted', ['eleven classes; the registry is not used between a failed initialize of an initialized registry and the next initialize or finalize'])


COST = 'harness/cost/cost.cpp'


def C28(c):
    T = c.thorough
    sizes = (6, 30, 100, 200) if T else (6, 30, 100)
    bs, runs = {}, []
    for v in range(6):
        cxx = 'g++' if v % 3 == 2 else 'clang++'
        for n in sizes:
            b = bs[v, n] = Build(f'cost_{v}_{n}', COST, f'-O1 -DVARIANT={v} -DNCLS={n}', cxx)
            runs += [Run(b, f'--seed {c.seed * 1000 + s} --cases {3000 if T else 400}') for s in range(6 if T else 2)]
    res = c.run_all(list(bs.values()), runs, set())
    seen = {}
    for r, x in res.items():
        v, n = next(k for k, b in bs.items() if b is r.build)
        for f in (l.split('\t') for l in x.out.splitlines() if l.startswith('COST\t')):
            cnt, total, lo, hi = map(int, f[2:6])
            o = seen.setdefault((v, f[1]), {}).setdefault(n, [0, 0, 0])
            o[0] += cnt; o[1] += total; o[2] = max(o[2], hi)
            c.stats['measured'] = c.stats.get('measured', 0) + cnt
            c.stats['instructions'] = c.stats.get('instructions', 0) + total
    distinct = 0
    for (v, what), by in sorted(seen.items()):
        small = by.get(sizes[0])
        if not small:
            continue
        if v in (1, 3): c.samples.append(f'registry {v}, {what}: ' + ', '.join(f'{n} classes: mean {o[1] / o[0]:.1f} max {o[2]}' for n, o in sorted(by.items())))
        for n, o in by.items():
            distinct += 1
            if v in (3, 5):  # hash maps: constant on average
                bad = o[1] / o[0] > small[1] / small[0] * 1.3 + 15
            else:
                bad = o[2] > small[2] * 1.1 + 10
            if bad:
                c.violation(f'cost_{v}_{n}:cost', f'{what}: at most {o[2]}, on average {o[1] / o[0]:.1f} instructions with {n} classes; at most {small[2]}, on average {small[1] / small[0]:.1f} with {sizes[0]}',
                            c.replay_script(next(r for r in runs if r.build is bs[v, n]), '--seed 1 --cases 400') + '\n' + c.replay_script(next(r for r in runs if r.build is bs[v, sizes[0]]), '--seed 1 --cases 400'))
    return c.finish(c.stats.get('measured', 0), distinct,
                    'programs of 6, 30, 100 (and 200) classes, with methods and overriders in proportion; the instructions executed by each call, next, or construction of a virtual_ptr are counted by single-stepping on random objects, before and after re-initializations; an evaluation is an operation counted; distinct counts (registry, operation, size)',
                    ['instructions executed stand for work; with hash maps the average is compared', 'tree-shaped hierarchies; the registry whose map is a std::map is not measured, as its container is the choice of the user'], 5000)


COMPOSE = 'harness/policies/compose.cpp'
SPY_NAMES = {6: 'user_hash_checked', 7: 'user_vptr', 8: 'user_vptr_indirect_checked', 9: 'user_hash_indirect'}


def C29(c):
    T = c.thorough
    bs, runs = [], []
    for v, n in SPY_NAMES.items():
        for flags, name, cases in ((ASAN, 'asan', 2000 if T else 100), (FAST, 'fast', 30000 if T else 1200)):
            if name == 'asan' and not T and v not in (6, 8):
                continue
            b = Build(f'spy_{name}_{n}', MODEL, f'{flags} -DVARIANT={v}', 'clang++' if v % 2 else 'g++')
            bs.append(b)
            runs += model_runs(c, [b], ['spy'], cases, cases, 4 if T else 2, 3000 if T else 420)
    for k in range(8 if T else 4):
        b = Build(f'compose_{k}', COMPOSE, f'{ASAN if k % 4 in (0, 3) else "-O0"} -DPART={k % 4} -DSEED={c.seed * 10 + k // 4}', 'clang++' if k % 2 else 'g++')
        b.well_formed = True
        bs.append(b)
        runs += [Run(b, f'--seed {c.seed * 1000 + k} --cases {400 if T else 25}', timeout=3000 if T else 420, replay=lambda k: f'--case {k}')]
    c.run_all(bs, runs, {'spy', 'compose', 'select', 'bad', 'next', 'n2216', 'content'})
    s = c.stats
    return c.finish(s.get('classes_told', 0) + s.get('lookups', 0) + s.get('scenarios', 0) + s.get('policies_compared', 0), s.get('distinct', 0),
                    'random programs through user-written vptr and type_hash policies that record what they are told and when; random sequences of with and without compared with a table; every combination of optional policies in child processes that make a good or a bad use; an evaluation is a class presented to a policy, a lookup, a policy compared or a child process',
                    A_MODEL + ['policies follow the blueprints of preamble.hpp; an output stream has exactly the four documented operations',
                               'sequences of with and without are drawn at compile time from the seed; at most ten steps, nineteen policies in eight categories'], 2000)


USERVPTR = 'harness/uservptr/uservptr.cpp'


def C30(c):
    T = c.thorough
    bs, runs = [], []
    for v in range(8):
        for flags, name, cases in ((ASAN, 'asan', 4000 if T else 150), ('-O2 -DNDEBUG', 'fast', 60000 if T else 2000)):
            if name == 'fast' and not T and v in (2, 3, 5):
                continue
            b = Build(f'uservptr_{name}_{v}', USERVPTR, f'{flags} -DVARIANT={v}', 'clang++' if (v + (name == 'fast')) % 2 else 'g++', '20' if v == 3 else '17')
            # a function that returns by value cannot serve a registry with indirect_vptr: such a program is rejected, or works
            b.may_reject = v == 7
            b.well_formed = v != 7
            bs.append(b)
            runs += [Run(b, f'--seed {c.seed * 1000 + v * 10 + s} --cases {cases}', timeout=3000 if T else 420, replay=lambda k: f'--case {k}') for s in range(3 if T else 1)]
    c.run_all(bs, runs, {'dispatch', 'asked', 'policy'})
    s = c.stats
    return c.finish(s.get('calls', 0) + s.get('virtual_ptrs', 0), s.get('distinct', 0),
                    'random histories of objects that change the class they claim through user-written functions, of virtual_ptrs made and kept, of calls in fifteen forms and of initializations that move the tables; an evaluation is a call or the making of a virtual_ptr',
                    ['eleven classes: one family with two functions (one for a derived class), one with functions that do not apply and one derived class with a function that does; claims are bases of the class of the object'], 2000)


CHECKS = {k: v for k, v in list(globals().items()) if re.fullmatch(r'C\d\d', k)}

_M = 'random programs run under ASan/UBSan and plain builds, observed by '
_N = 'Held on the generated programs of the run; see evidence for counts. '
TECHNIQUES = {
 'C10': ('compiled random programs and abstract random programs run under ASan/UBSan with every shipped strategy, against one oracle and compared with each other', 'Held on the programs of the run; seventeen registries, thirty kinds of virtual parameters.'),
 'C16': ('compiled random programs under ASan/UBSan whose overriders log everything they receive, compared with the log expected from the declarations', 'Held on the programs of the run; thirty virtual, seventeen non-virtual, thirteen return kinds.'),
 'C17': ('random multi-threaded work under ThreadSanitizer with injected delays, and a monitor comparing each thread with the same work done alone', 'Held on the interleavings observed; eight threads, six registries at once, six kinds of registry.'),
 'C19': ('programs split over an executable and plugins, run under ASan/UBSan and plain through random histories of dlopen, dlclose and initialize, with an online monitor comparing every call with the reference model of the modules then loaded', 'Held on the histories of the run; two to four plugins, five kinds of registry; Linux/ELF only.'),
 'C20': ('random histories of handlers and provoked errors under ASan/UBSan, with a monitor in every handler; processes that must abort are run to their end', 'Held on the histories of the run; eight kinds of error, three handler policies, four registries.'),
 'C22': ('programs of several translation units with equal and conflicting definitions, run with a monitor of what each initialize reports', 'Held on the programs of the run.'),
 'C23': ('random life cycles under ASan, UBSan, valgrind memcheck and the checked standard library, with a monitor of memory in use over repeated cycles', 'Held on the executions of the run.'),
 'C24': ('compiled random programs of several translation units under ASan/UBSan, every call compared with the expected log', 'Held on the programs of the run; two to four units, random link order.'),
 'C01': (_M + 'an online oracle comparing every call with a reference model', _N + 'Lattices up to 45 classes, up to 4 virtual parameters.'),
 'C02': (_M + 'a recording error handler checked field by field against a reference model', _N),
 'C03': (_M + 'a monitor inside the overriders that records has_next/next chains, checked against a reference model', _N),
 'C04': (_M + 'a differential monitor over registration orders, one process per order', _N),
 'C05': (_M + 'a differential monitor: arbitrary past versus fresh process', _N),
 'C06': (_M + 'an oracle that recounts the report over all class combinations', _N),
 'C07': (_M + 'an oracle accepting only most-specific-result picks, repeated calls compared', _N),
 'C08': (_M + 'fault injection into the registrations and an oracle of acceptable errors', _N),
 'C09': (_M + 'id-set generators, foreign id probes and a model oracle', _N),
 'C11': ('random histories under ASan/UBSan with a monitor that checks and calls through every surviving virtual_ptr and object after each re-initialization', 'Held on the histories of the run; classes are added and removed between initializations.'),
 'C12': ('random operation histories under ASan/UBSan, mirrored on raw pointers by an online monitor', 'Held on the histories of the run; 17 static types.'),
 'C13': ('random operation histories under ASan/UBSan with a twin-object monitor for ownership and life times', 'Held on the histories of the run; shared, unique and intrusive pointers, C++17 and C++20.'),
 'C14': ('random object life cycles under ASan/UBSan with monitors inside constructors, destructors and members', 'Held on the life cycles of the run.'),
 'C15': ('random histories with a state-machine monitor predicting each error, each history in its own process under ASan/UBSan', 'Held on the histories of the run; six checked registries.'),
 'C18': (_M + 'a differential monitor on one registry while operations run on another', _N),
 'C21': (_M + 'an output-recording policy and a differential monitor over trace options', _N),
 'C28': ('programs of growing size run under a single-stepping monitor that counts the instructions each call executes; counts compared across sizes', 'Held on the programs and calls of the run; six registries, up to 100 (200) classes.'),
 'C29': ('random programs through user-written policies that monitor what the library tells and asks them, random compositions compared with a table, and child processes that make good and bad uses under every combination of optional policies', 'Held on the programs, compositions and processes of the run; four user-written registries, 144 combinations.'),
 'C30': ('random histories under ASan/UBSan and plain builds, with monitors inside the user-written functions and the vptr policy, and a model of the overrider each call must reach', 'Held on the histories of the run; seven registries, eleven classes, fifteen call forms.'),
 'C25': (_M + 'a reference-model oracle with several type ids per class', _N),
 'C26': (_M + 'failed-initialization injection, then comparison with a fresh process', _N),
}
