"""A random program split over an executable and plugins: gendl.py SEED DIR
Writes world.hpp, main.cpp, p1.cpp ... ; prints the number of plugins."""
import random, sys, os

seed, out = int(sys.argv[1]), sys.argv[2]
g = random.Random(seed)
K = g.choice([2, 3, 3, 4])
entangled = g.random() < 0.35
virt = g.random() < 0.5
MI = g.choice([0, 20, 40]) if not virt else g.choice([20, 40, 60])
NC = g.randrange(6, 14)

# ---- classes
home, bases, anc = [], [], []
for c in range(NC):
    h = 0 if c < 3 or g.random() < 0.35 else g.randrange(1, K + 1)
    cand = [b for b in range(c) if home[b] == 0 or home[b] == h or (entangled and h and home[b])]
    bs = []
    if c and cand and g.random() < 0.9:
        bs = [g.choice(cand[-5:] if g.random() < .5 else cand)]
        while g.randrange(100) < MI:
            b = g.choice(cand)
            if any(b == x or b in anc[x] or x in anc[b] for x in bs):
                break
            if not virt and any((anc[b] | {b}) & (anc[x] | {x}) for x in bs):
                break
            bs.append(b)
    home.append(h)
    bases.append(bs)
    anc.append(set().union(*[anc[b] | {b} for b in bs]) if bs else set())

def visible(h):
    return [c for c in range(NC) if home[c] in (0, h) or (entangled and h)]
def isa(d, b):
    return d == b or b in anc[d]

# ---- methods: home, [(class, form)]; form 0 virtual_ptr, 1 reference, 2 const reference
meths = []
for m in range(g.randrange(3, 8)):
    h = 0 if m < 2 or g.random() < 0.4 else g.randrange(1, K + 1)
    vis = visible(h) if h else [c for c in range(NC) if home[c] == 0]
    def pick():
        return max((g.choice(vis) for _ in range(3)), key=lambda c: sum(isa(d, c) for d in range(NC)))
    meths.append((h, [(pick(), g.randrange(3)) for _ in range(g.choice([1, 1, 2, 2, 3]))]))

# ---- overriders: home, method, classes
ovs = []
for m, (mh, ps) in enumerate(meths):
    for _ in range(g.randrange(2, 9)):
        h = mh if g.random() < 0.35 else g.randrange(0, K + 1)
        if mh and h != mh and not (entangled and h):
            h = mh
        vis = visible(h) if h else [c for c in range(NC) if home[c] == 0]
        cs = []
        for c, _f in ps:
            cand = [d for d in vis if isa(d, c)]
            if not cand:
                break
            cs.append(g.choice(cand))
        if len(cs) == len(ps) and (h, m, cs) not in ovs:
            ovs.append((h, m, cs))

# ---- what each module holds
regs, inst = [], []
for h in range(K + 1):
    see = {m for m, (mh, _) in enumerate(meths) if mh == h} | {m for oh, m, _ in ovs if oh == h}
    if h:
        see |= {m for m, (mh, _) in enumerate(meths) if mh == 0 and g.random() < 0.4}
    inst.append(sorted(see))
    r = {c for c in range(NC) if home[c] == h}
    for m in see:
        r |= {c for c, _ in meths[m][1]}
    for oh, _, cs in ovs:
        if oh == h:
            r |= set(cs)
    for c in list(r):
        r |= anc[c]
    if h and g.random() < 0.3:
        r |= {c for c in range(NC) if home[c] == 0}
    regs.append(sorted(r))

def param(c, f, name):
    return f'VP<C{c}> {name}' if f == 0 else f'C{c}& {name}' if f == 1 else f'const C{c}& {name}'
def mparam(c, f):
    return f'VP<C{c}>' if f == 0 else f'om::virtual_<C{c}&>' if f == 1 else f'om::virtual_<const C{c}&>'

os.makedirs(out, exist_ok=True)
w = ['#pragma once', '#include "dl.hpp"', f'constexpr int NCLS = {NC}, NMETH = {len(meths)}, NOV = {len(ovs)}, NMOD = {K + 1};', f'constexpr bool ENTANGLED = {str(entangled).lower()};']
for c in range(NC):
    bs = ', '.join(('virtual ' if virt else '') + f'C{b}' for b in bases[c])
    ov = 'override' if bs else ''
    w.append(f'struct C{c}{" : " + bs if bs else ""} {{ static constexpr int K = {c}; long f{c} = {c}; {"virtual ~C%d() {}" % c if not bs else ""} virtual int cls() const {{ return {c}; }} }};')
for m, (mh, ps) in enumerate(meths):
    args = ', '.join(mparam(c, f) + (', int' if i == 0 else '') for i, (c, f) in enumerate(ps))
    w.append(f'struct M{m}_id; using M{m} = om::method<M{m}_id, int({args}), Reg>;')
open(f'{out}/world.hpp', 'w').write('\n'.join(w) + '\n')

for h in range(K + 1):
    t = ['#include "world.hpp"', f'constexpr int MOD = {h};', '#include "module.hpp"']
    notify_first = g.random() < 0.5
    note = f'static Notify notify;'
    parts = []
    rs = regs[h][:]
    # one or several use_classes; each class comes with all its ancestors
    lists = [rs]
    if len(rs) > 2 and g.random() < 0.5:
        k = g.randrange(1, len(rs))
        a = set(rs[:k])
        for c in list(a): a |= anc[c]
        b = set(rs[k:])
        for c in list(b): b |= anc[c]
        lists = [sorted(a), sorted(b)]
    for i, l in enumerate(lists):
        l = l[:]
        g.shuffle(l)
        parts.append(f'static om::use_classes<{", ".join("C%d" % c for c in l)}, Reg> use_{i};')
    for o, (oh, m, cs) in enumerate(ovs):
        if oh != h: continue
        fs = [f for _, f in meths[m][1]]
        names = ['a', 'b', 'c'][:len(cs)]
        ps = ', '.join(param(c, f, n) + (', int x' if i == 0 else '') for i, (c, f, n) in enumerate(zip(cs, fs, names)))
        call = ', '.join(n + (', x' if i == 0 else '') for i, n in enumerate(names))
        seen = ', '.join(f'full_of({n})' for n in names)
        static = g.random() < 0.5
        parts.append(f'{"static " if static else ""}int ov{o}({ps}) {{ enter<M{m}::next<ov{o}>>({o}, M{m}::has_next<ov{o}>(), {{{seen}}}, x); if (dl_log.deep) return M{m}::next<ov{o}>({call}); return {o}; }}\n'
                     f'static M{m}::override<ov{o}> reg_ov{o};')
    g.shuffle(parts)
    vis = set(regs[h])
    body = ['using Home = mp11::mp_list<' + ', '.join(f'C{c}' for c in range(NC) if home[c] == h) + '>;',
            'using Known = mp11::mp_list<' + ', '.join(f'C{c}' for c in regs[h]) + '>;']
    call = [f'static int call(int m, void* const* v, int forms) {{ return guarded([&] {{ switch (m) {{']
    vcall = [f'static int vp_call(int m, void* const* v) {{ return guarded([&] {{ switch (m) {{']
    for m in inst[h]:
        ps = meths[m][1]
        n = len(ps)
        args = lambda tpl: ', '.join(tpl(i, c, f) + (', 7' if i == 0 else '') for i, (c, f) in enumerate(ps))
        call.append(f'case {m}: if (forms & 1) M{m}::fn({args(lambda i, c, f: f"VP<C{c}>(*static_cast<C{c}*>(v[{i}]))" if f == 0 else f"*static_cast<C{c}*>(v[{i}])")}); else M{m}::fn({args(lambda i, c, f: f"*static_cast<C{c}*>(v[{i}])")}); return;')
        vcall.append(f'case {m}: M{m}::fn({args(lambda i, c, f: f"*static_cast<VP<C{c}>*>(v[{i}])" if f == 0 else f"**static_cast<VP<C{c}>*>(v[{i}])")}); return;')
    for x in (call, vcall): x.append('} }); }')
    body += call + vcall
    body.append(f'static const Module table = {{make<Home>, kill<Home>, up<Home, Known>, call, vp_make<Known>, vp_kill<Known>, vp_call, {"init" if h == 0 or g.random() < 0.4 else "nullptr"}}};')
    body.append('namespace { struct Notify { Notify() { dl_loaded(MOD, &table); } ~Notify() { dl_unloaded(MOD); } }; }')
    t += body + ([note] if notify_first else []) + parts + ([] if notify_first else [note])
    if h == 0:
        lst = lambda l: '{' + ', '.join(map(str, l)) + '}'
        t.append('static std::vector<std::vector<int>> class_bases = {' + ', '.join(lst(b) for b in bases) + '};')
        t.append('static std::vector<int> class_home = ' + lst(home) + ';')
        t.append('static std::vector<std::vector<int>> mod_regs = {' + ', '.join(lst(r) for r in regs) + '};')
        t.append('static std::vector<std::vector<int>> mod_inst = {' + ', '.join(lst(r) for r in inst) + '};')
        t.append('static std::vector<std::vector<int>> meth_params = {' + ', '.join(lst([c for c, _ in ps]) for _, ps in meths) + '};')
        t.append('struct OvDef { int mod, meth; std::vector<int> cls; };')
        t.append('static std::vector<OvDef> ov_defs = {' + ', '.join('{%d, %d, %s}' % (h_, m, lst(cs)) for h_, m, cs in ovs) + '};')
        t.append('#include "driver.hpp"')
    open(f'{out}/{"main" if h == 0 else "p%d" % h}.cpp', 'w').write('\n'.join(t) + '\n')
print(K)
