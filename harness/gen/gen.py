#!/usr/bin/env python3
"""Generates complete C++ programs that use the library, with the outcome of every call.

The expectations come from the classes' and overriders' declarations only (applicability,
dominance), never from the library.
"""
import argparse, itertools, os, random

MAGIC = 0x5EED0000


class Gen:
    def __init__(self, seed, out, tus=1, inplace=False, methods=7, calls=9, second=None, nclasses=None, heavy=False, kinds=None, nonpoly=False, statics=False):
        self.r = random.Random(seed)
        self.seed, self.out, self.ntus = seed, out, tus
        self.inplace = inplace          # no virtual inheritance: classes may embed v-table pointers
        self.nonpoly = nonpoly          # classes without virtual functions, known to a custom RTTI only
        if nonpoly:
            second = False
            kinds = [k for k in self.VK if k not in ('up', 'vup', 'ip', 'crip', 'vip', 'crvip', 'upc', 'vupc', 'ipc', 'cripc', 'vipc', 'crvipc')]
        self.statics = statics          # nor known at all, except to who makes the virtual_ptr
        if statics:
            kinds = [k for k in kinds if k in self.IS_VP or inplace]
        self.nmeth, self.ncalls = methods, calls
        self.regs = ['R0', 'R1'] if (second if second is not None else self.r.random() < .5) else ['R0']
        self.n = nclasses or self.r.randint(5, 11)
        self.kinds = kinds
        self.heavy = heavy

    # ---------------------------------------------------------------- classes
    def subobjects(self, bases, k):
        """Multiset of base subobjects of k, itself included."""
        virt, cnt = set(), {}
        def walk(c):
            cnt[c] = cnt.get(c, 0) + 1
            for b, v in bases[c]:
                if v:
                    virt.add(b)
                else:
                    walk(b)
        walk(k)
        done = set()
        while virt - done:
            b = (virt - done).pop()
            done.add(b)
            walk(b)
        return cnt

    def make_classes(self):
        r = self.r
        self.bases = []
        for k in range(self.n):
            for _ in range(40):
                nb = r.choices([0, 1, 2, 3], [12, 50, 30, 8])[0] if k else 0
                nb = min(nb, k)
                bs = r.sample(range(k), nb)
                cand = [(b, (not self.inplace and not self.nonpoly) and r.random() < .35) for b in bs]
                tmp = self.bases + [cand]
                if max(self.subobjects(tmp, k).values()) == 1:
                    # no base that is also an indirect base of another
                    self.bases.append(cand)
                    break
            else:
                self.bases.append([])
        self.anc = []
        for k in range(self.n):
            a = {k}
            for b, _ in self.bases[k]:
                a |= self.anc[b]
            self.anc.append(a)
        self.desc = [[d for d in range(self.n) if k in self.anc[d]] for k in range(self.n)]
        self.abstract = [not self.nonpoly and r.random() < (.18 if self.bases[k] else .45) and len(self.desc[k]) > 1 for k in range(self.n)]
        self.ns = [r.choice(['na', 'nb']) for _ in range(self.n)]
        self.concrete = [k for k in range(self.n) if not self.abstract[k]]

    def C(self, k):
        return f'{self.ns[k]}::C{k}'

    def conc(self, k):
        return [d for d in self.desc[k] if not self.abstract[d]]

    def is_a(self, d, b):
        return b in self.anc[d]

    # ---------------------------------------------------------------- methods
    VK = ['ref', 'cref', 'ptr', 'cptr', 'rref', 'crref', 'vp', 'cvp', 'crvp', 'crcvp', 'sp', 'crsp', 'spc', 'up', 'vsp', 'crvsp', 'vspc', 'vup', 'ip', 'crip', 'vip', 'crvip', 'crspc', 'crvspc', 'upc', 'vupc', 'ipc', 'cripc', 'vipc', 'crvipc']
    VW = [10, 7, 6, 4, 4, 3, 12, 6, 7, 3, 3, 4, 2, 3, 4, 4, 2, 4, 2, 2, 3, 2, 2, 2, 1, 2, 1, 1, 1, 1]
    NK = ['int', 'str', 'crstr', 'intref', 'uptr', 'trk', 'trkl', 'trkcl', 'trkr', 'dbl', 'chr', 'cstr', 'fnp', 'cls', 'spv', 'big', 'uptrr']
    RK = ['void', 'int', 'str', 'trk', 'trkl', 'trkcl', 'trkr', 'uptr', 'cptr', 'cref', 'ccref', 'cvp', 'cup']

    def vt(self, kind, k, reg):
        c = self.C(k)
        ra = f' {reg}A'
        return {
            'ref': f'{c}&', 'cref': f'const {c}&', 'ptr': f'{c}*', 'cptr': f'const {c}*', 'rref': f'{c}&&', 'crref': f'const {c}&&',
            'vp': f'om::virtual_ptr<{c}{ra}>', 'cvp': f'om::virtual_ptr<const {c}{ra}>',
            'crvp': f'const om::virtual_ptr<{c}{ra}>&', 'crcvp': f'const om::virtual_ptr<const {c}{ra}>&',
            'sp': f'std::shared_ptr<{c}>', 'crsp': f'const std::shared_ptr<{c}>&', 'spc': f'std::shared_ptr<const {c}>',
            'up': f'std::unique_ptr<{c}>',
            'vsp': f'om::virtual_ptr<std::shared_ptr<{c}>{ra}>', 'crvsp': f'const om::virtual_ptr<std::shared_ptr<{c}>{ra}>&',
            'vspc': f'om::virtual_ptr<std::shared_ptr<const {c}>{ra}>',
            'vup': f'om::virtual_ptr<std::unique_ptr<{c}>{ra}>',
            'ip': f'boost::intrusive_ptr<{c}>', 'crip': f'const boost::intrusive_ptr<{c}>&',
            'vip': f'om::virtual_ptr<boost::intrusive_ptr<{c}>{ra}>', 'crvip': f'const om::virtual_ptr<boost::intrusive_ptr<{c}>{ra}>&',
            'crspc': f'const std::shared_ptr<const {c}>&', 'crvspc': f'const om::virtual_ptr<std::shared_ptr<const {c}>{ra}>&',
            'upc': f'std::unique_ptr<const {c}>', 'vupc': f'om::virtual_ptr<std::unique_ptr<const {c}>{ra}>',
            'ipc': f'boost::intrusive_ptr<const {c}>', 'cripc': f'const boost::intrusive_ptr<const {c}>&',
            'vipc': f'om::virtual_ptr<boost::intrusive_ptr<const {c}>{ra}>', 'crvipc': f'const om::virtual_ptr<boost::intrusive_ptr<const {c}>{ra}>&',
        }[kind]

    IS_VP = {'vp', 'cvp', 'crvp', 'crcvp', 'vsp', 'crvsp', 'vspc', 'vup', 'vip', 'crvip', 'crvspc', 'vupc', 'vipc', 'crvipc'}
    MOVE = {'up', 'vup', 'rref', 'crref', 'upc', 'vupc'}  # consumed by the callee

    def nt(self, kind, k=0):
        return {'int': 'int', 'str': 'std::string', 'crstr': 'const std::string&', 'intref': 'int&', 'uptr': 'std::unique_ptr<int>',
                'trk': 'Tracked', 'trkl': 'Tracked&', 'trkcl': 'const Tracked&', 'trkr': 'Tracked&&', 'dbl': 'double', 'chr': 'char',
                'cstr': 'const char*', 'fnp': 'int (*)(int)', 'cls': f'{self.C(k)}&', 'spv': 'std::shared_ptr<int>', 'big': 'Big', 'uptrr': 'std::unique_ptr<int>&&'}[kind]

    def rt(self, kind, k, reg):
        c = self.C(k)
        return {'void': 'void', 'int': 'int', 'str': 'std::string', 'trk': 'Tracked', 'trkl': 'Tracked&', 'trkcl': 'const Tracked&', 'trkr': 'Tracked&&',
                'uptr': 'std::unique_ptr<int>', 'cptr': f'{c}*', 'cref': f'{c}&', 'ccref': f'const {c}&', 'cvp': f'om::virtual_ptr<{c} {reg}A>', 'cup': f'std::unique_ptr<{c}>'}[kind]

    def make_methods(self):
        r = self.r
        self.m = []
        names = {}  # (ns, name) -> list of parameter counts
        for i in range(self.nmeth):
            m = {'i': i, 'reg': r.choice(self.regs)}
            arity = r.choices([1, 2, 3], [45, 42, 13])[0]
            vs = []
            for _ in range(arity):
                # prefer classes with descendants
                k = max(r.sample(range(self.n), min(3, self.n)), key=lambda x: len(self.conc(x)))
                if not self.conc(k):
                    k = 0 if self.conc(0) else self.concrete[0]
                if self.kinds:
                    vs.append(('v', r.choice(self.kinds), k))
                else:
                    vs.append(('v', r.choices(self.VK, self.VW)[0], k))
            ps = list(vs)
            for _ in range(r.choices([0, 1, 2, 3], [30, 35, 25, 10])[0]):
                k = r.choice(self.concrete)
                ps.insert(r.randint(0, len(ps)), ('n', r.choice(self.NK), k))
            m['ps'] = ps
            m['vi'] = [j for j, p in enumerate(ps) if p[0] == 'v']
            rk = r.choice([k for k in self.RK if k != 'cup' or not self.nonpoly])
            rc = r.randrange(self.n)
            if rk in ('cptr', 'cref', 'ccref', 'cvp', 'cup') and not self.conc(rc):
                rk = 'int'
            m['ret'] = (rk, rc)
            m['core'] = r.random() < .25
            # namespace of one of its virtual parameters' classes, so that
            # overriders anywhere find it by their arguments
            m['ns'] = self.ns[ps[r.choice(m['vi'])][2]]
            if not m['core'] and r.random() < .4:
                same = [nm for (s, nm), cs in names.items() if s == m['ns'] and len(ps) not in cs]
                m['name'] = r.choice(same) if same else f'm{i}'
            else:
                m['name'] = f'm{i}'
            if not m['core']:
                names.setdefault((m['ns'], m['name']), []).append(len(ps))
            # overriders: distinct tuples
            want = r.randint(1, 6 if arity > 1 else 5)
            seen, ovs = set(), []
            for _ in range(want * 4):
                if len(ovs) >= want:
                    break
                t = tuple(r.choice(self.desc[v[2]]) for v in vs)
                if t in seen:
                    continue
                seen.add(t)
                ovs.append({'j': len(ovs), 't': t})
            for o in ovs:
                o['m'] = i
                o['code'] = 1000 * i + o['j']
                o['rc'] = r.choice([d for d in self.desc[rc] if self.conc(d)]) if rk in ('cptr', 'cref', 'ccref', 'cvp', 'cup') else rc
                o['robj'] = r.choice(self.conc(o['rc'])) if rk in ('cptr', 'cref', 'ccref', 'cvp', 'cup') else 0
                o['ns'] = m['ns'] if r.random() < .6 else r.choice(['na', 'nb'])
                if m['core']:
                    o['style'] = r.choice(['core', 'corehdr', 'multi', 'member'])
                else:
                    o['style'] = r.choices(['override', 'inline', 'decl', 'core', 'corehdr', 'multi', 'member'], [32, 20, 20, 9, 8, 6, 5])[0]
                o['tu'] = r.randrange(self.ntus)
                o['chain'] = True
            m['ov'] = ovs
            self.m.append(m)
        for m in self.m:
            for o in m['ov']:
                self.next_ref(m, o)

    # ---------------------------------------------------------------- the oracle
    def applicable(self, m, types, excl=None):
        return [o for o in m['ov'] if o is not excl and all(self.is_a(t, c) for t, c in zip(types, o['t']))]

    def dominates(self, a, b):
        more = False
        for x, y in zip(a['t'], b['t']):
            if x != y and self.is_a(x, y):
                more = True
            elif x != y and self.is_a(y, x):
                return False
        return more

    def decide(self, c):
        if not c:
            return ('none', None)
        u = [a for a in c if not any(b is not a and self.dominates(b, a) for b in c)]
        return ('run', u[0]) if len(u) == 1 else ('ambig', None)

    def outcome(self, m, types, excl=None):
        return self.decide(self.applicable(m, types, excl))

    def next_ref(self, m, o):
        """What next() from o does, when all calls that select o agree on it."""
        own = self.outcome(m, o['t'])
        ref = self.outcome(m, o['t'], o)
        o['next'] = ref
        o['best'] = own[1] is o
        o['chain'] = o['best']
        if not o['best']:
            return
        for types in itertools.product(*[self.desc[c] for c in o['t']]):
            if self.outcome(m, types)[1] is o and self.outcome(m, types, o) != ref:
                o['chain'] = False
                return

    # ---------------------------------------------------------------- text
    def params(self, m, o, names=True):
        """Overrider's parameter list."""
        s, v = [], 0
        for j, p in enumerate(m['ps']):
            if p[0] == 'v':
                t = self.vt(p[1], o['t'][v], m['reg'])
                v += 1
            else:
                t = self.nt(p[1], p[2])
            if p[0] == 'n' and p[1] == 'fnp':
                s.append(f'int (*a{j})(int)' if names else 'int (*)(int)')
            else:
                s.append(f'{t} a{j}' if names else t)
        return ', '.join(s)

    def mparams(self, m):
        s = []
        for p in m['ps']:
            if p[0] == 'v':
                t = self.vt(p[1], p[2], m['reg'])
                s.append(t if p[1] in self.IS_VP else f'om::virtual_<{t}>')
            else:
                s.append(self.nt(p[1], p[2]))
        return ', '.join(s)

    def mtype(self, m):
        return f'{m["ns"]}::M{m["i"]}'

    def body(self, m, o):
        L = []
        L.append(f'lg("{m["i"]}.{o["j"]}(");')
        v = 0
        for j, p in enumerate(m['ps']):
            sep = ',' if j else ''
            if p[0] == 'v':
                if p[1] in self.IS_VP:
                    e = f'show_vp<{m["reg"]}>(a{j})'
                elif p[1] in ('ref', 'cref', 'rref', 'crref'):
                    e = f'show_obj(a{j})'
                else:
                    e = f'show_obj(*a{j})'
                    if p[1] in ('crsp', 'crip', 'crspc', 'cripc') and o['t'][v] == p[2]:
                        e += f' + same(a{j})'
                v += 1
            elif p[1] == 'cls':
                e = f'show_obj(a{j})'
            elif p[1] in ('intref', 'trkl', 'trkcl', 'trkr', 'crstr', 'uptrr'):
                e = f'shr(a{j})'
            else:
                e = f'sh(a{j})'
            L.append(f'lg("{sep}" + {e});')
            if p == p and p[0] == 'n' and p[1] == 'intref':
                L.append(f'++a{j};')
        L.append('lg(")");')
        L.append(f'if (g_throw == {o["code"]}) throw Boom{{{o["code"]}}};')
        if o['chain']:
            args = []
            for j, p in enumerate(m['ps']):
                by_move = p[1] in ('rref', 'crref', 'up', 'vup', 'upc', 'vupc', 'uptr', 'trk', 'trkr', 'str', 'big', 'spv', 'uptrr', 'sp', 'vsp')
                args.append(f'std::move(a{j})' if by_move else f'a{j}')
            if o['style'] in ('override', 'inline', 'decl'):
                hn, nx = 'has_next()', f'next({", ".join(args)})'
            else:
                fn = self.fname(m, o)
                hn, nx = f'{self.mtype(m)}::template has_next<{fn}>()'.replace('template ', ''), f'{self.mtype(m)}::next<{fn}>({", ".join(args)})'
            L.append('if (g_next) {')
            L.append(f'    bool h = {hn}; lg(h ? "+" : "-");')
            L.append('    if (h || g_force) {')
            L.append('        lg(">");')
            if m['ret'][0] == 'void':
                L.append(f'        {nx};')
            else:
                L.append(f'        decltype(auto) x = {nx};')
                L.append(f'        lg("<" + {self.show_ret(m, "x")});')
            L.append('    }')
            L.append('}')
        L.append(self.ret_stmt(m, o))
        return ' '.join(L)

    def show_ret(self, m, x):
        k = m['ret'][0]
        return {'int': f'sh({x})', 'str': f'sh({x})', 'trk': f'sh({x})', 'trkl': f'shr({x})', 'trkcl': f'shr({x})', 'trkr': f'shr({x})', 'uptr': f'sh({x})',
                'cptr': f'show_obj(*{x})', 'cref': f'show_obj({x})', 'ccref': f'show_obj({x})', 'cvp': f'show_vp<{m["reg"]}>({x})', 'cup': f'show_obj(*{x})'}[k]

    def ret_stmt(self, m, o):
        k = m['ret'][0]
        code, ro = o['code'], o['robj']
        return {'void': '', 'int': f'return {code};', 'str': f'return "r{code}";', 'trk': f'return Tracked({code});',
                'trkl': f'return gt{code}.t;', 'trkcl': f'return gt{code}.t;', 'trkr': f'return std::move(gt{code}.t);', 'uptr': f'return std::make_unique<int>({code});',
                'cptr': f'return &up<{self.C(o["rc"])}>(*o{ro});', 'cref': f'return *o{ro};', 'ccref': f'return *o{ro};',
                'cvp': f'return om::final_virtual_ptr<{m["reg"]}>(*o{ro});', 'cup': f'return mk<{self.C(ro)}>("u");'}[k]

    def exp_ret(self, m, o):
        k, rc = m['ret']
        code, ro = o['code'], o['robj']
        return {'void': '', 'int': str(code), 'str': f'"r{code}"', 'trk': f'T{code}c0', 'trkl': f'gt{code}=T{code}c0', 'trkcl': f'gt{code}=T{code}c0', 'trkr': f'gt{code}=T{code}c0',
                'uptr': f'U{code}', 'cptr': f'o{ro}@{rc}#{ro}', 'cref': f'o{ro}@{rc}#{ro}', 'ccref': f'o{ro}@{rc}#{ro}', 'cvp': f'o{ro}@{rc}#{ro}v', 'cup': f'u@{rc}#{ro}'}[k]

    def oret(self, m, o):
        return self.rt(m['ret'][0], o['rc'], m['reg'])

    def fname(self, m, o):
        if o['style'] == 'member':
            return f'{o["ns"]}::S{o["code"]}::f'
        return f'{o["ns"]}::f{o["code"]}'

    # ---------------------------------------------------------------- calls
    def varg(self, m, kind, k, d, uid, pre):
        """Expression for an object of class d passed where class k is declared; name of the object in the log."""
        r = self.r
        reg = m['reg']
        mid = [s for s in self.anc[d] if self.is_a(s, k)]
        s = r.choice(mid)
        S, D, K = self.C(s), self.C(d), self.C(k)
        o = f'o{d}'
        fresh = lambda e: (e, 'u')
        if kind == 'ref':
            return (r.choice([f'*{o}', f'up<{S}>(*{o})', f'up<{K}>(*{o})']), o)
        if kind == 'cref':
            return (r.choice([f'*{o}', f'up<{S}>(*{o})', f'cup<{S}>(*{o})', f'cup<{K}>(*{o})']), o)
        if kind == 'ptr':
            return (r.choice([f'{o}.get()', f'&up<{S}>(*{o})', f'&up<{K}>(*{o})']), o)
        if kind == 'cptr':
            return (r.choice([f'{o}.get()', f'&up<{S}>(*{o})', f'&cup<{S}>(*{o})']), o)
        if kind == 'crref':
            return (r.choice([f'std::move(*{o})', f'std::move(up<{S}>(*{o}))', f'std::move(std::as_const(*{o}))', f'std::move(cup<{S}>(*{o}))']), o)
        if kind == 'rref':
            return (r.choice([f'std::move(*{o})', f'std::move(up<{S}>(*{o}))']), o)
        if self.statics and kind in self.IS_VP:
            c = 'const ' if kind in ('cvp', 'crcvp', 'vspc', 'crvspc') else ''
            T = r.choice([S, K])
            if kind in ('vp', 'crvp', 'cvp', 'crcvp'):
                f = [f'om::final_virtual_ptr<{reg}>(*{o})', f'om::virtual_ptr<{D}, {reg}>::final(*{o})', f'om::virtual_ptr<{T}, {reg}>(om::final_virtual_ptr<{reg}>(*{o}))',
                     f'om::final_virtual_ptr<{reg}>(std::shared_ptr<{D}>({o}))', f'om::final_virtual_ptr<{reg}>(*{o}).cast<{S}>()', f'om::virtual_ptr<std::shared_ptr<{T}>, {reg}>(om::final_virtual_ptr<{reg}>(std::shared_ptr<{D}>({o})))']
                if c:
                    f += [f'om::virtual_ptr<const {T}, {reg}>(om::final_virtual_ptr<{reg}>(*{o}))', f'om::final_virtual_ptr<{reg}>(std::as_const(*{o}))']
                e = r.choice(f)
                if r.random() < .4:
                    pre.append(f'om::virtual_ptr<{c}{T}, {reg}> t{uid}({e});')
                    e = f't{uid}'
                return (e, o)
            if r.random() < .25 and not c:
                return fresh(f'noted(om::make_shared_virtual<{D}, {reg}>())')
            e = r.choice([f'om::final_virtual_ptr<{reg}>(std::shared_ptr<{D}>({o}))', f'om::final_virtual_ptr<{reg}>(std::shared_ptr<{D}>({o}))', f'om::virtual_ptr<std::shared_ptr<{T}>, {reg}>(om::final_virtual_ptr<{reg}>(std::shared_ptr<{D}>({o})))'])
            if r.random() < .4:
                pre.append(f'om::virtual_ptr<std::shared_ptr<{c}{T}>, {reg}> t{uid}({e});')
                e = r.choice([f't{uid}', f'std::move(t{uid})'])
            return (e, o)
        if kind in ('vp', 'crvp', 'cvp', 'crcvp'):
            f = [f'*{o}', f'up<{S}>(*{o})', f'up<{K}>(*{o})', f'&up<{S}>(*{o})', f'om::virtual_ptr<{S}, {reg}>(up<{S}>(*{o}))',
                 f'om::final_virtual_ptr<{reg}>(*{o})', f'om::virtual_ptr<{D}, {reg}>::final(*{o})', f'om::virtual_ptr<std::shared_ptr<{S}>, {reg}>({o})',
                 f'om::virtual_ptr<{D}, {reg}>(*{o}).template cast<{S}>()'.replace('template ', '')]
            if kind in ('cvp', 'crcvp'):
                f += [f'cup<{S}>(*{o})', f'om::virtual_ptr<const {S}, {reg}>(*{o})', f'&cup<{K}>(*{o})']
            e = r.choice(f)
            if r.random() < .3:
                pre.append(f'om::virtual_ptr<{"const " if "c" in kind.replace("cr", "") and kind in ("cvp", "crcvp") else ""}{S}, {reg}> t{uid}(*{o});')
                e = f't{uid}'
            return (e, o)
        if kind in ('sp', 'crsp', 'spc', 'crspc'):
            c = 'const ' if kind in ('spc', 'crspc') else ''
            e = r.choice([o, f'std::shared_ptr<{S}>({o})', f'std::shared_ptr<{c}{K}>({o})'])
            if r.random() < .4:
                T = r.choice([S, K])
                pre.append(f'std::shared_ptr<{c}{T}> t{uid}({o});')
                e = r.choice([f't{uid}', f'std::move(t{uid})'])
                if kind in ('crsp', 'crspc') and T == K:
                    pre.append(f'Named _t{uid}(t{uid}, "t{uid}");')
                    return (e, o, f't{uid}')
            return (e, o)
        if kind in ('up', 'upc'):
            return fresh(r.choice([*([f'std::unique_ptr<const {S}>(mk<{D}>("u"))'] if kind == 'upc' else []), f'std::unique_ptr<{S}>(mk<{D}>("u"))', f'std::unique_ptr<{K}>(mk<{D}>("u"))', f'mk<{D}>("u")']))
        if kind in ('vsp', 'crvsp', 'vspc', 'crvspc'):
            c = 'const ' if kind in ('vspc', 'crvspc') else ''
            x = r.random()
            if x < .2 and not c:
                return fresh(f'noted(om::make_shared_virtual<{D}, {reg}>())')
            e = r.choice([o, f'std::shared_ptr<{S}>({o})', f'om::virtual_ptr<std::shared_ptr<{c}{S}>, {reg}>({o})', f'om::virtual_ptr<std::shared_ptr<{K}>, {reg}>({o})',
                          f'om::final_virtual_ptr<{reg}>(std::shared_ptr<{D}>({o}))'])
            if x > .7:
                pre.append(f'om::virtual_ptr<std::shared_ptr<{c}{r.choice([S, K])}>, {reg}> t{uid}({o});')
                e = r.choice([f't{uid}', f'std::move(t{uid})'])
            return (e, o)
        if kind in ('vup', 'vupc'):
            return fresh(r.choice([*([f'om::virtual_ptr<std::unique_ptr<const {S}>, {reg}>(mk<{D}>("u"))', f'std::unique_ptr<const {K}>(mk<{D}>("u"))'] if kind == 'vupc' else []), f'noted(om::make_unique_virtual<{D}, {reg}>())', f'om::virtual_ptr<std::unique_ptr<{S}>, {reg}>(mk<{D}>("u"))', f'std::unique_ptr<{S}>(mk<{D}>("u"))', f'mk<{D}>("u")']))
        i = f'i{d}'
        if kind in ('ip', 'crip', 'ipc', 'cripc'):
            c = 'const ' if kind.endswith('pc') else ''
            e = f'boost::intrusive_ptr<{r.choice([c, ""])}{r.choice([S, K, D])}>({i})'
            if r.random() < .4:
                T = r.choice([S, K])
                pre.append(f'boost::intrusive_ptr<{c}{T}> t{uid}({i});')
                e = f't{uid}'
                if kind in ('crip', 'cripc') and T == K:
                    pre.append(f'Named _t{uid}(t{uid}, "t{uid}");')
                    return (e, i, e)
            return (e, i)
        if kind in ('vip', 'crvip', 'vipc', 'crvipc'):
            c = 'const ' if kind.endswith('pc') else ''
            e = r.choice([f'boost::intrusive_ptr<{c}{S}>({i})', f'om::virtual_ptr<boost::intrusive_ptr<{c}{S}>, {reg}>(boost::intrusive_ptr<{D}>({i}))'])
            if r.random() < .4:
                pre.append(f'om::virtual_ptr<boost::intrusive_ptr<{c}{r.choice([S, K])}>, {reg}> t{uid}{{boost::intrusive_ptr<{D}>({i})}};')
                e = f't{uid}'
            return (e, i)
        raise KeyError(kind)

    def narg(self, kind, k, uid, pre, post):
        """Expression; text in the log at the i-th overrider of the chain."""
        r = self.r
        x = r.randint(1, 99)
        n = f'n{uid}'
        if kind == 'int':
            return r.choice([(f'int({x})', lambda i: str(x)), (f'{n}', lambda i: str(x))]) if not pre.append(f'int {n} = {x};') else None
        if kind == 'str':
            pre.append(f'std::string {n}("s{x}");')
            return (r.choice([n, f'std::move({n})', f'std::string("s{x}")']), lambda i: f'"s{x}"')
        if kind == 'crstr':
            pre.append(f'std::string {n}("s{x}"); Named _{n}({n}, "{n}");')
            return (n, lambda i: f'{n}="s{x}"')
        if kind == 'intref':
            pre.append(f'int {n} = {x}; Named _{n}({n}, "{n}");')
            post.append(n)
            return (n, lambda i: f'{n}={x + i}')
        if kind == 'uptr':
            pre.append(f'auto {n} = std::make_unique<int>({x});')
            return (r.choice([f'std::move({n})', f'std::make_unique<int>({x})']), lambda i: f'U{x}')
        if kind == 'uptrr':
            pre.append(f'auto {n} = std::make_unique<int>({x}); Named _{n}({n}, "{n}");')
            return (f'std::move({n})', lambda i: f'{n}=U{x}')
        if kind == 'trk':
            pre.append(f'Tracked {n}({x});')
            e, c = r.choice([(n, 1), (f'std::move({n})', 0), (f'Tracked({x})', 0)])
            return (e, lambda i: f'T{x}c{c}')
        if kind in ('trkl', 'trkcl', 'trkr'):
            pre.append(f'Tracked {n}({x}); Named _{n}({n}, "{n}");')
            return (f'std::move({n})' if kind == 'trkr' else n, lambda i: f'{n}=T{x}c0')
        if kind == 'dbl':
            return (f'{x}.25', lambda i: f'{x}.250000'[:6])
        if kind == 'chr':
            ch = r.choice('abcxyz')
            return (f"'{ch}'", lambda i: f'c{ch}')
        if kind == 'cstr':
            return (f'"q{x}"', lambda i: f"'q{x}'")
        if kind == 'fnp':
            f = r.choice('ab')
            return (f'&fp_{f}', lambda i: f'f{f}')
        if kind == 'cls':
            d = r.choice(self.conc(k))
            return (f'*o{d}', lambda i: f'o{d}@{k}#{d}')
        if kind == 'spv':
            pre.append(f'auto {n} = std::make_shared<int>({x});')
            return (r.choice([n, f'std::move({n})']), lambda i: f'S{x}')
        if kind == 'big':
            pre.append(f'Big {n}({x});')
            return (r.choice([n, f'Big({x})']), lambda i: f'B{x}')
        raise KeyError(kind)

    def trace(self, m, o, types, onames, nargs, nxt, force, thrower, held, depth=0):
        """Expected log of running o, including its next() chain; returns (text, threw, overriders entered)."""
        s, v = [], 0
        for j, p in enumerate(m['ps']):
            if p[0] == 'v':
                # a smart pointer passed by reference is the caller's, unless it was converted
                same = o['t'][v] == p[2]
                s.append(f'{onames[v]}@{o["t"][v]}#{types[v]}' + ('v' if p[1] in self.IS_VP else f'={held[v]}' if same and held[v] else ''))
                held = held[:v] + [held[v] if same else None] + held[v + 1:]
                v += 1
            else:
                s.append(nargs[j](depth))
        t = f'{m["i"]}.{o["j"]}(' + ','.join(s) + ')'
        if thrower == o['code']:
            return t + f'X{thrower}', True
        if nxt and o['chain']:
            kind, n = o['next']
            t += '+' if kind == 'run' else '-'
            if kind == 'run':
                x, threw = self.trace(m, n, types, onames, nargs, nxt, force, thrower, held, depth + 1)
                t += '>' + x
                if threw:
                    return t, True
                if m['ret'][0] != 'void':
                    t += '<' + self.exp_ret(m, n)
            elif force:
                return t + '>' + self.err(m, kind, types), True
        return t, False

    def err(self, m, kind, types):
        return f'E:{kind}:M{m["i"]}[' + ','.join(str(t) for t in types) + ']'

    def depth_of(self, o, m):
        d = 1
        while o['chain'] and o['next'][0] == 'run':
            o = o['next'][1]
            d += 1
        return d

    def make_call(self, m, uid, named=None):
        r = self.r
        vps = [m['ps'][j] for j in m['vi']]
        if named:
            pools = [self.conc(c) for c in named['t']]
        else:
            pools = [self.conc(p[2]) for p in vps]
        if not all(pools):
            return None
        types = [r.choice(p) for p in pools]
        pre, post, args, onames, nargs, held = [], [], [], [], {}, []
        v = 0
        for j, p in enumerate(m['ps']):
            if p[0] == 'v':
                k = named['t'][v] if named else p[2]
                e, nm, *same = self.varg(m, p[1], k, types[v], f'{uid}_{j}', pre)
                held.append(same[0] if same and k == p[2] else None)
                # one object cannot be consumed twice
                onames.append(nm)
                args.append(e)
                v += 1
            else:
                e, lf = self.narg(p[1], p[2], f'{uid}_{j}', pre, post)
                args.append(e)
                nargs[j] = lf
        kind, o = ('run', named) if named else self.outcome(m, types)
        nxt, force = r.random() < .65, r.random() < .2
        thrower = -1
        if kind == 'run':
            if r.random() < .12:
                c = [o]
                while c[-1]['chain'] and c[-1]['next'][0] == 'run' and nxt:
                    c.append(c[-1]['next'][1])
                thrower = r.choice(c)['code']
            exp, threw = self.trace(m, o, types, onames, nargs, nxt, force, thrower, held)
            if not threw:
                exp += '=' + self.exp_ret(m, o)
        else:
            exp, threw = self.err(m, kind, types), True
        if named:
            macro = named['style'] in ('inline', 'decl')
            fn = f'{named["ns"]}::BOOST_OPENMETHOD_OVERRIDER({m["name"]}, ({self.params(m, named, False)}), {self.oret(m, named)})::fn' if macro else self.fname(m, named)
            if m['ret'][0] in ('cptr', 'cref', 'ccref', 'cvp', 'cup'):
                exp = exp if threw else exp[:exp.rindex('=')] + '=' + self.exp_named(m, named)
            call = f'{fn}({", ".join(args)})'
        elif m['core']:
            call = f'{self.mtype(m)}::fn({", ".join(args)})'
        else:
            call = f'{r.choice([m["ns"] + "::", self.mtype(m) + "::fn"])}'
            call = f'{call}({", ".join(args)})' if call.endswith('fn') else f'{call}{m["name"]}({", ".join(args)})'
        if m['ret'][0] == 'void':
            stmt = f'{call}; lg("=");'
        else:
            stmt = f'decltype(auto) x = {call}; lg("=" + {self.show_ret(m, "x")});'
        text = call.replace('\\', '\\\\').replace('"', '\\"')
        ex = exp.replace('\\', '\\\\').replace('"', '\\"')
        return f'    run("{text}", "{ex}", {str(nxt).lower()}, {str(force).lower()}, {thrower}, nullptr, [&] {{ {" ".join(pre)} {stmt} }});'

    def exp_named(self, m, o):
        s = self.exp_ret(m, o)
        return s.replace(f'@{m["ret"][1]}#', f'@{o["rc"]}#')

    # ---------------------------------------------------------------- files
    def groups(self):
        """use_classes groups: every class with each of its direct bases somewhere."""
        r = self.r
        need = [(k, b) for k in range(self.n) for b, _ in self.bases[k]] + [(k, k) for k in range(self.n) if not self.bases[k]]
        r.shuffle(need)
        out = []
        while need:
            g = set()
            for _ in range(r.randint(1, 5)):
                if need:
                    g |= set(need.pop())
            if r.random() < .3:
                g |= set(r.sample(range(self.n), min(2, self.n)))
            g = list(g)
            r.shuffle(g)
            out.append(g)
        return out

    def write(self):
        r = self.r
        self.make_classes()
        self.make_methods()
        H = ['#pragma once', f'// generated, seed {self.seed}', '#include "support.hpp"']
        for k in range(self.n):
            bs = self.bases[k]
            plain = ', '.join(('virtual ' if v else '') + self.C(b) for b, v in bs)
            # (bases of classes that embed a v-table pointer come with it)
            if not bs:
                inpl = f'om::inplace_vptr_base<C{k}, R0>'
            else:
                inpl = plain + f', om::inplace_vptr_derived<C{k}, ' + ', '.join(self.C(b) for b, _ in bs) + '>'
            H.append(f'namespace {self.ns[k]} {{')
            if self.inplace:
                H.append(f'#if INPLACE\nstruct C{k} : {inpl}\n#else\nstruct C{k}{" : " + plain if plain else ""}\n#endif')
            else:
                H.append(f'struct C{k}{" : " + plain if plain else ""}')
            pures = []
            for a in sorted(self.anc[k]):
                if a != k and self.abstract[a]:
                    pures.append(f'void pure{a}() override {{}}')
            if self.abstract[k]:
                pures.append(f'virtual void pure{k}() = 0;')
            if self.nonpoly:
                tags = ' '.join(f'static_cast<{self.C(a)}*>(this)->tag{a} = {k};' for a in sorted(self.anc[k]))
                H.append(f'{{ static constexpr int K = {k}; int mg{k} = {MAGIC + k}; int tag{k} = {k}; int rc{k} = 0; C{k}() {{ ++live; {tags} }} C{k}(const C{k}&) {{ ++live; ++class_copies; {tags} }} ~C{k}() {{ --live; mg{k} = 0; }}')
                H.append(f'  int cls() const {{ return tag{k}; }} void add_ref() {{ ++rc{k}; }} int del_ref() {{ return --rc{k}; }} bool ok() const {{ return mg{k} == {MAGIC + k}; }} }};')
                H.append(f'static_assert(!std::is_polymorphic_v<C{k}>); }}')
                continue
            H.append(f'{{ static constexpr int K = {k}; int mg{k} = {MAGIC + k}; mutable int rc{k} = 0; C{k}() {{ ++live; }} C{k}(const C{k}&) {{ ++live; ++class_copies; }} virtual ~C{k}() {{ --live; mg{k} = 0; }}')
            H.append(f'  virtual int cls() const {{ return {k}; }} virtual void add_ref() const {{ ++rc{k}; }} virtual int del_ref() const {{ return --rc{k}; }} bool ok() const {{ return mg{k} == {MAGIC + k}; }} {" ".join(pures)} }};')
            H.append('template<class T> std::enable_if_t<has_k<T>::value> intrusive_ptr_add_ref(const T* p) { p->add_ref(); }' if False else
                     f'inline void intrusive_ptr_add_ref(const C{k}* p) {{ p->add_ref(); }} inline void intrusive_ptr_release(const C{k}* p) {{ if (p->del_ref() == 0) delete p; }}')
            H.append('}')
        H.append('template<class D> void note(D* p, const char* name);')
        for k in self.concrete:
            H.append(f'template<> inline void note({self.C(k)}* p, const char* n) {{ ' + ' '.join(f'place({a}, static_cast<{self.C(a)}*>(p), n);' for a in sorted(self.anc[k])) + ' }')
            H.append(f'extern std::shared_ptr<{self.C(k)}> o{k}; extern {self.C(k)}* i{k};')
        H.append('template<class D> std::unique_ptr<D> mk(const char* n) { auto p = std::make_unique<D>(); note(p.get(), n); return p; }')
        H.append('template<class P> P noted(P p) { note(p.get(), "u"); return p; }')
        for reg in self.regs:
            H.append(f'template<> inline om::vptr_type static_vptr_of<{reg}>(int k) {{ switch (k) {{ ' + ' '.join(f'case {k}: return {reg}::static_vptr<{self.C(k)}>;' for k in range(self.n)) + ' } return nullptr; }')
        if self.nonpoly:
            H.append('#if STATIC\ntemplate<class R> om::type_id static_rtti_plus_fn<R>::id_of(int k) { switch (k) { ' + ' '.join(f'case {k}: return R::rtti::template static_type<{self.C(k)}>();' for k in range(self.n)) + ' } return nullptr; }\n#endif')
        for m in self.m:
            for o in m['ov']:
                if m['ret'][0] in ('trkl', 'trkcl', 'trkr'):
                    H.append(f'inline NamedGlobal<Tracked> gt{o["code"]}(Tracked({o["code"]}), "gt{o["code"]}");')
        for m in self.m:
            i = m['i']
            ret = self.rt(m['ret'][0], m['ret'][1], m['reg'])
            if m['core']:
                H.append(f'namespace {m["ns"]} {{ struct M{i}_id; using M{i} = om::method<M{i}_id, {ret}({self.mparams(m)}) {m["reg"]}A>; }}')
            else:
                H.append(f'namespace {m["ns"]} {{ BOOST_OPENMETHOD({m["name"]}, ({self.mparams(m)}), {ret} {m["reg"]}A);')
                H.append(f'using M{i} = BOOST_OPENMETHOD_TYPE({m["name"]}, ({self.mparams(m)}), {ret} {m["reg"]}A); }}')
        # overriders
        tus = [[] for _ in range(self.ntus)]
        named = []
        multi = {}
        for m in self.m:
            for o in m['ov']:
                P, R, b = self.params(m, o), self.oret(m, o), self.body(m, o)
                st = o['style']
                if st == 'override':
                    tus[o['tu']].append(f'namespace {o["ns"]} {{ BOOST_OPENMETHOD_OVERRIDE({m["name"]}, ({P}), {R}) {{ {b} }} }}')
                elif st == 'inline':
                    H.append(f'namespace {o["ns"]} {{ BOOST_OPENMETHOD_INLINE_OVERRIDE({m["name"]}, ({P}), {R}) {{ {b} }} }}')
                    named.append((m, o))
                elif st == 'decl':
                    H.append(f'namespace {o["ns"]} {{ BOOST_OPENMETHOD_DECLARE_OVERRIDER({m["name"]}, ({P}), {R}) }}')
                    tus[o['tu']].append(f'namespace {o["ns"]} {{ BOOST_OPENMETHOD_DEFINE_OVERRIDER({m["name"]}, ({P}), {R}) {{ {b} }} }}')
                    named.append((m, o))
                elif st == 'core':
                    H.append(f'namespace {o["ns"]} {{ {R} f{o["code"]}({P}); }}')
                    tus[o['tu']].append(f'namespace {o["ns"]} {{ {R} f{o["code"]}({P}) {{ {b} }} static {self.mtype(m)}::override<f{o["code"]}> r{o["code"]}; }}')
                    named.append((m, o))
                elif st == 'corehdr':
                    H.append(f'namespace {o["ns"]} {{ inline {R} f{o["code"]}({P}) {{ {b} }} BOOST_OPENMETHOD_REGISTER({self.mtype(m)}::override<f{o["code"]}>); }}')
                    named.append((m, o))
                elif st == 'member':
                    H.append(f'namespace {o["ns"]} {{ struct S{o["code"]} {{ static {R} f({P}) {{ {b} }} }}; }}')
                    # registered by several units: still one overrider
                    for t in sorted(set([o['tu'], r.randrange(self.ntus)])):
                        tus[t].append(f'static {self.mtype(m)}::override<{self.fname(m, o)}> r{o["code"]};')
                    named.append((m, o))
                elif st == 'multi':
                    H.append(f'namespace {o["ns"]} {{ {R} f{o["code"]}({P}); }}')
                    tus[o['tu']].append(f'namespace {o["ns"]} {{ {R} f{o["code"]}({P}) {{ {b} }} }}')
                    multi.setdefault((m['i'], o['tu']), []).append(self.fname(m, o))
                    named.append((m, o))
        for (i, t), fs in multi.items():
            tus[t].append(f'static {self.mtype(self.m[i])}::override<{", ".join(fs)}> multi{i};')
        # classes
        for reg in self.regs:
            for g in self.groups():
                line = f'BOOST_OPENMETHOD_CLASSES({", ".join(self.C(k) for k in g)} {reg}A);'
                if r.random() < .15:
                    H.append(line)
                else:
                    t = r.randrange(self.ntus)
                    tus[t].insert(r.randint(0, len(tus[t])), line)
        # calls
        calls = []
        uid = 0
        for m in self.m:
            for _ in range(self.ncalls):
                uid += 1
                c = self.make_call(m, uid)
                if c:
                    calls.append(c)
        for m, o in named:
            uid += 1
            c = self.make_call(m, uid, o)
            if c:
                calls.append(c)
        r.shuffle(calls)
        per = [[] for _ in range(self.ntus)]
        for c in calls:
            per[r.randrange(self.ntus)].append(c)
        os.makedirs(self.out, exist_ok=True)
        with open(os.path.join(self.out, 'decl.hpp'), 'w') as f:
            f.write('\n'.join(H) + '\n')
        for t in range(self.ntus):
            T = ['#include "decl.hpp"'] + tus[t] + [f'void calls_{t}() {{'] + per[t] + ['}']
            if t == 0:
                T += self.main(tus)
            with open(os.path.join(self.out, f'tu{t}.cpp'), 'w') as f:
                f.write('\n'.join(T) + '\n')
        return [os.path.join(self.out, f'tu{t}.cpp') for t in range(self.ntus)]

    def report(self, reg):
        cells = none = amb = 0
        for m in self.m:
            if m['reg'] != reg:
                continue
            gs = []
            for v, j in enumerate(m['vi']):
                s = {}
                for c in self.desc[m['ps'][j][2]]:
                    s.setdefault(tuple(self.is_a(c, o['t'][v]) for o in m['ov']), c)
                gs.append(list(s.values()))
            n = 1
            for g in gs:
                n *= len(g)
            if len(gs) > 1:
                cells += n
            ks = {self.outcome(m, t)[0] for t in itertools.product(*gs)}
            none += 'none' in ks
            amb += 'ambig' in ks
        return cells, none, amb

    def main(self, tus):
        T = []
        for k in self.concrete:
            T.append(f'std::shared_ptr<{self.C(k)}> o{k}; {self.C(k)}* i{k};')
        T.append('int class_index(om::type_id t) {')
        for reg in self.regs:
            for k in range(self.n):
                T.append(f'    if ({reg}::rtti::static_type<{self.C(k)}>() == t) return {k};')
        T.append('    return -1; }')
        T.append('std::string method_name(om::type_id t) {')
        for m in self.m:
            T.append(f'    if ({m["reg"]}::rtti::static_type<{self.mtype(m)}>() == t) return "M{m["i"]}";')
        T.append('    return "?"; }')
        for t in range(1, self.ntus):
            T.append(f'void calls_{t}();')
        T.append('int main(int argc, char** argv) {')
        T.append(f'    return run_cases(argc, argv, [](Rng& g, const Args&) {{')
        T.append('        fill_ids();')
        T.append('#if CONF == 0')
        T.append('        R0::error_handler::set([](const R0::error_handler::error_variant& v) { std::visit([](auto& e) { if constexpr (std::is_base_of_v<om::openmethod_error, std::decay_t<decltype(e)>>) throw e; }, v); });')
        T.append('#endif')
        order = list(self.regs)
        self.r.shuffle(order)
        T.append('        std::vector<std::function<void()>> keep;')
        for rep in range(2):
            for reg in order:
                c, n, a = self.report(reg)
                T.append(f'        {{ auto rep = om::initialize<{reg}>().report; count("reports"); if (rep.cells != {c} || rep.not_implemented != {n} || rep.ambiguous != {a}) violation("report", "{reg}: cells %d none %d ambiguous %d, expected {c} {n} {a}", int(rep.cells), int(rep.not_implemented), int(rep.ambiguous)); }}')
            T.append('        {')
            for k in self.concrete:
                T.append(f'        o{k} = std::make_shared<{self.C(k)}>(); note(o{k}.get(), "o{k}"); i{k} = new {self.C(k)}; i{k}->add_ref(); note(i{k}, "i{k}");')
            T.append('        }')
            for reg in self.regs:
                for k in self.concrete:
                    for a in sorted(self.anc[k]):
                        init = f'om::final_virtual_ptr<{reg}>(*o{k})' if self.statics else f'up<{self.C(a)}>(*o{k})'
                        T.append(f'        {{ om::virtual_ptr<{self.C(a)}, {reg}> p({init}); count("vptrs"); if (p.vptr() != {reg}::static_vptr<{self.C(k)}> || !p.vptr()) violation("vptr", "a C{k} seen as C{a} in {reg} has not the v-table published for C{k}"); }}')
            if rep == 0:
                for reg in self.regs:
                    for k in self.concrete:
                        a, b = self.r.choice(sorted(self.anc[k])), self.r.choice(sorted(self.anc[k]))
                        sp = f'std::shared_ptr<{self.C(k)}>(o{k}.get(), [](auto*) {{}})'
                        # (what they point to will be gone)
                        i1 = f'om::final_virtual_ptr<{reg}>(*o{k})' if self.statics or self.r.random() < .3 else f'up<{self.C(a)}>(*o{k})'
                        i2 = f'om::final_virtual_ptr<{reg}>({sp})' if self.statics or self.r.random() < .3 else sp
                        T.append(f'        if constexpr ({reg}::has_indirect_vptr) {{ om::virtual_ptr<{self.C(a)}, {reg}> p({i1}); om::virtual_ptr<std::shared_ptr<{self.C(b)}>, {reg}> s({i2}); keep.push_back([p, s] {{ count("kept", 2);')
                        T.append(f'            if (p.vptr() != {reg}::static_vptr<{self.C(k)}> || s.vptr() != {reg}::static_vptr<{self.C(k)}>) violation("keep", "a virtual_ptr to a C{k} seen as C{a} or C{b} in {reg} does not follow the next initialize"); }}); }}')
            else:
                T.append('        for (auto& f : keep) f();')
            T.append('        ' + ' '.join(f'calls_{t}();' for t in range(self.ntus)))
            for k in self.concrete:
                T.append(f'        if (o{k}.use_count() != 1) violation("call", "o{k} has %ld owners", o{k}.use_count()); if (i{k}->rc{k} != 1) violation("call", "i{k} has %d owners", i{k}->rc{k}); o{k}.reset(); i{k}->del_ref(); delete i{k};')
            T.append('        if (live) violation("call", "%d subobjects left", live);')
            if rep == 0 and self.r.random() < .5:
                T.append(f'        om::finalize<{self.r.choice(order)}>();')
        T.append('    });\n}')
        return T


def generate(seed, out, **kw):
    g = Gen(seed, out, **kw)
    files = g.write()
    g.r.shuffle(files)
    return files


if __name__ == '__main__':
    a = argparse.ArgumentParser()
    a.add_argument('seed', type=int)
    a.add_argument('out')
    a.add_argument('--tus', type=int, default=1)
    a.add_argument('--inplace', action='store_true')
    a.add_argument('--nonpoly', action='store_true')
    a.add_argument('--statics', action='store_true')
    x = a.parse_args()
    print(' '.join(generate(x.seed, x.out, tus=x.tus, inplace=x.inplace, nonpoly=x.nonpoly or x.statics, statics=x.statics)))
