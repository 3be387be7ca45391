"""Builds harnesses from /repo's working tree, runs them, judges their output.

Harness protocol (stdout, tab separated):
  VIOL  <tag> <seed> <message>     an oracle saw the property broken
  CRASH <seed>                     printed while dying (sanitizer, abort, signal)
  SIGNAL 14                        the watchdog of a case fired
  STAT  <name> <count>             what was observed
  SAMPLE <text>                    a case, written out
  DIGEST <key> <hash>              compared between binaries by the check
  DONE                             the run was complete
"""
import concurrent.futures as cf
import json, os, re, shlex, shutil, subprocess, sys, tempfile, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
NCPU = os.cpu_count() or 8

ASAN = '-O0 -g1 -fsanitize=address,undefined -fno-sanitize-recover=undefined'
FAST = '-O1 -DNDEBUG'
BASE = '-w -pthread'


class CheckError(Exception):
    pass


class Build:
    """One executable."""
    def __init__(self, name, src, flags='', cxx='g++', std='17', env=None, link='', shell=None):
        self.name, self.flags, self.cxx, self.std = name, flags, cxx, std
        self.src = src if isinstance(src, list) else [src]
        self.link = link
        self.env = env or {}
        self.well_formed = False  # a program that must compile, by the documentation
        self.may_reject = False  # a program that need not compile
        self.shell = shell  # function(out) -> shell command building the executable by other means

    def command(self, out):
        if self.shell:
            return self.shell(out)
        extra = '-fno-lifetime-dse' if self.cxx == 'g++' else ''
        srcs = ' '.join(shlex.quote(s if s.startswith('/') else os.path.join(VERIF, s)) for s in self.src)
        return (f'{self.cxx} -std=c++{self.std} {BASE} {extra} {self.flags} -I{REPO}/include '
                f'-I{VERIF}/harness {srcs} -o {out} {self.link}')


class Run:
    def __init__(self, build, args='', timeout=400, replay=None, env=None, expect_done=True, wrap=None):
        self.wrap = wrap or []  # command the executable is run under
        self.build, self.args, self.timeout = build, args, timeout
        self.replay = replay  # function(seed) -> args that replay one case
        self.env = env or {}
        self.expect_done = expect_done


SAN_ENV = {
    'ASAN_OPTIONS': 'detect_leaks=0:abort_on_error=0:exitcode=77:allocator_may_return_null=1:detect_stack_use_after_return=1:handle_abort=0',
    'UBSAN_OPTIONS': 'print_stacktrace=1:halt_on_error=1:exitcode=77',
    'TSAN_OPTIONS': 'halt_on_error=1:exitcode=66:second_deadlock_stack=1',
}


class Result:
    def __init__(self):
        self.viol, self.stats, self.samples, self.digests = [], {}, [], {}
        self.crash_seed, self.hang, self.done, self.rc, self.err, self.timeout = None, False, False, 0, '', False
        self.signal_14 = False


def parse(out, res):
    for line in out.splitlines():
        f = line.split('\t')
        if f[0] == 'VIOL' and len(f) >= 4:
            res.viol.append((f[1], f[2], '\t'.join(f[3:])))
        elif f[0] == 'STAT' and len(f) == 3:
            res.stats[f[1]] = res.stats.get(f[1], 0) + int(f[2])
        elif f[0] == 'SAMPLE':
            res.samples.append('\t'.join(f[1:])[:1500])
        elif f[0] == 'DIGEST' and len(f) == 3:
            res.digests[f[1]] = f[2]
        elif f[0] == 'CRASH' and len(f) == 2:
            res.crash_seed = f[1]
        elif f[0] == 'SIGNAL' and len(f) == 2 and f[1] == '14':
            res.hang = True
        elif f[0] == 'DONE':
            res.done = True


class Check:
    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.thorough = tier == 'thorough'
        self.dir = tempfile.mkdtemp(prefix=f'verif-{prop}-')
        self.t0 = time.time()
        self.violations = []   # (key, text, replay script body)
        self.stats, self.samples, self.notes = {}, [], []
        self.errors = []
        self.known = self.load_known()
        self.known_hit = set()

    def load_known(self):
        r = []
        path = os.path.join(VERIF, 'known_findings.txt')
        if os.path.exists(path):
            for line in open(path):
                m = re.match(r'known: property=(\S+) key=(\S+) (.*)', line)
                if m and m.group(1) == self.prop:
                    r.append((m.group(2), m.group(3).strip()))
        return r

    # ---- building
    def build(self, b):
        out = os.path.join(self.dir, b.name)
        cmd = b.command(out)
        t = time.time()
        p = subprocess.run(cmd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace')
        if p.returncode:
            errs = [l for l in p.stdout.splitlines() if 'error' in l or 'Error' in l or 'undefined reference' in l]
            raise CheckError(f'cannot build {b.name}: {cmd}\n' + '\n'.join(l[:400] for l in (errs or p.stdout.splitlines())[:8]))
        self.stats['compile_s'] = self.stats.get('compile_s', 0) + int(time.time() - t)
        return out

    def execute(self, exe, run, args=None, timeout=None):
        env = dict(os.environ)
        env.pop('BOOST_OPENMETHOD_TRACE', None)
        env.update(SAN_ENV)
        env.update(run.build.env)
        env.update(run.env)
        res = Result()
        args = run.args if args is None else args
        cwd = os.path.dirname(exe)
        p = subprocess.Popen(run.wrap + [exe] + shlex.split(args), stdout=subprocess.PIPE, stderr=subprocess.PIPE, cwd=cwd, env=env, stdin=subprocess.DEVNULL, start_new_session=True)
        try:
            out, err = p.communicate(timeout=timeout or run.timeout)
        except subprocess.TimeoutExpired:
            try:
                os.killpg(p.pid, 9)
            except OSError:
                pass
            out, err = p.communicate()
            res.timeout = True
        res.rc = p.returncode
        res.out = out.decode('utf8', 'replace')
        res.err = err.decode('utf8', 'replace')
        parse(res.out, res)
        return res

    def run_all(self, builds, runs, tag_filter=None, jobs=None):
        """Build everything and run everything in parallel; returns {run: Result}."""
        results = {}
        todo = {b: [r for r in runs if r.build is b] for b in builds}
        with cf.ThreadPoolExecutor(max_workers=jobs or NCPU) as ex:
            fb = {ex.submit(self.build, b): b for b in builds}
            fr = {}
            pending = set(fb)
            while pending:
                done, pending = cf.wait(pending, return_when=cf.FIRST_COMPLETED)
                for f in done:
                    if f in fb:
                        try:
                            exe = f.result()
                        except CheckError as e:
                            diag = [l for l in str(e).splitlines() if re.search(r': (fatal )?error: ', l) and 'No such file' not in l and 'No space' not in l]
                            if fb[f].may_reject and diag:
                                self.stats['rejected_programs'] = self.stats.get('rejected_programs', 0) + 1
                            elif fb[f].well_formed and diag:
                                self.violations.append((f'{fb[f].name}:compile', 'a well-formed program is rejected: ' + diag[0][:400], '#!/bin/bash\nd=$(mktemp -d)\n' + fb[f].command('$d/h') + '\nrc=$?; rm -rf "$d"; exit $rc\n'))
                            else:
                                self.errors.append(str(e))
                            continue
                        for r in todo[fb[f]]:
                            g = ex.submit(self.execute, exe, r)
                            fr[g] = (exe, r)
                            pending.add(g)
                    else:
                        exe, r = fr[f]
                        results[r] = (exe, f.result())
        for r in runs:
            if r in results:
                self.judge(results[r][0], r, results[r][1], tag_filter)
        return {r: results[r][1] for r in results}

    # ---- judging
    def judge(self, exe, run, res, tag_filter):
        for k, n in res.stats.items():
            self.stats[k] = self.stats.get(k, 0) + n
        for s in res.samples[:2]:
            if len(self.samples) < 6:
                self.samples.append(f'{run.build.name} {run.args}: {s}')
        def script(seed):
            args = run.replay(seed) if run.replay else run.args
            return self.replay_script(run, args, res)
        seen = {}
        for tag, seed, msg in res.viol:
            if tag_filter and tag not in tag_filter and tag != 'crash':
                self.stats['other_' + tag] = self.stats.get('other_' + tag, 0) + 1
                continue
            seen[tag] = seen.get(tag, 0) + 1
            if seen[tag] <= 3:
                self.violations.append((f'{run.build.name}:{tag}', f'seed {seed}: {msg}', script(seed)))
        if res.done and res.rc not in (66, 77):
            return
        if res.rc == -9 or 'KILLED' in res.out:
            if res.timeout:
                self.errors.append(f'{run.build.name} {run.args}: no answer in {run.timeout}s')
            else:
                self.errors.append(f'{run.build.name} {run.args}: killed')
            return
        if res.hang:
            # a hang is believed when it happens again, alone
            args = run.replay(res.crash_seed) if run.replay and res.crash_seed else run.args
            again = self.execute(exe, run, args, timeout=300)
            if again.hang or again.timeout:
                self.violations.append((f'{run.build.name}:hang', f'seed {res.crash_seed}: the case does not end', script(res.crash_seed)))
            else:
                self.errors.append(f'{run.build.name} {run.args}: watchdog fired once')
            return
        if not run.expect_done:
            return
        what = self.summary(res)
        if what:
            self.violations.append((f'{run.build.name}:crash', f'seed {res.crash_seed}: {what}', script(res.crash_seed) if res.crash_seed else self.replay_script(run, run.args, res)))
        else:
            self.errors.append(f'{run.build.name} {run.args}: exit {res.rc}: {res.err[-300:]}')

    @staticmethod
    def summary(res):
        for l in res.err.splitlines():
            if 'Error: attempt to' in l or re.match(r'==\d+== .*(Invalid|uninitialised|lost in loss|Mismatched|overlap)', l) or 'runtime error:' in l or 'ERROR: AddressSanitizer' in l or 'WARNING: ThreadSanitizer' in l or 'ERROR: LeakSanitizer' in l or 'ERROR: MemorySanitizer' in l or 'Assertion' in l or 'terminate called' in l or 'UBSan' in l:
                return l[:500]
        if res.rc < 0:
            return f'the program was ended by signal {-res.rc}'
        if res.rc in (66, 77, 134, 139):
            return f'exit {res.rc}: {res.err[:300]}'
        return None

    def replay_script(self, run, args, res=None):
        b = run.build
        lines = ['#!/bin/bash', f'# property {self.prop}; rebuilds the harness from $VERIF_REPO and replays the case', 'd=$(mktemp -d)']
        for k, v in {**SAN_ENV, **b.env, **run.env}.items():
            lines.append(f'export {k}={shlex.quote(v)}')
        lines.append(b.command('$d/h'))
        lines.append(f'(cd $d && {" ".join(run.wrap)} ./h {args}); rc=$?')
        lines += ['rm -rf "$d"', 'exit $rc']
        if res is not None:
            lines += ['', '# stderr of the failing run:'] + ['# ' + l[:300] for l in res.err.splitlines()[:60]]
        return '\n'.join(lines) + '\n'

    def violation(self, key, text, body=''):
        self.violations.append((key, text, body or f'# {key}\n# {text}\n'))

    # ---- ending
    def finish(self, evaluations, distinct, rule, assumptions, minimum=1):
        shutil.rmtree(self.dir, ignore_errors=True)
        ev = os.path.join(VERIF, 'evidence')
        os.makedirs(ev, exist_ok=True)
        rep = os.path.join(ev, 'replay')
        os.makedirs(rep, exist_ok=True)
        for f in os.listdir(rep):
            if f.startswith(self.prop + '-'):
                os.remove(os.path.join(rep, f))
        new = []
        for key, text, body in self.violations:
            full = key + ' ' + text
            hit = next((k for k in self.known if k[0] in full), None)
            if hit:
                self.known_hit.add(hit)
            else:
                new.append((key, text, body))
        for k in self.known:
            print(f'KNOWN-FINDING: property={self.prop} {k[1]}' + ('' if k in self.known_hit else ' (not reproduced in this run)'))
        paths = []
        for i, (key, text, body) in enumerate(new[:20]):
            path = os.path.join(rep, f'{self.prop}-{i}.sh')
            with open(path, 'w') as f:
                f.write(body + f'\n# {key}: {text}\n')
            os.chmod(path, 0o755)
            paths.append((path, key, text))
        cov = {'evaluations': int(evaluations), 'distinct_nontrivial': int(distinct), 'rule': rule,
               'samples': self.samples or ['(none recorded)'], 'observed': {k: v for k, v in sorted(self.stats.items())}}
        json.dump({'property': self.prop, 'tier': self.tier, 'seed': self.seed, 'level': 'exploration', 'coverage': cov,
                   'assumptions': assumptions, 'wall_s': round(time.time() - self.t0, 1), 'violations': len(new)},
                  open(os.path.join(ev, self.prop + '.json'), 'w'), indent=1)
        for path, key, text in paths[:10]:
            print(f'  {key}: {text[:700]}')
        for path, key, text in paths[:10]:
            print(f'VIOLATION property={self.prop} replay={path}')
        print(f'{self.prop} {self.tier}: {evaluations} evaluations, {distinct} distinct, {len(new)} violations, {time.time()-self.t0:.0f}s')
        if new:
            return 1
        for e in self.errors:
            print('ERROR', e[:2000])
        if self.errors:
            return 2
        if evaluations < minimum:
            print(f'ERROR inconclusive: {evaluations} evaluations, {minimum} needed')
            return 3
        return 0
