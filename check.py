#!/usr/bin/env python3-vt
"""check.py <property id>: decide one property of michalkielan/MatrixLibs on /repo's current working tree.

Deciding step: the contracts of the functions the property depends on are verified against the source extracted
from /repo/matrix on this run (mlv/).  Beside it, and as the replay of failed obligations, a bounded harness runs the
real templates against an independent oracle (replay/).  Exit 0: held; exit 1: VIOLATION line.
"""
import json
import os
import re
import resource
import shutil
import signal
import subprocess
import sys
import tempfile
import time
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
REPO = os.environ.get('MLV_REPO', '/repo')
TIER = os.environ.get('VERIF_TIER', 'quick')
if TIER not in ('quick', 'thorough'):
    TIER = 'quick'
try:
    SEED = int(os.environ.get('VERIF_SEED', '1'))
except ValueError:
    SEED = 1
JOBS = max(2, min(8, os.cpu_count() or 2))
T0 = time.time()
HARD = 640 if TIER == 'quick' else 3000      # nothing new is started after this many seconds
FN_S = 200 if TIER == 'quick' else 900       # per function

ALLF = ('C17', 'C19', 'C20')
TYPES = {   # element types of the bounded harness; the first ones are required to compile
    'C01': ('double int', 'float unsigned llong schar GF'), 'C02': ('double int', 'float llong unsigned GF cplx schar'),
    'C03': ('double int', 'unsigned GF cplx schar'), 'C04': ('double int', 'unsigned GF cplx schar'),
    'C05': ('double int', 'unsigned GF cplx schar'), 'C06': ('double int', 'unsigned GF cplx schar'),
    'C07': ('double int', 'float GF Q'), 'C08': ('double int', 'float GF Q'), 'C09': ('double', 'float GF Q'),
    'C10': ('double', 'float GF Q'), 'C11': ('double int', 'float unsigned GF'), 'C12': ('double int', 'float llong unsigned GF'),
    'C13': ('double int', 'float llong unsigned GF Q'), 'C14': ('double int', 'float llong unsigned schar GF Q'),
    'C15': ('double int', 'float unsigned schar GF'), 'C16': ('double int unsigned', 'float schar GF Q'),
    'C17': ('double', 'int'), 'C18': ('double int', 'float GF Q'), 'C19': ('double int', 'float unsigned GF'),
    'C20': ('double int', 'float unsigned GF'), 'C21': ('double int', 'float unsigned GF Q'), 'C22': ('GF', 'Q'),
}
# further element types, tried when a function is left to the bounded stand-in (code may tell element types apart)
LATE = {p: 'ldouble short ull' for p in ('C01', 'C02', 'C03', 'C04', 'C05', 'C06', 'C07', 'C11', 'C12', 'C14', 'C15', 'C16', 'C18', 'C19', 'C21')}
LATE.update({'C08': 'ldouble short', 'C09': 'ldouble', 'C10': 'ldouble', 'C13': 'ldouble ull'})
# obligations that decide the properties ranging over all operations
KINDS = {
    'C17': {'bounds', 'termination', 'overflow', 'precondition', 'nonzero-divisor'},
    'C19': {'frame'},
    'C20': set(),
}
EXACT = ('C01', 'C03', 'C04', 'C05', 'C06')      # stated for rounding arithmetic too: only proofs with uninterpreted arithmetic count
COST = {'conv2_full': 45, 'det': 25, 'conv2': 20, 'getminor': 20, 'lu': 12, 'median': 12, 'chol': 8, 'conv2_valid': 8,
        'pow': 6, 'inv': 6}
KIND_NAME = {'P': 'uninterpreted element arithmetic (any element type, rounding included)',
             'R': 'exact real arithmetic, products uninterpreted up to lemmas', 'N': 'exact real arithmetic, nonlinear'}


# ------------------------------------------------------------------------------------------------ helpers
def strip_comments(s):
    return re.sub(r'//[^\n]*|/\*.*?\*/|"(?:\\.|[^"\\])*"', ' ', s, flags=re.S)


def mined():
    """numbers written in the library's source: dimensions and values worth trying"""
    ints, flts = set(), set()
    d = os.path.join(REPO, 'matrix')
    for base, _, fs in os.walk(d):
        for f in sorted(fs):
            if not f.endswith(('.hpp', '.h', '.hh', '.ipp', '.inl', '.tpp')):
                continue
            try:
                s = strip_comments(open(os.path.join(base, f), errors='replace').read())
            except OSError:
                continue
            s = re.sub(r'^\s*#.*$', ' ', s, flags=re.M)
            for m in re.finditer(r'(?<![\w.])(0[xX][0-9a-fA-F]+|\d+)(?:[uUlL]*)(?![\w.])', s):
                try:
                    ints.add(int(m.group(1), 0) if not re.match(r'0\d', m.group(1)) else int(m.group(1), 8))
                except ValueError:
                    pass
            for m in re.finditer(r'(?<![\w.])(\d+\.\d*(?:[eE][-+]?\d+)?|\.\d+(?:[eE][-+]?\d+)?|\d+[eE][-+]?\d+)', s):
                flts.add(float(m.group(1)))
    dims = set()
    base = {1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 12, 16, 17, 33}
    for v in sorted(ints):
        if 4 <= v <= 260:
            for w in (v, v + 1, v - 1):
                if w not in base and 2 <= w <= 260:
                    dims.add(w)
    dims = sorted(dims)[:6]
    vals = sorted(v for v in ints if 3 < v < 2 ** 62)[:24]
    xi = sorted({w for v in vals for w in (v - 1, v, v + 1, -v)})[:60]
    fv = sorted(flts)[:24]
    xv = sorted({w for v in fv for w in (v, -v, v * 1.5, v / 2)} | {float(w) for w in xi if abs(w) < 2 ** 53})[:90]
    return dims, xi, xv


def cap_children():
    try:
        resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
        soft, hard = resource.getrlimit(resource.RLIMIT_STACK)
        want = 1 << 30
        resource.setrlimit(resource.RLIMIT_STACK, (want if hard == resource.RLIM_INFINITY else min(want, hard), hard))
    except (ValueError, OSError):
        pass
    os.setsid()


class Task:
    def __init__(self, name, prio):
        self.name, self.prio = name, prio
        self.t0 = None

    def kill(self):
        pass


class Proc(Task):
    """an external command"""
    def __init__(self, name, prio, cmd, env=None, limit=300, mem=None, done=None):
        Task.__init__(self, name, prio)
        self.cmd, self.env, self.limit, self.done = cmd, env, limit, done
        self.out = None

    def start(self, scratch):
        self.t0 = time.time()
        self.of = tempfile.NamedTemporaryFile('w+', dir=scratch, delete=False, errors='replace')
        self.ef = tempfile.NamedTemporaryFile('w+', dir=scratch, delete=False, errors='replace')
        e = dict(os.environ)
        e.update(self.env or {})
        e['LC_ALL'] = 'C'
        self.p = subprocess.Popen(self.cmd, stdout=self.of, stderr=self.ef, stdin=subprocess.DEVNULL, env=e, cwd=scratch,
                                  preexec_fn=cap_children)

    def poll(self):
        r = self.p.poll()
        if r is None:
            if time.time() - self.t0 > self.limit:
                self.kill()
                self.timed_out = True
                self.rc = -999
                self.read()
                return True
            return False
        self.rc = r
        self.timed_out = False
        self.read()
        return True

    def read(self):
        def rd(f):
            f.flush()
            f.seek(0, os.SEEK_END)
            n = f.tell()
            f.seek(max(0, n - 20000))
            s = f.read()
            if n > 20000:
                f.seek(0)
                s = f.read(6000) + '\n...\n' + s
            f.close()
            os.unlink(f.name)
            return s
        self.out, self.err = rd(self.of), rd(self.ef)

    def kill(self):
        try:
            os.killpg(self.p.pid, signal.SIGKILL)
        except OSError:
            pass
        self.p.wait()


class Fork(Task):
    """a Python function in a forked child; result as JSON through a file"""
    def __init__(self, name, prio, fn, limit=300, done=None):
        Task.__init__(self, name, prio)
        self.fn, self.limit, self.done = fn, limit, done
        self.res = None

    def start(self, scratch):
        self.t0 = time.time()
        fd, self.path = tempfile.mkstemp(dir=scratch)
        os.close(fd)
        sys.stdout.flush()
        self.pid = os.fork()
        if self.pid == 0:
            code = 1
            try:
                os.setsid()
                resource.setrlimit(resource.RLIMIT_AS, (8 << 30, 8 << 30))
                sys.setrecursionlimit(20000)
                r = self.fn()
                with open(self.path, 'w') as f:
                    json.dump(r, f)
                code = 0
            except BaseException as e:  # noqa
                try:
                    with open(self.path, 'w') as f:
                        json.dump({'crash': '%s: %s' % (type(e).__name__, e), 'trace': traceback.format_exc()[-3000:]}, f)
                except Exception:
                    pass
            finally:
                os._exit(code)

    def poll(self):
        pid, st = os.waitpid(self.pid, os.WNOHANG)
        if pid == 0:
            if time.time() - self.t0 > self.limit:
                self.kill()
                self.res = {'budget': 'time limit of the process'}
                return True
            return False
        try:
            self.res = json.load(open(self.path))
        except Exception:
            self.res = {'crash': 'verifier process ended with status %d' % st}
        os.unlink(self.path)
        return True

    def kill(self):
        try:
            os.killpg(self.pid, signal.SIGKILL)
        except OSError:
            pass
        try:
            os.waitpid(self.pid, 0)
        except OSError:
            pass


class Sched:
    def __init__(self, scratch):
        self.q, self.run, self.scratch = [], [], scratch
        self.stop = False

    def add(self, t):
        self.q.append(t)

    def loop(self):
        while (self.q or self.run) and not self.stop:
            self.q.sort(key=lambda t: -t.prio)
            while self.q and len(self.run) < JOBS:
                t = self.q.pop(0)
                t.start(self.scratch)
                self.run.append(t)
            for t in list(self.run):
                if t.poll():
                    self.run.remove(t)
                    if t.done:
                        t.done(t)
                    if self.stop:
                        break
            else:
                time.sleep(0.02)
        for t in self.run:
            t.kill()
        self.run = []


# ------------------------------------------------------------------------------------------------ bounded harness
class Harness:
    def __init__(self, prop, sched, scratch, on_fail):
        self.prop, self.sched, self.scratch, self.on_fail = prop, sched, scratch, on_fail
        self.dims, self.xi, self.xv = mined()
        self.required = TYPES[prop][0].split()
        self.types = self.required + TYPES[prop][1].split()
        self.runs, self.notes, self.fails, self.slow = [], [], [], []
        self.bins = {}
        self.cases = self.checks = 0

    def compile_cmd(self, t, exe):
        c = ['g++', '-std=c++14', '-w', '-fmax-errors=5', '-I' + os.path.join(REPO, 'matrix'), '-I' + os.path.join(HERE, 'replay'),
             '-DTT=' + {'llong': 'll'}.get(t, t)]
        if self.prop == 'C17':
            c += ['-O1', '-g1', '-fsanitize=address,bounds', '-fno-sanitize-recover=all', '-D_GLIBCXX_ASSERTIONS']
        else:
            c += ['-O1' if t in ('GF', 'Q') else '-O0']
            if TIER == 'thorough' and t == 'double' and self.prop != 'C20':
                c += ['-g1', '-fsanitize=address,bounds', '-fno-sanitize-recover=all', '-D_GLIBCXX_ASSERTIONS']
        if t == 'Q':
            c.append('-DUSE_Q')
        if self.dims:
            c.append('-DXDIMS=' + ','.join(map(str, self.dims)))
        if self.xi:
            c.append('-DXINTS=' + ','.join('%dLL' % v for v in self.xi))
        if self.xv:
            c.append('-DXVALS=' + ','.join(repr(v) for v in self.xv))
        return c + [os.path.join(HERE, 'replay', self.prop + '.cpp'), '-o', exe, '-pthread']

    def late(self):
        """the compiled code is all there is to decide some function: more element types"""
        new = LATE.get(self.prop, '').split()
        self.types = self.types + new
        self.start(new)

    def start(self, types=None):
        for t in self.types if types is None else types:
            exe = os.path.join(self.scratch, 'r_%s_%s' % (self.prop, t))
            self.sched.add(Proc('compile ' + t, 100 if t in self.required else 60, self.compile_cmd(t, exe), limit=420,
                                done=lambda k, t=t, exe=exe: self.compiled(k, t, exe)))

    def compiled(self, k, t, exe):
        if k.rc != 0:
            err = '\n'.join(l for l in k.err.splitlines() if 'error' in l)[:3000] or k.err[:3000]
            if k.timed_out or 'Killed' in k.err or 'virtual memory' in k.err:
                self.notes.append('harness for element type %s not compiled: time or memory' % t)
            elif t in self.required:
                # is it the mined dimensions, or the library?
                self.fail(t, 'the calls of the harness do not compile for element type %s' % t, err, k.cmd, 'compile')
            else:
                self.notes.append('harness for element type %s does not compile, dropped: %s' % (t, err.splitlines()[0][:300] if err else '?'))
            return
        self.bins[t] = exe
        self.go(t, exe, SEED, 1 if TIER == 'quick' else 8)

    def go(self, t, exe, seed, reps, prio=110):
        env = {'ASAN_OPTIONS': 'abort_on_error=1:detect_leaks=0:allocator_may_return_null=1'}
        self.sched.add(Proc('run %s seed %d' % (t, seed), prio, [exe, str(seed), str(reps)], env=env,
                            limit=280 if TIER == 'quick' else 1500, done=lambda k, t=t: self.ran(k, t, seed, reps)))

    def ran(self, k, t, seed, reps):
        line = next((l for l in k.out.splitlines() if l.startswith('FAIL')), None)
        if k.rc == 0 and k.out.startswith('OK'):
            m = re.match(r'OK cases=(\d+) checks=(\d+)', k.out)
            self.cases += int(m.group(1))
            self.checks += int(m.group(2))
            self.runs.append({'type': t, 'seed': seed, 'reps': reps, 'cases': int(m.group(1)), 'checks': int(m.group(2)),
                              'wall_s': round(time.time() - k.t0, 2)})
        elif line and ': the call does not finish' in line:
            self.slow.append({'type': t, 'line': line, 'detail': k.err[-4000:], 'cmd': k.cmd, 'phase': 'run'})
        elif line or k.rc in (3,) or (k.rc < 0 and k.rc != -9 and not k.timed_out):
            self.fail(t, line or 'the process ended with signal %d' % -k.rc, k.err[-4000:], k.cmd, 'run')
        else:
            self.notes.append('harness run for element type %s gave no answer (rc %s)' % (t, k.rc))

    def fail(self, t, line, detail, cmd, phase):
        self.fails.append({'type': t, 'line': line, 'detail': detail, 'cmd': cmd, 'phase': phase})
        self.on_fail()

    def weigh_slow(self, failed, undecided):
        """a case stopped by the clock is a failing input only where nothing shows that the code gets there in the end"""
        term = any(f['kind'] == 'termination' for f in failed)
        for f in self.slow:
            cells = [int(a) * int(b) for a, b in re.findall(r'\[(\d+)x(\d+):', f['line'])]
            if not self.fails and (term or (undecided and max(cells, default=0) <= 36)):
                self.fails.append(f)
            self.notes.append('stopped by the clock: ' + f['line'][:200])

    def escalate(self):
        """search harder for a concrete input once an obligation has failed"""
        for t, exe in self.bins.items():
            for s in (SEED + 101, SEED + 202):
                self.go(t, exe, s, 4)


# ------------------------------------------------------------------------------------------------ contracts
class Proofs:
    def __init__(self, prop, sched):
        self.prop, self.sched = prop, sched
        self.error = None
        self.results = {}       # index of function -> result
        self.started = set()
        self.prog = None

    def load(self):
        from mlv.prog import Program
        self.prog = Program(REPO)
        pr = self.prog
        if TIER == 'thorough':
            pr.dump_dir = os.path.join(self.sched.scratch, 'smt')
            os.makedirs(pr.dump_dir, exist_ok=True)
        self.spec = {i: pr.spec_of(f) for i, f in enumerate(pr.funcs)}
        self.by_spec = {}
        for i, s in self.spec.items():
            if s is not None:
                self.by_spec.setdefault(id(s), []).append(i)
        from mlv import specs as S
        self.specs = S.SPECS
        if self.prop in ALLF:
            self.root_specs = list(S.SPECS)
        else:
            self.root_specs = [s for s in S.SPECS if self.prop in s.props]
        self.missing = [s for s in self.root_specs if id(s) not in self.by_spec]
        self.roots = sorted(i for s in self.root_specs for i in self.by_spec.get(id(s), []))

    def called_names(self, f):
        return set(re.findall(r'\b(\w+)\s*(?:<[^;(){}]*>)?\s*\(', strip_comments(f.text))) | \
            {'operator' + o for o in '+-*/' if o in f.text}

    def start(self):
        todo, seen = list(self.roots), set(self.roots)
        while todo:
            i = todo.pop()
            self.launch(i)
            f = self.prog.funcs[i]
            for n in self.called_names(f):
                if n.startswith('operator'):
                    continue
                for j, g in enumerate(self.prog.funcs):
                    if g.name == n and j not in seen and self.spec[j] is not None:
                        seen.add(j)
                        todo.append(j)

    def launch(self, i):
        if i in self.started:
            return
        self.started.add(i)
        f, sp = self.prog.funcs[i], self.spec[i]
        lim = min(FN_S, max(30, HARD - (time.time() - T0)))
        self.sched.add(Fork('%s %s' % (f.loc(), f.name), 50 + COST.get(f.name, 0) / 10.0, lambda: verify_one(self.prog, i, lim, self.prop),
                            limit=lim + 90, done=lambda k: self.finished(i, k)))

    def finished(self, i, k):
        self.results[i] = k.res
        for j in self.deps(i):
            self.launch(j)

    def deps(self, i):
        out = []
        for n in self.results.get(i, {}).get('callees', []):
            out += self.by_spec.get(id(self.specs[n]), [])
        return out

    def closure(self):
        seen, todo = set(self.roots), list(self.roots)
        while todo:
            for j in self.deps(todo.pop()):
                if j not in seen:
                    seen.add(j)
                    todo.append(j)
        return sorted(seen)

    def cycle(self):
        """contracts that use each other in a circle: neither body is shown to return"""
        idx = {id(s): n for n, s in enumerate(self.specs)}
        g = {}
        for i, r in self.results.items():
            a = idx[id(self.spec[i])]
            for b in r.get('callees', []):
                if a != b:
                    g.setdefault(a, set()).add(b)
        state = {}
        path = []

        def dfs(u):
            state[u] = 1
            path.append(u)
            for v in g.get(u, ()):
                if state.get(v) == 1:
                    return path[path.index(v):]
                if v not in state:
                    c = dfs(v)
                    if c:
                        return c
            path.pop()
            state[u] = 2
            return None
        for u in list(g):
            if u not in state:
                c = dfs(u)
                if c:
                    return [self.specs[n].name for n in c]
        return None


def verify_one(prog, i, lim, prop=None):
    from mlv.vcg import Verifier, Unsupported, Budget
    from mlv.alg import Alg
    from mlv import specs as S
    f = prog.funcs[i]
    sp = prog.spec_of(f)
    end = time.time() + lim
    t0 = time.time()
    res = {'fn': f.name, 'loc': f.loc(), 'obligs': [], 'callees': [], 'allocs': [], 'assumed': [], 'queries': 0, 'solver_s': 0.0,
           'inv': 0, 'modes': [], 'lemmas': [], 'statics': [list(x) for x in f.statics]}
    callees = set()
    if f.error:
        res['unsupported'] = str(f.error)
        return res
    for ik in prog.intkinds(f, sp):
        best = None
        unsup = bud = None
        for scale in (1, 4):
            if best is not None and not [o for o in best.obligs if not o.ok]:
                break
            if scale > 1 and best is None and bud is None:
                break
            for m in ('P' if prop in EXACT and 'P' in sp.modes else sp.modes):
                g = Alg(m)
                try:
                    v = Verifier(prog, f, sp, g, ik, deadline=end, cand_ms=400 * scale, ob_ms=6000 * scale)
                    v.verify()
                except Unsupported as e:
                    unsup = str(e)
                    continue
                except Budget as e:
                    bud = str(e)
                    continue
                bad = [o for o in v.obligs if not o.ok]
                v.mode = m
                v.lemma_names = sp.axiom_names(g)
                if best is None or len(bad) < len([o for o in best.obligs if not o.ok]):
                    best = v
                if not bad:
                    break
        if best is None:
            if bud:
                res['budget'] = bud
            else:
                res['unsupported'] = unsup or '?'
            return res
        v = best
        res['modes'].append(v.mode)
        res['lemmas'] = sorted(set(res['lemmas']) | set(v.lemma_names))
        tag = (' [' + ','.join('%s=%s' % kv for kv in ik.items()) + ']') if ik else ''
        for o in v.obligs:
            d = {'kind': o.kind, 'line': o.line, 'desc': v.pretty(str(o.desc)) + tag, 'ok': bool(o.ok), 'secs': round(o.secs, 3)}
            if not o.ok:
                d['reason'] = o.reason
                d['smt'] = (o.smt or '')[:200000]
            res['obligs'].append(d)
        if v.models:
            res['models'] = v.models[:5]
        res['allocs'] += [str(a) for a in v.allocs]
        res['assumed'] = sorted(set(res['assumed']) | {str(a) for a in v.assumed})
        res['queries'] += v.stats['queries']
        res['solver_s'] += v.stats['solver_s']
        res['inv'] += v.stats['inv']
        res.setdefault('dumps', []).extend(v.dumps)
        callees |= {next(n for n, s in enumerate(S.SPECS) if s is c) for c in v.callee_specs}
    res['callees'] = sorted(callees)
    res['heap_allowed'] = bool(sp.heap)
    res['wall_s'] = round(time.time() - t0, 2)
    return res


def second_solver(p, box=900):
    """cvc5 on the dumped obligations and loop invariants that z3 discharged: a cross-check, not the deciding step"""
    from concurrent.futures import ThreadPoolExecutor
    d, end, t0 = p.prog.dump_dir, time.time() + box, time.time()
    files = [x for i in p.closure() for x in (p.results.get(i) or {}).get('dumps', [])]
    kinds = KINDS.get(p.prop)
    if kinds is not None:
        files = [x for x in files if x.split('-', 2)[2].rsplit('-', 1)[0] in kinds | {'invariant'}]

    def one(x):
        if time.time() > end:
            return x, 'not run'
        try:
            o = subprocess.run(['cvc5', '--tlimit=8000', os.path.join(d, x)], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=30,
                               text=True).stdout.split()
        except (OSError, subprocess.TimeoutExpired):
            return x, 'no answer'
        return x, o[0] if o and o[0] in ('unsat', 'sat') else 'no answer'
    with ThreadPoolExecutor(JOBS) as ex:
        rs = list(ex.map(one, files))
    if os.environ.get('MLV_DEBUG'):
        print([r for r in rs if r[1] != 'unsat'], len(set(files)), len(os.listdir(d)), {i: len((p.results.get(i) or {}).get('dumps', [])) for i in p.closure()})
    out = {'solver': 'cvc5 1.1.2', 'queries': len(rs), 'wall_s': round(time.time() - t0, 1)}
    for k, n in (('confirmed', 'unsat'), ('no_answer', 'no answer'), ('not_run', 'not run'), ('contradicted', 'sat')):
        out[k] = sum(r == n for _, r in rs)
    return out


def z3_version():
    try:
        import z3
        return z3.get_version_string()
    except Exception:
        return '?'


TRUSTED = [
    'clang 18 (AST of the headers) and mlv/extract.py (AST to IR; anything it does not know is refused, not dropped)',
    'mlv/vcg.py (verification-condition generator) and the z3 python package as the deciding back end',
    'mlv/lean.py (prints the SMT formulas of the lemmas as Lean propositions) and Lean 4.33 with Mathlib: every lemma about a spec '
    'function is proved in lean/ from the definitions in lean/Spec.lean (propext, Classical.choice, Quot.sound only)',
    'element arithmetic: mode P leaves every element operation uninterpreted (commutativity of + and * assumed); modes R/N treat '
    'it as exact real arithmetic without overflow or rounding',
    'dimensions between 1 and 2^30, at most 2^48 entries where a product of dimensions is converted to floating point',
    'two operands passed by reference are distinct or the function does not write them (in-place swaps take one matrix)',
]


def main():
    if len(sys.argv) < 2 or sys.argv[1] not in TYPES:
        print('usage: check.py C01..C22')
        return 2
    prop = sys.argv[1]
    evd = os.path.join(HERE, 'evidence')
    rep = os.path.join(evd, 'replay')
    os.makedirs(rep, exist_ok=True)
    for f in os.listdir(rep):
        if f.startswith(prop + '.') or f.startswith(prop + '-'):
            os.unlink(os.path.join(rep, f))
    scratch = tempfile.mkdtemp(prefix='mlv_%s_' % prop)
    try:
        return decide(prop, evd, rep, scratch)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


def decide(prop, evd, rep, scratch):
    sched = Sched(scratch)
    h = Harness(prop, sched, scratch, lambda: setattr(sched, 'stop', True))
    p = Proofs(prop, sched)
    h.start()
    # the extraction runs in this process while the first compilations run
    sched.q.sort(key=lambda t: -t.prio)
    while sched.q and len(sched.run) < JOBS - 1:
        t = sched.q.pop(0)
        t.start(scratch)
        sched.run.append(t)
    try:
        p.load()
        p.start()
    except Exception as e:
        p.error = '%s: %s' % (type(e).__name__, str(e)[:3000])
    sched.loop()
    failed, undecided = judge(prop, p)
    if undecided and not h.fails and time.time() - T0 < HARD:
        sched.stop = False
        h.late()
        sched.loop()
    if failed and not h.fails and h.bins and time.time() - T0 < HARD:
        sched.stop = False
        h.escalate()
        sched.loop()
    h.weigh_slow(failed, undecided)
    # ---------------------------------------------------------------- verdict
    viol = None
    if h.fails:
        f = h.fails[0]
        path = os.path.join(rep, prop + '-input.txt')
        with open(path, 'w') as o:
            o.write('property %s violated: %s\n\nreproduce:\n  %s\n' % (prop, f['line'], ' '.join(sh(c) for c in h.compile_cmd(f['type'], '/tmp/replay_' + prop))))
            if f['phase'] == 'run':
                o.write('  /tmp/replay_%s %s\n' % (prop, ' '.join(f['cmd'][1:])))
            o.write('\n%s\n' % f['detail'])
            for fo in failed[:20]:
                o.write('\nobligation not discharged: %s\n' % describe(fo))
        viol = 'VIOLATION property=%s replay=%s' % (prop, path)
        print(f['line'][:1500])
    elif failed:
        path = os.path.join(rep, prop + '-obligation.txt')
        with open(path, 'w') as o:
            o.write('property %s: %d obligation(s) of the current source not discharged\n' % (prop, len(failed)))
            for fo in failed:
                o.write('\n%s\n' % describe(fo))
                if fo.get('models'):
                    o.write('solver candidate models (integers): %s\n' % json.dumps(fo['models']))
            for fo in failed[:3]:
                if fo.get('smt'):
                    o.write('\n; ---- SMT-LIB of %s\n%s\n' % (describe(fo), fo['smt']))
        viol = 'VIOLATION property=%s replay=%s no-failing-input-found' % (prop, path)
        for fo in failed[:5]:
            print('not discharged: ' + describe(fo))
    second = None
    if TIER == 'thorough' and not p.error and not viol:
        second = second_solver(p)
        if second['contradicted']:
            print('note: cvc5 finds a model for %d queries that z3 refutes' % second['contradicted'])
    evidence(prop, evd, p, h, failed, undecided, viol, second)
    if viol:
        print(viol)
        return 1
    print('%s held: %s' % (prop, summary(p, h, undecided)))
    return 0


def sh(c):
    return c if re.match(r'^[\w./=,+:@-]+$', c) else "'" + c + "'"


def describe(f):
    return '%s in %s (%s, line %s): %s%s' % (f['kind'], f['fn'], f['loc'], f.get('line'), f['desc'],
                                             ' -- ' + f['reason'] if f.get('reason') else '')


def judge(prop, p):
    """-> failed obligations, functions left to the bounded stand-in"""
    failed, undecided = [], []
    if p.error:
        undecided.append({'fn': '(all)', 'why': p.error})
        return failed, undecided
    kinds = KINDS.get(prop)
    for s in p.missing:
        undecided.append({'fn': s.name, 'why': 'no function with the signature of this contract was extracted'})
    if prop == 'C19':
        for name, ty, cx in p.prog.ex.globals:
            if not cx and not ty.startswith('const '):
                failed.append({'kind': 'state', 'fn': name, 'loc': 'namespace scope', 'line': None,
                               'desc': 'mutable variable of type %s at namespace scope' % ty})
        for f in p.prog.funcs:
            for nm, ln in f.statics:
                failed.append({'kind': 'state', 'fn': f.name, 'loc': f.loc(), 'line': ln, 'desc': 'variable %s keeps state between calls' % nm})
    for i in p.closure():
        r = p.results.get(i)
        f = p.prog.funcs[i]
        if r is None:
            undecided.append({'fn': f.name, 'loc': f.loc(), 'why': 'not run'})
            continue
        if 'unsupported' in r or 'crash' in r:
            undecided.append({'fn': f.name, 'loc': f.loc(), 'why': 'outside the verifier\'s reach: ' + (r.get('unsupported') or r.get('crash'))[:600]})
            continue
        if 'budget' in r:
            if prop in ALLF:
                undecided.append({'fn': f.name, 'loc': f.loc(), 'why': 'time budget'})
            else:
                failed.append({'kind': 'budget', 'fn': f.name, 'loc': f.loc(), 'line': f.line,
                               'desc': 'obligations not discharged within the time budget (%s)' % r['budget']})
            continue
        for o in r['obligs']:
            if o['ok'] or (kinds is not None and o['kind'] not in kinds):
                continue
            d = dict(o)
            d['fn'], d['loc'], d['models'] = r['fn'], r['loc'], r.get('models')
            failed.append(d)
        if prop == 'C20' and r['allocs'] and not r.get('heap_allowed'):
            failed.append({'kind': 'allocation', 'fn': r['fn'], 'loc': r['loc'], 'line': None,
                           'desc': 'allocates: ' + ', '.join(sorted(set(r['allocs'])))})
    if prop == 'C17' or kinds is None:
        c = p.cycle()
        if c:
            failed.append({'kind': 'termination', 'fn': c[0], 'loc': 'call graph', 'line': None,
                           'desc': 'contracts call each other in a circle: ' + ' -> '.join(c)})
    return failed, undecided


def summary(p, h, undecided):
    n = d = 0
    for i in (p.closure() if not p.error else []):
        r = p.results.get(i) or {}
        n += len(r.get('obligs', []))
        d += sum(o['ok'] for o in r.get('obligs', []))
    return '%d/%d obligations over %d functions, %d left to the bounded stand-in; replay harness: %d cases, %d checks; %.0f s' % (
        d, n, len(p.closure()) if not p.error else 0, len(undecided), h.cases, h.checks, time.time() - T0)


def lemma_library(prop, used):
    try:
        from mlv import lean
        st = lean.status(rerun=TIER == 'thorough')
    except Exception as e:
        return {'error': '%s: %s' % (type(e).__name__, str(e)[:500])}
    proved = {re.sub(r'_[PN]$', '', x) for x in st['lemmas']}
    out = {'proved_in_lean': sorted(x for x in used if x in proved), 'assumed_of_the_element_type': sorted(x for x in used if x not in proved),
           'digest_of_definitions_statements_and_proofs': st['digest'],
           'checked': 'Lean run now' if st['rerun'] else 'Lean run recorded in lean/PROVED.json for this digest', 'problems': st['problems']}
    if prop == 'C22':
        out['laws_proved_in_lean_from_the_contracts'] = st['laws']
    return out


def evidence(prop, evd, p, h, failed, undecided, viol, second=None):
    fns, n, d, q, ss, inv = [], 0, 0, 0, 0.0, 0
    assumed, lem, samples = set(), set(), []
    kinds = KINDS.get(prop)
    bykind = {}
    for i in (p.closure() if not p.error else []):
        r = p.results.get(i)
        if not r or not r.get('obligs'):
            continue
        obs = [o for o in r['obligs'] if kinds is None or o['kind'] in kinds]
        if prop == 'C20':
            obs = [{'kind': 'allocation', 'ok': not r['allocs'] or r['heap_allowed'], 'desc': 'no allocation on any path', 'line': None, 'secs': 0}]
        fns.append({'function': r['fn'], 'at': r['loc'], 'obligations': len(obs), 'discharged': sum(o['ok'] for o in obs),
                    'modes': [KIND_NAME[m] for m in sorted(set(r['modes']))], 'solver_s': round(r['solver_s'], 2),
                    'loop_invariants_kept': r['inv']})
        n += len(obs)
        d += sum(o['ok'] for o in obs)
        for o in obs:
            bykind[o['kind']] = bykind.get(o['kind'], 0) + 1
        q += r['queries']
        ss += r['solver_s']
        inv += r['inv']
        assumed |= set(r['assumed'])
        lem |= set(r['lemmas'])
        if obs and len(samples) < 4:
            o = max(obs, key=lambda o: o['secs'])
            samples.append('%s in %s %s line %s: %s (%.2f s)' % (o['kind'], r['fn'], r['loc'], o['line'], o['desc'], o['secs']))
    if prop == 'C19' and p.prog is not None:
        n += len(p.prog.funcs)
        d += sum(not f.statics for f in p.prog.funcs)
        bykind['state'] = len(p.prog.funcs)
    ev = {
        'property': prop, 'tier': TIER, 'seed': SEED, 'level': 'proof',
        'coverage': {
            'obligations': n, 'discharged': d,
            'checker_cmd': 'VERIF_TIER=%s python3-vt /verif/check.py %s' % (TIER, prop),
            'trusted_base': TRUSTED + sorted(assumed),
            'back_end': 'z3 %s' % z3_version(), 'solver_s': round(ss, 2), 'solver_queries': q,
            'second_back_end': second or 'thorough tier only', 'obligations_by_kind': bykind, 'functions_under_contract': fns, 'loop_invariants_inferred': inv,
            'lemmas_used': sorted(lem), 'lemma_library': lemma_library(prop, lem), 'samples': samples,
            'left_to_bounded_stand_in': undecided,
            'bounded_replay': {'label': 'bounded, not counted as proved', 'evaluations': h.cases, 'comparisons': h.checks,
                               'runs': h.runs, 'notes': h.notes, 'mined_dimensions': h.dims, 'mined_values': len(h.xi) + len(h.xv)},
            'failed_obligations': [describe(f) for f in failed],
        },
        'assumptions': TRUSTED[3:] + (['extraction failed: ' + p.error] if p.error else []),
        'wall_s': round(time.time() - T0, 2),
        'violations': 1 if viol else 0,
    }
    tmp = os.path.join(evd, prop + '.json.tmp')
    with open(tmp, 'w') as f:
        json.dump(ev, f, indent=1)
    os.replace(tmp, os.path.join(evd, prop + '.json'))


if __name__ == '__main__':
    sys.exit(main())
