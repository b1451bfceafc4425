"""Verification-condition generator over the extracted IR.

Forward symbolic execution of one function template at a time, dimensions symbolic, element type abstract.
Calls to functions that have a contract use only the contract; other mlib functions and lambdas are inlined.
Loops are cut by invariants: candidates from pool.py plus the contract's own ones, reduced to the inductive
subset (Houdini).  Every obligation is sent to z3 (e-matching only, no bound on dimensions or iterations).
"""
import re
import time
import z3
from z3 import And, Or, Not, Implies, If, ForAll, IntVal, Select, Store, K, BoolVal, Int
from .extract import Unsupported, N, TypeParser, _tokens
from .alg import sel2, sto2
from . import lemmas

DIMMAX = 2 ** 30
RANGES = {'u64': (0, 2 ** 64 - 1), 'i64': (-2 ** 63, 2 ** 63 - 1), 'u32': (0, 2 ** 32 - 1), 'i32': (-2 ** 31, 2 ** 31 - 1),
          'u16': (0, 2 ** 16 - 1), 'i16': (-2 ** 15, 2 ** 15 - 1), 'u8': (0, 255), 'i8': (-128, 127)}
WIDTH = {'u64': 64, 'i64': 64, 'u32': 32, 'i32': 32, 'u16': 16, 'i16': 16, 'u8': 8, 'i8': 8}


class Budget(Exception):
    pass


class V:
    __slots__ = ()


class VInt(V):
    def __init__(s, t, kind): s.t, s.kind = t, kind
    def terms(s): return [s.t]
    def rebuild(s, ts): return VInt(ts[0], s.kind)
    def shape(s): return ('int', s.kind)


class VBool(V):
    def __init__(s, t): s.t = t
    def terms(s): return [s.t]
    def rebuild(s, ts): return VBool(ts[0])
    def shape(s): return ('bool',)


class VT(V):
    """an element; prom: the value of an arithmetic expression, whose C++ type is the promoted one (int for char), not yet
    converted back to T"""
    def __init__(s, t, prom=False): s.t, s.prom = t, prom
    def terms(s): return [s.t]
    def rebuild(s, ts): return VT(ts[0], s.prom)
    def shape(s): return ('T',)


WIDER = ('float', 'double', 'long double')


class VFlt(V):
    """floating value that is not an element: literal text, or an exactly represented integer"""
    def __init__(s, lit=None, exact=None): s.lit, s.exact = lit, exact
    def terms(s): return []
    def rebuild(s, ts): return s
    def shape(s): return ('flt', s.lit, None if s.exact is None else s.exact.sexpr())


class VMat(V):
    def __init__(s, t, r, c): s.t, s.r, s.c = t, r, c
    def terms(s): return [s.t]
    def rebuild(s, ts): return VMat(ts[0], s.r, s.c)
    def shape(s): return ('mat', s.r.sexpr(), s.c.sexpr())


class VRow(V):
    def __init__(s, t, n): s.t, s.n = t, n
    def terms(s): return [s.t]
    def rebuild(s, ts): return VRow(ts[0], s.n)
    def shape(s): return ('row', s.n.sexpr())


class VPair(V):
    def __init__(s, a, b): s.a, s.b = a, b
    def terms(s): return s.a.terms() + s.b.terms()

    def rebuild(s, ts):
        k = len(s.a.terms())
        return VPair(s.a.rebuild(ts[:k]), s.b.rebuild(ts[k:]))
    def shape(s): return ('pair', s.a.shape(), s.b.shape())


class VMap(V):
    def __init__(s, pres, cnt): s.pres, s.cnt = pres, cnt
    def terms(s): return [s.pres, s.cnt]
    def rebuild(s, ts): return VMap(*ts)
    def shape(s): return ('map',)


class VOut(V):
    def __init__(s, t): s.t = t
    def terms(s): return [s.t]
    def rebuild(s, ts): return VOut(ts[0])
    def shape(s): return ('out',)


class VLam(V):
    def __init__(s, node, snap): s.node, s.snap = node, snap
    def terms(s): return []
    def rebuild(s, ts): return s
    def shape(s): return ('lam', id(s.node))


class VRef(V):
    def __init__(s, root, path): s.root, s.path = root, path
    def terms(s): return [p[1] for p in s.path if p[0] == 'i']

    def rebuild(s, ts):
        ts = list(ts)
        return VRef(s.root, [('i', ts.pop(0)) if p[0] == 'i' else p for p in s.path])
    def shape(s): return ('ref', s.root, tuple(p[0] for p in s.path))


class VIter(V):
    """random-access iterator: a position t in the array at ref"""
    kind = 'i64'
    def __init__(s, ref, t): s.ref, s.t = ref, t
    def terms(s): return [s.t]
    def rebuild(s, ts): return VIter(s.ref, ts[0])
    def shape(s): return ('iter', s.ref.root, tuple((p[0], p[1].sexpr() if p[0] == 'i' else str(p[1])) for p in s.ref.path))


class VMapIt(V):
    """what map.find(key) returned"""
    def __init__(s, ref, key): s.ref, s.key = ref, key
    def terms(s): return [s.key]
    def rebuild(s, ts): return VMapIt(s.ref, ts[0])
    def shape(s): return ('mapit', s.ref.root)


class VMisc(V):
    def __init__(s, what, v=None): s.what, s.v = what, v
    def terms(s): return []
    def rebuild(s, ts): return s
    def shape(s): return ('misc', s.what)


class St:
    __slots__ = ('env', 'facts', 'tctx')

    def __init__(s, env, facts, tctx):
        s.env, s.facts, s.tctx = env, facts, tctx

    def copy(s):
        return St(dict(s.env), list(s.facts), s.tctx)

    def add(s, f, guard=False):
        if z3.is_and(f):
            for g in f.children():
                s.add(g, guard)
            return
        s.facts.append((guard, f))


class Outcome:
    __slots__ = ('kind', 'st', 'v', 'line')

    def __init__(s, kind, st, v=None, line=None):
        s.kind, s.st, s.v, s.line = kind, st, v, line


class Oblig:
    def __init__(s, fn, kind, line, desc, ok, secs, smt=None, reason=''):
        s.fn, s.kind, s.line, s.desc, s.ok, s.secs, s.smt, s.reason = fn, kind, line, desc, ok, secs, smt, reason


def has_quant(f, cache={}):
    k = f.get_id()
    if k in cache:
        return cache[k][1]
    st, res, seen = [f], False, set()
    while st:
        x = st.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_quantifier(x):
            res = True
            break
        st.extend(x.children())
    cache[k] = (f, res)
    return res


def has_ite(f, cache={}):
    """contains a connective that may not occur in a trigger"""
    k = f.get_id()
    if k in cache:
        return cache[k][1]
    st, res, seen = [f], False, set()
    while st:
        x = st.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_app(x) and x.decl().kind() in (z3.Z3_OP_ITE, z3.Z3_OP_AND, z3.Z3_OP_OR, z3.Z3_OP_NOT, z3.Z3_OP_EQ,
                                                z3.Z3_OP_LE, z3.Z3_OP_GE, z3.Z3_OP_LT, z3.Z3_OP_GT, z3.Z3_OP_IMPLIES):
            res = True
            break
        st.extend(x.children())
    cache[k] = (f, res)
    return res


def pure_int(f, cache={}):
    k = f.get_id()
    if k in cache:
        return cache[k][1]
    st, res, seen = [f], True, set()
    while st:
        x = st.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_quantifier(x) or not (x.sort() == z3.IntSort() or x.sort() == z3.BoolSort()) or \
                (z3.is_app(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED and x.num_args() > 0) or \
                (z3.is_app(x) and x.decl().kind() == z3.Z3_OP_SELECT):
            res = False
            break
        st.extend(x.children())
    cache[k] = (f, res)
    return res


def bool_atom(f):
    """does a propositional constant occur? what it stands for may be about elements"""
    st, seen = [f], set()
    while st:
        x = st.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if x.sort() == z3.BoolSort() and z3.is_const(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
            return True
        st.extend(x.children())
    return False


class Verifier:
    """verifies one function (template) against one contract in one algebra mode"""

    def __init__(self, prog, func, spec, alg, intkinds=None, deadline=None, cand_ms=400, ob_ms=6000, log=None):
        self.prog, self.func, self.spec, self.alg = prog, func, spec, alg
        self.intkinds = intkinds or {}
        self.obligs = []
        self.checking = False
        self.pending = []
        self.nfresh = 0
        self.depth = 0
        self.deadline = deadline or time.time() + 300
        self.cand_ms, self.ob_ms = cand_ms, ob_ms
        self.width, self.keep = {}, []   # terms known to hold a float / double / long double value
        self.loopcache = {}
        self.inline_stack = []
        self.loops = []          # enclosing loop descriptors (innermost last)
        self.stats = {'queries': 0, 'solver_s': 0.0, 'inv': 0}
        self.log = log
        self.allocs = []         # effect summary
        self.assumed = set()     # external contracts used
        self.callees = set()
        self.callee_specs = set()
        self.seen_ob = set()
        self.axioms = list(spec.axiom_formulas(alg)) if spec else []
        self.models = []
        self.dumps = []
        self.term_ok = True
        self.frames = []
        self.vname = {}

    def pretty(self, label):
        """variable ids -> source names"""
        import re
        return re.sub(r'0x[0-9a-f]+', lambda m: self.vname.get(m.group(0), m.group(0)), label)

    # ------------------------------------------------------------ fresh symbols
    def fresh(self, hint, sort):
        self.nfresh += 1
        return z3.Const('%s!%d' % (hint, self.nfresh), sort)

    def fresh_like(self, hint, v):
        ts = [self.fresh(hint, t.sort()) for t in v.terms()]
        return v.rebuild(ts) if ts else v

    def named(self, facts, t, hint='nm'):
        """t itself, or a fresh constant equal to it when t may not occur in a trigger"""
        if not has_ite(t):
            return t
        c = self.fresh(hint, t.sort())
        facts.append((False, c == t))
        return c

    # ------------------------------------------------------------ solver
    def solver(self, facts, ms, light=False):
        s = z3.Solver()
        s.set(auto_config=False)
        s.set('smt.mbqi', False)
        s.set('timeout', ms)
        s.set('smt.random_seed', 1)
        if self.alg.mode == 'N':
            s.set('smt.arith.nl', True)
        for a in self.axioms:
            s.add(a)
        for _, f in facts:
            s.add(f)
        return s

    def prove_all(self, facts, goals, ms, slow=None):
        """-> list of booleans"""
        if time.time() > self.deadline:
            raise Budget('time budget')
        s = None
        si = None
        res = []
        for gi, g in enumerate(goals):
            g = z3.simplify(g) if not has_quant(g) else g
            if z3.is_true(g):
                res.append(True)
                continue
            if pure_int(g):
                # a relation between integers is decided from the integer facts alone
                if si is None:
                    si = z3.Solver()
                    si.set('timeout', ms)
                    for _, f in facts:
                        if pure_int(f):
                            si.add(f)
                t0 = time.time()
                si.push()
                si.add(Not(g))
                ok = si.check() == z3.unsat
                si.pop()
                self.stats['queries'] += 1
                self.stats['solver_s'] += time.time() - t0
                if ok or not bool_atom(g):
                    res.append(ok)
                    continue
            if s is None:
                s = self.solver(facts, ms)
            s.push()
            s.add(Not(g))
            t0 = time.time()
            r = s.check()
            why = s.reason_unknown() if r == z3.unknown else ''
            s.pop()
            if 'timeout' in why or 'cancel' in why:
                # the incremental solver gave up: once more from scratch
                s2 = self.solver(facts, 10 * ms if slow and slow[gi] else ms)
                s2.add(Not(g))
                r = s2.check()
                self.stats['retry'] = self.stats.get('retry', 0) + 1
                if r == z3.unsat:
                    self.stats['retry_ok'] = self.stats.get('retry_ok', 0) + 1
            dt = time.time() - t0
            self.stats['queries'] += 1
            self.stats['solver_s'] += dt
            res.append(r == z3.unsat)
            if time.time() > self.deadline:
                raise Budget('time budget')
        return res

    def slow(self, c):
        return self.spec is not None and any(w in c.label for w in self.spec.slow)

    def quick(self, st, g):
        """pure integer entailment, for overflow simplification"""
        g = z3.simplify(g)
        if z3.is_true(g):
            return True
        if z3.is_false(g):
            return False
        s = z3.Solver()
        s.set('timeout', 150)
        for _, f in st.facts:
            if pure_int(f):
                s.add(f)
        s.add(Not(g))
        self.stats['queries'] += 1
        t0 = time.time()
        r = s.check() == z3.unsat
        self.stats['solver_s'] += time.time() - t0
        return r

    def oblige(self, st, goal, kind, line, desc):
        if not self.checking:
            return
        g = z3.simplify(goal) if not has_quant(goal) else goal
        key = (kind, line, desc, g.sexpr() if not has_quant(g) else g.get_id(), tuple(f.get_id() for _, f in st.facts))
        if key in self.seen_ob:
            return
        self.seen_ob.add(key)
        if z3.is_true(g):
            self.obligs.append(Oblig(self.func, kind, line, desc, True, 0.0))
            return
        if time.time() > self.deadline:
            raise Budget('time budget')
        ok, dt, reason, smt = False, 0.0, '', None
        # split conjunctions so that a failure names the conjunct
        s = self.solver(st.facts, self.ob_ms)
        s.add(Not(g))
        t0 = time.time()
        r = s.check()
        dt = time.time() - t0
        self.stats['queries'] += 1
        self.stats['solver_s'] += dt
        ok = r == z3.unsat
        if not ok:
            # retry with another seed and instantiation limit before giving up
            for seed, arith in ((7, 2), (13, 6)):
                s2 = self.solver(st.facts, self.ob_ms)
                s2.set('smt.random_seed', seed)
                s2.set('smt.arith.solver', arith)
                s2.add(Not(g))
                t0 = time.time()
                r2 = s2.check()
                dt += time.time() - t0
                self.stats['queries'] += 1
                if r2 == z3.unsat:
                    ok = True
                    break
            if not ok:
                reason = '%s %s' % (r, s.reason_unknown() if r == z3.unknown else '')
                smt = s.to_smt2()
                try:
                    m = s.model()
                    self.models.append({str(d): str(m[d]) for d in m.decls() if d.arity() == 0 and
                                        z3.is_int_value(m[d]) and '!' not in str(d)})
                except z3.Z3Exception:
                    pass
        if ok and self.prog.dump_dir:
            self.prog.dump(self, st.facts, g, kind)
        self.obligs.append(Oblig(self.func, kind, line, desc, ok, dt, smt, reason))

    # ------------------------------------------------------------ types
    def dim(self, st, e):
        if e[0] == 'num':
            return IntVal(e[1])
        if e[0] == 'name':
            b = st.tctx.get(e[1])
            if b is None:
                # constexpr variable
                for k, v in st.env.items():
                    if isinstance(v, VInt) and st.tctx.get('$name:' + e[1]) == k:
                        return v.t
                raise Unsupported('dimension name %s' % e[1])
            if b[0] != 'dim':
                raise Unsupported('dimension %s is a type' % e[1])
            return b[1]
        if e[0] == 'op':
            a, b = self.dim(st, e[2]), self.dim(st, e[3])
            op = e[1]
            t = {'+': lambda: a + b, '-': lambda: a - b, '*': lambda: a * b, '/': lambda: a / b, '%': lambda: a % b}[op]()
            return z3.simplify(t, arith_lhs=False) if not z3.is_int_value(t) else t
        if e[0] == 'dim':
            return e[1]
        raise Unsupported('dimension %r' % (e,))

    def rty(self, st, t):
        """resolve a type tuple in the current template context"""
        k = t[0]
        if k == 'name':
            b = st.tctx.get(t[1])
            if b is None:
                base = t[1].split('::')[-1]
                if base in ('value_type',):
                    return ('T',)
                raise Unsupported('type name %s' % t[1])
            if b[0] == 'dim':
                return b
            return self.rty(st, b[1]) if b[1][0] == 'name' and b[1] != t else b[1]
        if k == 'mat':
            e = self.rty(st, t[1])
            if e[0] not in ('T', 'int'):
                raise Unsupported('matrix of %s' % e[0])
            return ('mat', e, ('dim', self.dim(st, t[2])), ('dim', self.dim(st, t[3])))
        if k == 'row':
            e = self.rty(st, t[1])
            if e[0] == 'row':
                return ('mat', e[1], ('dim', self.dim(st, t[2])), e[2])
            return ('row', e, ('dim', self.dim(st, t[2])))
        if k == 'pair':
            return ('pair', self.rty(st, t[1]), self.rty(st, t[2]))
        if k == 'map':
            return ('map', self.rty(st, t[1]), self.rty(st, t[2]))
        if k in ('int', 'bool', 'float', 'double', 'void', 'auto', 'T', 'long double', 'dim'):
            return t
        raise Unsupported('type %r' % (t,))

    def fresh_of(self, st, ty, hint, assume=True):
        a = self.alg
        k = ty[0]
        if k == 'T' or k in ('float', 'double', 'long double'):
            return VT(self.fresh(hint, a.S))
        if k == 'mat':
            return VMat(self.fresh(hint, a.Mat), ty[2][1], ty[3][1])
        if k == 'row':
            if ty[1][0] not in ('T',):
                raise Unsupported('array of %s' % ty[1][0])
            return VRow(self.fresh(hint, a.Row), ty[2][1])
        if k == 'int':
            v = self.fresh(hint, z3.IntSort())
            lo, hi = RANGES[ty[1]]
            st.add(And(v >= lo, v <= hi))
            st.add(a.tick(v))
            return VInt(v, ty[1])
        if k == 'bool':
            return VBool(self.fresh(hint, z3.BoolSort()))
        if k == 'pair':
            return VPair(self.fresh_of(st, ty[1], hint), self.fresh_of(st, ty[2], hint))
        if k == 'map':
            return VMap(self.fresh(hint, z3.ArraySort(a.S, z3.BoolSort())), self.fresh(hint, z3.ArraySort(a.S, z3.IntSort())))
        raise Unsupported('value of type %r' % (ty,))

    def zero_of(self, st, ty):
        a = self.alg
        k = ty[0]
        if k == 'T' or k in ('float', 'double'):
            return VT(a.lit(0))
        if k == 'mat':
            return VMat(K(z3.IntSort(), K(z3.IntSort(), a.lit(0))), ty[2][1], ty[3][1])
        if k == 'row':
            return VRow(K(z3.IntSort(), a.lit(0)), ty[2][1])
        if k == 'int':
            return VInt(IntVal(0), ty[1])
        if k == 'bool':
            return VBool(BoolVal(False))
        if k == 'pair':
            return VPair(self.zero_of(st, ty[1]), self.zero_of(st, ty[2]))
        if k == 'map':
            self.allocs.append('std::map')
            return VMap(K(a.S, BoolVal(False)), K(a.S, IntVal(0)))
        raise Unsupported('value-initialised %r' % (ty,))

    def tyof(self, v):
        if isinstance(v, VInt):
            return ('int', v.kind)
        if isinstance(v, VBool):
            return ('bool',)
        if isinstance(v, VT):
            return ('T',)
        if isinstance(v, VMat):
            return ('mat', ('T',), ('dim', v.r), ('dim', v.c))
        if isinstance(v, VRow):
            return ('row', ('T',), ('dim', v.n))
        if isinstance(v, VPair):
            return ('pair', self.tyof(v.a), self.tyof(v.b))
        if isinstance(v, VMap):
            return ('map', ('T',), ('int', 'u64'))
        if isinstance(v, VFlt):
            return ('double',)
        return ('auto',)

    # ------------------------------------------------------------ integer semantics
    def icast(self, st, t, kind):
        lo, hi = RANGES[kind]
        t = z3.simplify(t)
        if z3.is_int_value(t):
            x = t.as_long()
            w = WIDTH[kind]
            x &= (1 << w) - 1
            if lo < 0 and x > hi:
                x -= 1 << w
            return IntVal(x)
        if self.quick(st, And(t >= lo, t <= hi)):
            return t
        if z3.is_app(t) and t.decl().kind() == z3.Z3_OP_ITE:
            c, a, b = t.children()
            sa, sb = St(st.env, st.facts + [(True, c)], st.tctx), St(st.env, st.facts + [(True, Not(c))], st.tctx)
            return If(c, self.icast(sa, a, kind), self.icast(sb, b, kind))
        m = 1 << WIDTH[kind]
        if self.quick(st, And(t >= lo, t <= hi + m)):
            return If(t > hi, t - m, t)
        if self.quick(st, And(t >= lo - m, t <= hi)):
            return If(t < lo, t + m, t)
        for off in (2 ** 64, -2 ** 64):
            if self.quick(st, And(t + off >= lo, t + off <= hi)):
                return t + off
        if lo < 0:
            r = t % m
            return If(r > hi, r - m, r)
        return t % m

    def common(self, k1, k2):
        def pr(k):
            return 'i32' if WIDTH[k] < 32 else k
        k1, k2 = pr(k1), pr(k2)
        if k1 == k2:
            return k1
        rank = {'i32': 0, 'u32': 1, 'i64': 2, 'u64': 3}
        return k1 if rank[k1] > rank[k2] else k2

    def bits(self, st, op, x, y, kind, line):
        """the bit operators, through x & y: exact for masks 2^k - 1 and their complements; otherwise a value known by its
        bounds, its lowest bit and its meeting zero"""
        w = 2 ** WIDTH[kind]
        for p, q in ((x, y), (y, x)):
            c = z3.simplify(q)
            if not z3.is_int_value(c):
                continue
            c = c.as_long() % w
            if c & (c + 1) == 0 and c < w // 2:
                r = p % (c + 1)
            elif (w - c) & (w - c - 1) == 0 and c:
                r = p - p % (w - c)
            else:
                continue
            if op == '&':
                return VInt(r, kind)
            if self.quick(st, And(p >= 0, p < w // 2)) and c < w // 2:
                return VInt(p + q - r if op == '|' else p + q - 2 * r, kind)
        if not self.quick(st, And(x >= 0, y >= 0)):
            raise Unsupported('integer operator %s on a possibly negative value' % op)
        r = self.fresh('bits', z3.IntSort())
        st.add(And(r >= 0, r <= x, r <= y))
        st.add((r % 2 == 1) == And(x % 2 == 1, y % 2 == 1))
        st.add((x + y - 2 * r == 0) == (x == y))
        t = r if op == '&' else x + y - r if op == '|' else x + y - 2 * r
        st.add(And(t >= 0, t <= RANGES[kind][1]))
        return VInt(t, kind)

    def arith_int(self, st, op, a, b, line):
        kind = self.common(a.kind, b.kind)
        x, y = self.icast(st, a.t, kind), self.icast(st, b.t, kind)
        lo, hi = RANGES[kind]
        if op in ('+', '-'):
            t = x + y if op == '+' else x - y
        elif op == '*':
            t = x * y
            if not (z3.is_int_value(x) or z3.is_int_value(y)):
                if self.quick(st, And(x >= 0, x <= 2 ** 31, y >= 0, y <= 2 ** 31)):
                    st.add(And(t >= 0, t <= 2 ** 62))
                    st.add(Implies(y >= 1, t >= x))
                    st.add(Implies(x >= 1, t >= y))
                    return VInt(t, kind)
        elif op in ('/', '%'):
            self.oblige(st, y != 0, 'nonzero-divisor', line, 'integer divisor is non-zero')
            st.add(y != 0)
            if lo < 0:
                self.oblige(st, Not(And(x == lo, y == -1)), 'overflow', line, 'signed division does not overflow')
                if z3.is_int_value(y) and y.as_long() > 0:
                    q = If(x >= 0, x / y, -((-x) / y))
                else:
                    q = If(y > 0, If(x >= 0, x / y, -((-x) / y)), If(x >= 0, -(x / (-y)), (-x) / (-y)))
            else:
                q = x / y
            if not z3.is_int_value(y) and self.quick(st, And(x >= 0, y > 0)):
                q = x / y
                st.add(lemmas.ground(self.alg, 'divmod_succ', x, y))
                for b in st.tctx.values():
                    if isinstance(b, tuple) and b[0] == 'dim' and not b[1].eq(y):
                        st.add(lemmas.ground(self.alg, 'div_below', x, y, b[1]))
                return VInt(q if op == '/' else x % y, kind)
            t = q if op == '/' else x - y * q
            if op == '%' and lo >= 0:
                t = x % y
            return VInt(t, kind)
        elif op in ('&', '|', '^', '<<', '>>'):
            if op in ('&', '|', '^'):
                return self.bits(st, op, x, y, kind, line)
            if op == '>>' and z3.is_int_value(y) and lo >= 0:
                return VInt(x / (1 << y.as_long()), kind)
            if op == '<<' and z3.is_int_value(y):
                t = x * (1 << y.as_long())
            else:
                raise Unsupported('integer operator ' + op)
        else:
            raise Unsupported('integer operator ' + op)
        if lo < 0:
            self.oblige(st, And(t >= lo, t <= hi), 'overflow', line, 'signed arithmetic stays in range')
            st.add(And(t >= lo, t <= hi))
            return VInt(z3.simplify(t) if z3.is_int_value(z3.simplify(t)) else t, kind)
        return VInt(self.icast(st, t, kind), kind)

    # ------------------------------------------------------------ conversions
    def toT(self, st, v):
        a = self.alg
        if isinstance(v, VT):
            return v.t
        if isinstance(v, VInt):
            def conv(t):
                if z3.is_int_value(t):
                    return a.lit(t.as_long())
                if z3.is_app(t) and t.decl().kind() == z3.Z3_OP_ITE:
                    c, x, y = t.children()
                    return If(c, conv(x), conv(y))
                return a.ofint(t)
            return conv(v.t)
        if isinstance(v, VBool):
            return If(v.t, a.lit(1), a.lit(0))
        if isinstance(v, VFlt):
            if v.exact is not None:
                return a.ofint(v.exact)
            return a.flit(v.lit)
        raise Unsupported('conversion to element')

    def tobool(self, st, v):
        if isinstance(v, VBool):
            return v.t
        if isinstance(v, VInt):
            return v.t != 0
        if isinstance(v, VT):
            return Not(self.alg.eq(v.t, self.alg.lit(0)))
        raise Unsupported('condition')

    def convert(self, st, v, ty, line=None, explicit=False):
        k = ty[0]
        if k == 'auto':
            return v
        if k == 'void':
            return VMisc('void')
        if k == 'T':
            return VT(self.toT(st, v))
        if k in ('float', 'double', 'long double'):
            if isinstance(v, VFlt):
                return v
            if isinstance(v, VInt):
                if z3.is_int_value(v.t):
                    return VFlt(lit=str(v.t.as_long()))
                if self.quick(st, And(v.t <= 2 ** 53, v.t >= -2 ** 53)) and k != 'float':
                    return VFlt(exact=v.t)
                return VT(self.alg.ofint(v.t))
            if isinstance(v, VT):
                have = self.width.get(v.t.get_id())
                if have is not None and WIDER.index(have) <= WIDER.index(k):
                    return v        # already of this type, or a widening conversion: the value stays
                r = VT(self.alg.fnarrow.get(k, self.alg.fnarrow['double'])(v.t))
                self.width[r.t.get_id()] = k
                self.keep.append(r.t)
                return r
        if k == 'int':
            if isinstance(v, VInt):
                return VInt(self.icast(st, v.t, ty[1]), ty[1])
            if isinstance(v, VBool):
                return VInt(If(v.t, IntVal(1), IntVal(0)), ty[1])
            if isinstance(v, VFlt):
                if v.exact is not None:
                    return VInt(self.icast(st, v.exact, ty[1]), ty[1])
                from fractions import Fraction
                return VInt(IntVal(int(Fraction(v.lit))), ty[1])
            if isinstance(v, VT):
                return VInt(self.alg.ftoint(v.t), ty[1])
        if k == 'bool':
            return VBool(self.tobool(st, v))
        if k == 'mat' and isinstance(v, VMat):
            return v
        if k == 'row' and isinstance(v, VRow):
            return v
        if k == 'map' and isinstance(v, VMap):
            return v
        if k == 'pair' and isinstance(v, VPair):
            return VPair(self.convert(st, v.a, ty[1]), self.convert(st, v.b, ty[2]))
        raise Unsupported('conversion to %s' % (ty,))

    # ------------------------------------------------------------ references
    def resolve(self, st, ref):
        """follow reference variables"""
        while isinstance(st.env.get(ref.root), VRef):
            r = st.env[ref.root]
            ref = VRef(r.root, r.path + ref.path)
        return ref

    def load(self, st, ref):
        ref = self.resolve(st, ref)
        if ref.root not in st.env:
            raise Unsupported('unknown variable')
        v = st.env[ref.root]
        for p in ref.path:
            v = self.step(st, v, p)
        return v

    def step(self, st, v, p):
        if p[0] == 'f':
            if isinstance(v, VPair):
                return v.a if p[1] == 'first' else v.b
            raise Unsupported('member ' + p[1])
        if p[0] == 'k':
            if isinstance(v, VMap):
                return VInt(Select(v.cnt, p[1]), 'u64')
            raise Unsupported('map access')
        if isinstance(v, VMat):
            return VRow(Select(v.t, p[1]), v.c)
        if isinstance(v, VRow):
            return VT(Select(v.t, p[1]))
        raise Unsupported('subscript')

    def store(self, st, ref, val):
        ref = self.resolve(st, ref)
        if ref.root not in st.env:
            raise Unsupported('unknown variable')
        if ref.path and isinstance(val, (VT, VInt)) and has_ite(val.t):
            val = val.rebuild([self.named(st.facts, val.t)])
        st.env[ref.root] = self.upd(st, st.env[ref.root], ref.path, val)

    def upd(self, st, v, path, val):
        if not path:
            return self.convert(st, val, self.tyof(v)) if not isinstance(v, (VFlt, VMisc)) else val
        p = path[0]
        sub = self.step(st, v, p)
        n = self.upd(st, sub, path[1:], val)
        if p[0] == 'f':
            return VPair(n, v.b) if p[1] == 'first' else VPair(v.a, n)
        if p[0] == 'k':
            return VMap(Store(v.pres, p[1], BoolVal(True)), Store(v.cnt, p[1], n.t))
        if isinstance(v, VMat):
            return VMat(Store(v.t, p[1], n.t), v.r, v.c)
        return VRow(Store(v.t, p[1], n.t), v.n)

    def bounds(self, st, v, it, line):
        n = v.r if isinstance(v, VMat) else v.n
        g = And(it >= 0, it < n)
        self.oblige(st, g, 'bounds', line, 'subscript is inside the array')
        st.add(g)
        st.add(self.alg.tick(it))

    def lval(self, st, e):
        if e.k == 'var':
            return self.resolve(st, VRef(e.id, []))
        if e.k == 'sub':
            try:
                b = self.lval(st, e.b)
            except NotLvalue:
                b = self.temp(st, self.eval(st, e.b))
            iv = self.eval(st, e.i)
            bv = self.load(st, b)
            if isinstance(bv, VIter):
                return self.deref(st, self.iter_add(st, bv, self.convert(st, iv, ('int', 'i64'), e.line).t, e.line), e.line)
            if isinstance(bv, VMap):
                key = self.named(st.facts, self.toT(st, iv))
                # operator[] inserts a value-initialised element
                nv = VMap(Store(bv.pres, key, BoolVal(True)),
                          Store(bv.cnt, key, self.named(st.facts, If(Select(bv.pres, key), Select(bv.cnt, key), IntVal(0)))))
                self.allocs.append('std::map insertion')
                self.store(st, b, nv)
                return VRef(b.root, b.path + [('k', key)])
            if not isinstance(bv, (VMat, VRow)):
                raise Unsupported('subscript of ' + type(bv).__name__)
            iv = self.convert(st, iv, ('int', 'u64'), e.line)
            iv = VInt(self.named(st.facts, iv.t), iv.kind)
            self.bounds(st, bv, iv.t, e.line)
            return VRef(b.root, b.path + [('i', iv.t)])
        if e.k == 'member' and e.name in ('first', 'second'):
            if e.o.k == 'deref':
                v = self.eval(st, e.o.e)
                if isinstance(v, VMapIt):
                    if e.name == 'first':
                        raise NotLvalue()
                    self.oblige(st, Select(self.load(st, v.ref).pres, v.key), 'bounds', e.line, 'the iterator points to an entry of the map')
                    return VRef(v.ref.root, v.ref.path + [('k', v.key)])
            b = self.lval(st, e.o)
            return VRef(b.root, b.path + [('f', e.name)])
        if e.k == 'cond':
            raise Unsupported('conditional lvalue')
        if e.k == 'deref':
            v = self.eval(st, e.e)
            if isinstance(v, VIter):
                return self.deref(st, v, e.line)
            raise Unsupported('dereference')
        if e.k == 'assign' or (e.k == 'incdec' and not e.post):
            self.eval(st, e)
            return self.lval(st, e.l if e.k == 'assign' else e.e)
        if e.k == 'method' and e.name == 'at':
            try:
                m = self.load(st, self.lval(st, e.o))
            except NotLvalue:
                m = None
            if isinstance(m, VMap):
                r = self.lval(st, e.o)
                key = self.named(st.facts, self.toT(st, self.eval(st, e.args[0])))
                self.oblige(st, Select(m.pres, key), 'bounds', e.line, 'the key given to at() is in the map')
                return VRef(r.root, r.path + [('k', key)])
            return self.lval(st, N('sub', e.line, b=e.o, i=e.args[0]))
        if e.k == 'method' and e.name in ('front', 'back'):
            b = self.lval(st, e.o)
            bv = self.load(st, b)
            if isinstance(bv, (VMat, VRow)):
                n = bv.r if isinstance(bv, VMat) else bv.n
                return VRef(b.root, b.path + [('i', IntVal(0) if e.name == 'front' else z3.simplify(n - 1))])
        if e.k == 'call' and e.f.k == 'fref' and self.base(e.f) in ('move', 'forward', 'ref', 'cref', 'as_const', 'get'):
            if self.base(e.f) == 'get':
                m = e.f.text[e.f.text.find('<') + 1:e.f.text.rfind('>')].strip()
                b = self.lval(st, e.args[0])
                bv = self.load(st, b)
                if isinstance(bv, VPair) and m in ('0', '1'):
                    return VRef(b.root, b.path + [('f', 'first' if m == '0' else 'second')])
                if isinstance(bv, (VMat, VRow)) and m.isdigit():
                    return VRef(b.root, b.path + [('i', IntVal(int(m)))])
                raise Unsupported('std::get')
            return self.lval(st, e.args[0])
        raise NotLvalue()

    def iter_n(self, st, it):
        v = self.load(st, it.ref)
        if not isinstance(v, (VMat, VRow)):
            raise Unsupported('iterator')
        return v, (v.r if isinstance(v, VMat) else v.n)

    def iter_add(self, st, it, d, line):
        v, n = self.iter_n(st, it)
        t = z3.simplify(it.t + d)
        g = And(t >= 0, t <= n)
        self.oblige(st, g, 'bounds', line, 'iterator stays inside the array')
        st.add(g)
        return VIter(it.ref, self.named(st.facts, t))

    def deref(self, st, it, line):
        v, n = self.iter_n(st, it)
        self.bounds(st, v, it.t, line)
        return VRef(it.ref.root, it.ref.path + [('i', it.t)])

    def temp(self, st, v):
        self.nfresh += 1
        k = '$tmp%d' % self.nfresh
        st.env[k] = v
        return VRef(k, [])

    @staticmethod
    def base(fref):
        return fref.name.split('::')[-1]

    # ------------------------------------------------------------ expressions
    def eval(self, st, e):
        k = e.k
        if k == 'num':
            return VInt(IntVal(e.v), e.ty[1])
        if k == 'flt':
            return VFlt(lit=e.v)
        if k == 'bool':
            return VBool(BoolVal(e.v))
        if k == 'str':
            return VMisc('str', e.v)
        if k == 'tparam':
            b = st.tctx.get(e.name)
            if b is None or b[0] != 'dim':
                raise Unsupported('template parameter ' + str(e.name))
            return VInt(b[1], 'u64')
        if k in ('var', 'sub', 'member', 'deref'):
            try:
                return self.load(st, self.lval(st, e))
            except NotLvalue:
                pass
            if k == 'member' and e.o.k == 'deref' and e.name == 'first':
                v = self.eval(st, e.o.e)
                if isinstance(v, VMapIt):
                    self.oblige(st, Select(self.load(st, v.ref).pres, v.key), 'bounds', e.line, 'the iterator points to an entry of the map')
                    return VT(v.key)
            if k == 'member':
                o = self.eval(st, e.o)
                return self.step(st, o, ('f', e.name))
            raise Unsupported('expression ' + k)
        if k == 'cast':
            v = self.eval(st, e.e)
            return self.convert(st, v, self.rty(st, e.ty), e.line, not e.implicit)
        if k == 'un':
            return self.unary(st, e)
        if k == 'bin':
            return self.binary(st, e)
        if k == 'cond':
            c = self.tobool(st, self.eval(st, e.c))
            return self.fork(st, c, lambda s: self.eval(s, e.a), lambda s: self.eval(s, e.b), unify=True)
        if k == 'comma':
            self.eval(st, e.a)
            return self.eval(st, e.b)
        if k == 'assign':
            return self.assign(st, e)
        if k == 'incdec':
            try:
                r = self.lval(st, e.e)
            except NotLvalue:
                r = None
            old = self.load(st, r) if r is not None else self.eval(st, e.e)
            if isinstance(old, VMat):
                return self.callfn(st, 'operator' + e.op, [old] + ([VInt(IntVal(0), 'i32')] if e.post else []), [r], e.line)
            if r is None:
                raise Unsupported('++ of a temporary')
            one = VInt(IntVal(1), 'i32')
            op = '+' if e.op == '++' else '-'
            if isinstance(old, VIter):
                nv = self.iter_add(st, old, IntVal(1 if op == '+' else -1), e.line)
            elif isinstance(old, VT):
                nv = VT(self.alg.add(old.t, self.alg.lit(1)) if op == '+' else self.alg.sub(old.t, self.alg.lit(1)))
            else:
                nv = self.convert(st, self.arith_int(st, op, old, one, e.line), ('int', old.kind))
            self.store(st, r, nv)
            return old if e.post else nv
        if k == 'init':
            return self.initlist(st, e, None if e.ty is None else self.rty(st, e.ty))
        if k == 'lambda':
            if e.byref is True:
                return VLam(e, None)
            return VLam(e, {kk: vv for kk, vv in st.env.items() if e.byref is False or self.vname.get(kk) not in e.byref})
        if k == 'call':
            return self.call(st, e)
        if k == 'method':
            return self.method(st, e)
        if k == 'throw':
            s2 = st.copy()
            self.pending.append(Outcome('throw', s2, e.ty, e.line))
            raise Diverge()
        if k == 'fref':
            b = self.base(e)
            if b in ('cout',):
                return VMisc('cout')
            if b in ('endl',):
                return VMisc('endl')
            raise Unsupported('reference to ' + b)
        if k == 'construct':
            if len(e.args) == 1:
                return self.eval(st, e.args[0])
            raise Unsupported('constructor ' + str(e.ty))
        raise Unsupported('expression ' + k)

    def initlist(self, st, e, ty):
        """value of type ty from a braced list"""
        if ty is None or ty[0] == 'auto':
            if len(e.e) == 1:
                return self.eval(st, e.e[0])
            return VMisc('braces', e)
        if not e.e:
            return self.zero_of(st, ty)
        if ty[0] in ('T', 'int', 'bool', 'float', 'double'):
            if len(e.e) != 1:
                raise Unsupported('scalar braces')
            x = e.e[0]
            return self.convert(st, self.initlist(st, x, ty) if x.k == 'init' and x.ty is None else self.eval(st, x), ty, e.line)
        if ty[0] == 'pair' and len(e.e) == 2:
            return VPair(self.init_elem(st, e.e[0], ty[1]), self.init_elem(st, e.e[1], ty[2]))
        if len(e.e) == 1 and e.e[0].k != 'init':
            v = self.eval(st, e.e[0])
            if isinstance(v, (VMat, VRow, VPair, VMap)) and type(v).__name__.lower()[1:] == ty[0]:
                return v
            if isinstance(v, VRow) and ty[0] == 'mat':
                z = self.zero_of(st, ty)
                return VMat(Store(z.t, IntVal(0), v.t), z.r, z.c)
            first = v
        else:
            first = None
        flat = []
        if ty[0] in ('mat', 'row'):
            z = self.zero_of(st, ty)
            # unwrap an extra brace level around the whole aggregate
            items = e.e
            while len(items) == 1 and items[0].k == 'init' and items[0].ty is None:
                items = items[0].e
            if ty[0] == 'mat' and any(x.k == 'init' and x.ty is None for x in items):
                t = z.t
                for r, x in enumerate(items):
                    if not (x.k == 'init' and x.ty is None):
                        raise Unsupported('mixed braces')
                    row = self.initlist(st, x, ('row', ty[1], ty[3]))
                    t = Store(t, IntVal(r), row.t)
                return VMat(t, z.r, z.c)
            vals = [first] if first is not None and len(items) == 1 else [self.eval(st, x) for x in items]
            if any(isinstance(v, VRow) for v in vals):
                t = z.t
                for r, v in enumerate(vals):
                    t = Store(t, IntVal(r), v.t)
                return VMat(t, z.r, z.c)
            flat = [self.toT(st, v) for v in vals]
            if ty[0] == 'row':
                t = z.t
                for i, x in enumerate(flat):
                    t = Store(t, IntVal(i), x)
                return VRow(t, z.n)
            c = z3.simplify(ty[3][1])
            if not z3.is_int_value(c):
                if len(flat) == 1:
                    return VMat(sto2(z.t, IntVal(0), IntVal(0), flat[0]), z.r, z.c)
                raise Unsupported('brace elision with symbolic columns')
            c = c.as_long()
            rows = {}
            for i, x in enumerate(flat):
                rows.setdefault(i // c, []).append((i % c, x))
            t = z.t
            for r, cells in rows.items():
                row = K(z3.IntSort(), self.alg.lit(0))
                for cc, x in cells:
                    row = Store(row, IntVal(cc), x)
                t = Store(t, IntVal(r), row)
            return VMat(t, z.r, z.c)
        raise Unsupported('braces for %s' % (ty,))

    def init_elem(self, st, x, ty):
        if x.k == 'init' and x.ty is None:
            return self.initlist(st, x, ty)
        return self.convert(st, self.eval(st, x), ty)

    def unary(self, st, e):
        v = self.eval(st, e.e)
        if e.op == '!':
            return VBool(Not(self.tobool(st, v)))
        if isinstance(v, VBool):
            v = VInt(If(v.t, IntVal(1), IntVal(0)), 'i32')
        if e.op == '+':
            return VT(v.t, True) if isinstance(v, VT) else v
        if e.op == '-':
            if isinstance(v, VInt):
                return self.arith_int(st, '-', VInt(IntVal(0), v.kind if WIDTH[v.kind] >= 32 else 'i32'), v, e.line)
            if isinstance(v, VT):
                return VT(self.alg.neg(v.t), True)
            if isinstance(v, VFlt) and v.lit is not None:
                return VFlt(lit=('-' + v.lit) if not v.lit.startswith('-') else v.lit[1:])
            if isinstance(v, VMat):
                return self.callfn(st, 'operator-', [v], [None], e.line)
        if e.op == '~' and isinstance(v, VInt):
            kind = v.kind if WIDTH[v.kind] >= 32 else 'i32'
            return VInt(RANGES[kind][1] - v.t if RANGES[kind][0] >= 0 else -v.t - 1, kind)
        raise Unsupported('unary ' + e.op)

    def binary(self, st, e):
        op = e.op
        if op in ('&&', '||'):
            a = self.tobool(st, self.eval(st, e.a))
            rhs = []

            def right(s):
                rhs.append(self.tobool(s, self.eval(s, e.b)))
                return VBool(rhs[-1])
            if op == '&&':
                r = self.fork(st, a, right, lambda s: VBool(BoolVal(False)))
            else:
                r = self.fork(st, a, lambda s: VBool(BoolVal(True)), right)
            if len(rhs) == 1:       # the same truth value, with its structure kept
                return VBool(z3.simplify(And(a, rhs[0]) if op == '&&' else Or(a, rhs[0])) if not has_quant(rhs[0]) and not has_quant(a)
                             else (And(a, rhs[0]) if op == '&&' else Or(a, rhs[0])))
            return r
        a, b = self.eval(st, e.a), self.eval(st, e.b)
        return self.binop(st, op, a, b, e.line)

    def iter_op(self, st, op, a, b, line):
        if isinstance(a, VIter) and isinstance(b, VIter):
            if a.shape() != b.shape():
                raise Unsupported('iterators into different arrays')
            if op == '-':
                return VInt(z3.simplify(a.t - b.t), 'i64')
            x, y = a.t, b.t
            if op in ('==', '!=', '<', '<=', '>', '>='):
                return VBool({'==': x == y, '!=': x != y, '<': x < y, '<=': x <= y, '>': x > y, '>=': x >= y}[op])
        if isinstance(b, VIter) and op == '+':
            a, b = b, a
        if isinstance(a, VIter) and isinstance(b, VInt) and op in ('+', '-'):
            return self.iter_add(st, a, b.t if op == '+' else -b.t, line)
        raise Unsupported('iterator operation')

    def binop(self, st, op, a, b, line):
        g = self.alg
        if isinstance(a, VMisc) and a.what == 'cout' and op == '<<':
            return self.output(st, a, b)
        if isinstance(a, VIter) or isinstance(b, VIter):
            return self.iter_op(st, op, a, b, line)
        if isinstance(b, VMapIt) and isinstance(a, VMisc):
            a, b = b, a
        if isinstance(a, VMapIt):
            if op in ('==', '!=') and isinstance(b, VMisc) and b.what == 'mapend' and b.v == a.ref.root:
                p = Select(self.load(st, a.ref).pres, a.key)
                return VBool(Not(p) if op == '==' else p)
            raise Unsupported('map iterator comparison')
        if isinstance(a, (VMat, VRow)) or isinstance(b, (VMat, VRow)):
            if op in ('==', '!=') and type(a) is type(b):
                return self.array_eq(st, op, a, b)
            if isinstance(a, VRow) or isinstance(b, VRow):
                raise Unsupported('operator on a row')
            return self.callfn(st, 'operator' + op, [a, b], [None, None], line)
        if isinstance(a, VBool):
            a = VInt(If(a.t, IntVal(1), IntVal(0)), 'i32')
        if isinstance(b, VBool):
            b = VInt(If(b.t, IntVal(1), IntVal(0)), 'i32')
        cmp = op in ('==', '!=', '<', '<=', '>', '>=')
        if isinstance(a, VInt) and isinstance(b, VInt):
            if cmp:
                kind = self.common(a.kind, b.kind)
                x, y = self.icast(st, a.t, kind), self.icast(st, b.t, kind)
                return VBool({'==': x == y, '!=': x != y, '<': x < y, '<=': x <= y, '>': x > y, '>=': x >= y}[op])
            return self.arith_int(st, op, a, b, line)
        if isinstance(a, VFlt) and isinstance(b, VFlt) or \
                (isinstance(a, (VFlt, VInt)) and isinstance(b, (VFlt, VInt))):
            # exact small arithmetic on doubles that hold integers
            def iv(v):
                if isinstance(v, VInt):
                    return v.t
                if v.exact is not None:
                    return v.exact
                from fractions import Fraction
                fr = Fraction(v.lit)
                return IntVal(fr.numerator) if fr.denominator == 1 else None
            x, y = iv(a), iv(b)
            if x is None or y is None or op not in ('+', '-', '==', '!=', '<', '<=', '>', '>='):
                raise Unsupported('floating arithmetic on non-elements')
            if cmp:
                return VBool({'==': x == y, '!=': x != y, '<': x < y, '<=': x <= y, '>': x > y, '>=': x >= y}[op])
            return VFlt(exact=x + y if op == '+' else x - y)
        if isinstance(a, (VT, VInt, VFlt)) and isinstance(b, (VT, VInt, VFlt)):
            # an element combined with an unsigned machine integer converts the element to unsigned
            for p, q in ((a, b), (b, a)):
                if isinstance(p, VT) and isinstance(q, VInt) and q.kind in ('u64', 'u32') and not cmp:
                    if op == '/' and p is a or op in ('+', '-', '*', '%', '/'):
                        if not z3.is_int_value(q.t) or op == '/':
                            if op in ('/', '%'):
                                self.oblige(st, g.le(g.lit(0), p.t), 'sign', line,
                                            'element divided as unsigned is not negative')
            x, y = self.toT(st, a), self.toT(st, b)
            if cmp:
                return VBool({'==': lambda: g.eq(x, y), '!=': lambda: Not(g.eq(x, y)), '<': lambda: g.lt(x, y),
                              '<=': lambda: g.le(x, y), '>': lambda: g.lt(y, x), '>=': lambda: g.le(y, x)}[op]())
            if op == '/':
                self.div_ob(st, y, line)
                return VT(g.div(x, y), True)
            if op in ('+', '-', '*'):
                return VT({'+': g.add, '-': g.sub, '*': g.mul}[op](x, y), True)
            raise Unsupported('element operator ' + op)
        raise Unsupported('operator %s on %s, %s' % (op, type(a).__name__, type(b).__name__))

    def div_ob(self, st, y, line):
        """element division: the divisor is not zero"""
        g = self.alg
        nz = Not(g.eq(y, g.lit(0)))
        self.oblige(st, nz, 'nonzero-divisor', line, 'element divisor is non-zero')
        st.add(nz)

    def array_eq(self, st, op, a, b):
        g = self.alg
        r = self.fresh('aeq', z3.BoolSort())
        if isinstance(a, VMat):
            wx, wy = self.fresh('wx', z3.IntSort()), self.fresh('wy', z3.IntSort())
            x, y = z3.Ints('x y')
            st.add(Implies(r, ForAll([x, y], Implies(And(x >= 0, x < a.r, y >= 0, y < a.c),
                                                     g.eq(sel2(a.t, x, y), sel2(b.t, x, y))),
                                     patterns=[sel2(a.t, x, y), sel2(b.t, x, y)])))
            st.add(Or(r, And(wx >= 0, wx < a.r, wy >= 0, wy < a.c, Not(g.eq(sel2(a.t, wx, wy), sel2(b.t, wx, wy))))))
            return VBool(r if op == '==' else Not(r))
        w = self.fresh('w', z3.IntSort())
        x = Int('x')
        st.add(Implies(r, ForAll([x], Implies(And(x >= 0, x < a.n), g.eq(Select(a.t, x), Select(b.t, x))),
                                 patterns=[Select(a.t, x), Select(b.t, x)])))
        st.add(Or(r, And(w >= 0, w < a.n, Not(g.eq(Select(a.t, w), Select(b.t, w))))))
        return VBool(r if op == '==' else Not(r))

    def output(self, st, s, b):
        o = st.env.get('$out')
        if o is None:
            raise Unsupported('stream output')
        a = self.alg
        if isinstance(b, VT):
            # a promoted value is written with another type's operator<<: some other text
            t = a.push(o.t, a.item_num(self.fresh('promoted', a.S) if b.prom else b.t))
        elif isinstance(b, VMisc) and b.what == 'endl':
            t = a.push(o.t, a.item_chr(IntVal(10)))
        elif isinstance(b, VMisc) and b.what == 'str':
            txt = b.v
            if len(txt) >= 2 and txt[0] == '"' and txt[-1] == '"':
                txt = txt[1:-1].encode().decode('unicode_escape')
            t = o.t
            for ch in txt:
                t = a.push(t, a.item_chr(IntVal(ord(ch))))
        else:
            raise Unsupported('stream output of ' + type(b).__name__)
        st.env['$out'] = VOut(t)
        return s

    def assign(self, st, e):
        r = None
        if e.op == '' and e.r.k == 'init' and e.r.ty is None:
            r = self.lval(st, e.l)
            v = self.initlist(st, e.r, self.tyof(self.load(st, r)))
        else:
            v = self.eval(st, e.r)
            try:
                r = self.lval(st, e.l)
            except NotLvalue:
                raise Unsupported('assignment target')
            if e.op:
                cur = self.load(st, r)
                v = self.binop(st, e.op, cur, v, e.line)
        cur = self.load(st, r)
        if not isinstance(cur, (VFlt, VMisc)):
            v = self.convert(st, v, self.tyof(cur), e.line)
        self.store(st, r, v)
        return v

    # ------------------------------------------------------------ forks and merges
    def fork(self, st, c, fa, fb, unify=False):
        c = z3.simplify(c) if not has_quant(c) else c
        if z3.is_true(c):
            return fa(st)
        if z3.is_false(c):
            return fb(st)
        base = len(st.facts)
        outs = []
        for cond, fn in ((c, fa), (Not(c), fb)):
            s = st.copy()
            s.add(cond, True)
            if self.quick_false(s):
                continue
            try:
                outs.append((s, fn(s)))
            except Diverge:
                pass
        if not outs:
            raise Diverge()
        if unify and len(outs) == 2:
            a, b = outs[0][1], outs[1][1]
            if type(a) is not type(b):
                if isinstance(a, VT) or isinstance(b, VT):
                    outs = [(s, VT(self.toT(s, v))) for s, v in outs]
                elif isinstance(a, (VInt, VBool)) and isinstance(b, (VInt, VBool)):
                    outs = [(s, v if isinstance(v, VInt) else self.convert(s, v, ('int', 'i32'))) for s, v in outs]
                elif isinstance(a, (VFlt, VInt)) and isinstance(b, (VFlt, VInt)):
                    raise Unsupported('conditional floating value')
            if isinstance(outs[0][1], VInt) and isinstance(outs[1][1], VInt):
                kd = self.common(outs[0][1].kind, outs[1][1].kind)
                outs = [(s, self.convert(s, v, ('int', kd))) for s, v in outs]
        return self.merge(st, base, outs)

    def quick_false(self, st):
        g = st.facts[-1][1]
        if not pure_int(g):
            return False
        return self.quick(st, BoolVal(False))

    def merge(self, st, base, outs):
        """outs: list of (state, value or None); st is overwritten with the merged state"""
        if len(outs) == 1:
            s, v = outs[0]
            st.env, st.facts = s.env, s.facts
            return v
        guards = []
        for s, _ in outs:
            gs = [f for g, f in s.facts[base:] if g]
            guards.append(And(*gs) if len(gs) != 1 else gs[0])
        facts = st.facts[:base]
        facts.append((False, Or(*guards)))
        for (s, _), g in zip(outs, guards):
            for isg, f in s.facts[base:]:
                if not isg:
                    facts.append((False, Implies(g, f)))
        env = {}
        keys = set(outs[0][0].env)
        for s, _ in outs[1:]:
            keys &= set(s.env)
        for k in keys:
            vs = [s.env[k] for s, _ in outs]
            env[k] = self.mergev(vs, guards, facts, True)
            if env[k] is None:
                raise Unsupported('cannot merge variable states')
        st.env, st.facts = env, facts
        vals = [v for _, v in outs]
        if vals[0] is None:
            return None
        m = self.mergev(vals, guards, st.facts)
        if m is None:
            raise Unsupported('cannot merge values')
        return m

    def mergev(self, vs, guards, facts, name=False):
        v0 = vs[0]
        if all(v is v0 for v in vs):
            return v0
        if any(v is None for v in vs):
            return None
        if any(type(v) is not type(v0) for v in vs):
            return None
        if any(v.shape() != v0.shape() for v in vs):
            return None
        cols = [v.terms() for v in vs]
        res = []
        for i in range(len(cols[0])):
            ts = [c[i] for c in cols]
            if all(t.eq(ts[0]) for t in ts):
                res.append(ts[0])
            elif (ts[0].sort().kind() == z3.Z3_ARRAY_SORT):
                f = self.fresh('mrg', ts[0].sort())
                for g, t in zip(guards, ts):
                    facts.append((False, Implies(g, f == t)))
                res.append(f)
            else:
                t = ts[-1]
                for g, x in list(zip(guards, ts))[-2::-1]:
                    t = If(g, x, t)
                m = self.named(facts, t, 'mrg') if name and t.sort().kind() != z3.Z3_BOOL_SORT else t
                if m.sort() == z3.IntSort() and z3.is_const(m) and all(pure_int(x) for x in ts) and not all(pure_int(g) for g in guards):
                    # what is left of the definition once only the integer facts are looked at
                    facts.append((False, Or(*[m == x for x in ts])))
                res.append(m)
        return v0.rebuild(res)

    # ------------------------------------------------------------ calls
    def call(self, st, e):
        f = e.f
        if f.k == 'fref':
            b = self.base(f)
            if b in ('cout', 'endl'):
                raise Unsupported('call of stream')
            isstd = f.text.replace(' ', '').startswith('std::')
            if (isstd or not self.prog.has(b)) and b in BUILTIN:
                return BUILTIN[b](self, st, e)
            if isstd:
                raise Unsupported('std::' + b)
            if self.prog.has(b):
                vals, refs = [], []
                for a in e.args:
                    try:
                        r = self.lval(st, a)
                        refs.append(r)
                        vals.append(self.load(st, r))
                    except NotLvalue:
                        refs.append(None)
                        vals.append(self.eval(st, a) if not (a.k == 'init' and a.ty is None) else VMisc('braces', a))
                return self.callfn(st, b, vals, refs, e.line, f.text)
            if b in BUILTIN:
                return BUILTIN[b](self, st, e)
            raise Unsupported('call of ' + b)
        if f.k in ('var', 'lambda'):
            lam = self.eval(st, f)
            if not isinstance(lam, VLam):
                raise Unsupported('call of a variable')
            return self.inline_lambda(st, lam, e)
        raise Unsupported('call')

    def inline_lambda(self, st, lam, e):
        nd = lam.node
        if len(nd.params) != len(e.args):
            raise Unsupported('lambda arity')
        if nd in self.inline_stack:
            raise Unsupported('recursive lambda')
        binds = {}
        for (pid, pname, pty, pc, pref, _), a in zip(nd.params, e.args):
            if pref and not (pref == '&&'):
                try:
                    binds[pid] = self.lval(st, a)
                    continue
                except NotLvalue:
                    pass
            v = self.eval(st, a)
            ty = self.rty(st, pty)
            binds[pid] = self.convert(st, v, ty, e.line)
        self.inline_stack.append(nd)
        try:
            s = st.copy()
            over = {}
            if lam.snap is not None:
                for kk, vv in lam.snap.items():
                    if kk in s.env and not isinstance(vv, VRef):
                        over[kk] = s.env[kk]
                        s.env[kk] = vv
            s.env.update(binds)
            base = len(st.facts)
            outs = self.exec(s, nd.body)
            res = []
            for o in outs:
                if o.kind == 'throw':
                    self.pending.append(o)
                elif o.kind in ('return', 'next'):
                    for kk, vv in over.items():
                        o.st.env[kk] = vv
                    v = o.v
                    if v is not None and nd.rt is not None:
                        v = self.convert(o.st, v, self.rty(st, nd.rt))
                    res.append((o.st, v))
                else:
                    raise Unsupported('control flow leaves lambda')
            if not res:
                raise Diverge()
            return self.merge(st, base, res)
        finally:
            self.inline_stack.pop()

    def kind_of(self, v):
        if isinstance(v, VMat):
            return 'mat'
        if isinstance(v, VT):
            return 'T'
        if isinstance(v, VInt):
            return 'int'
        if isinstance(v, VFlt):
            return 'flt'
        if isinstance(v, VRow):
            return 'row'
        if isinstance(v, VBool):
            return 'bool'
        if isinstance(v, VPair):
            return 'pair'
        if isinstance(v, VMap):
            return 'map'
        if isinstance(v, VLam):
            return 'lam'
        return 'misc'

    def targs(self, st, text):
        """explicit template arguments in call text, resolved"""
        if not text or '<' not in text or text.strip().startswith('operator'):
            return []
        inner = text[text.find('<') + 1:text.rfind('>')]
        p = TypeParser(_tokens(inner + ' >'))
        out = []
        while True:
            out.append(p.targ())
            if p.peek(','):
                p.eat(',')
                continue
            break
        res = []
        for a in out:
            if a[0] == 'name' and a[1] in st.tctx:
                res.append(st.tctx[a[1]])
            elif a[0] in ('num', 'op'):
                res.append(('dim', self.dim(st, a)))
            elif a[0] == 'name' and ('$name:' + a[1]) in st.tctx:
                res.append(('dim', self.dim(st, a)))
            else:
                res.append(('ty', self.rty(st, a)))
        return res

    def callfn(self, st, name, vals, refs, line, text=''):
        targs = self.targs(st, text)
        sp = self.prog.spec_for_call(self, name, vals, targs)
        self.callees.add(name)
        if sp is not None:
            spec, bind = sp
            return self.call_contract(st, spec, bind, vals, refs, line)
        return self.call_inline(st, name, vals, refs, line, targs)

    def call_contract(self, st, spec, bind, vals, refs, line):
        c = Ctx(self, st, bind)
        vals = list(vals)
        for idx, p in enumerate(spec.params):
            if idx >= len(vals):
                v = VT(spec.default(self.alg, idx))
                vals.append(v)
            v = vals[idx]
            if p[1] == 'T':
                v = VT(self.toT(st, v))
            elif p[1] == 'idx':
                v = self.convert(st, v, ('int', 'u64'))
            elif p[1] == 'P':
                if not isinstance(v, VInt):
                    raise Unsupported('exponent argument')
            elif p[1] == 'mat' and not isinstance(v, VMat):
                raise Unsupported('matrix argument')
            elif p[1] == 'pint':
                pass
            c.args[p[0]] = v
        for v in c.args.values():
            if isinstance(v, VInt):
                st.add(self.alg.tick(v.t))
        for label, g in spec.requires(c):
            self.oblige(st, g, 'precondition', line, 'call of %s: %s' % (spec.name, label))
            st.add(g)
        self.callee_specs.add(spec)
        if spec is self.spec:
            self.recursive_call(st, c, line)
        th = spec.throws(c)
        if th is not None:
            th_s = z3.simplify(th) if not has_quant(th) else th
            if not z3.is_false(th_s):
                s2 = st.copy()
                s2.add(th, True)
                self.pending.append(Outcome('throw', s2, 'std::overflow_error', line))
                if z3.is_true(th_s):
                    raise Diverge()
                st.add(Not(th), True)
        res = spec.result(c, self, st)
        for f in spec.post_facts(c, res, self, st):
            st.add(f)
        for idx, p in enumerate(spec.params):
            if len(p) > 2 and p[-1] == 'inout':
                if refs[idx] is None:
                    raise Unsupported('inout argument')
                self.store(st, refs[idx], c.finals[p[0]])
        if spec.outputs:
            o = st.env.get('$out')
            if o is None:
                raise Unsupported('printing callee')
            st.env['$out'] = VOut(spec.out_after(c, o.t))
        return res

    def recursive_call(self, st, c, line):
        m1 = self.spec.measure(c)
        m0 = self.spec.measure(self.ctx0)
        if m1 is None:
            self.oblige(st, BoolVal(False), 'termination', line, 'recursive call decreases the measure')
            return
        self.oblige(st, And(m1 >= 0, m1 < m0), 'termination', line, 'recursive call decreases the measure')

    def call_inline(self, st, name, vals, refs, line, targs):
        cands = [f for f in self.prog.by_name(name)]
        last = None
        for f in cands:
            if f.error:
                last = f.error
                continue
            tctx = self.deduce(st, f, vals, targs)
            if tctx is None:
                continue
            if f in self.inline_stack or len(self.inline_stack) > 12:
                raise Unsupported('recursive function %s without contract' % name)
            return self.inline_fn(st, f, tctx, vals, refs, line)
        raise Unsupported('no usable overload of %s%s' % (name, '' if not last else ' (%s)' % last))

    def deduce(self, st, f, vals, targs):
        tctx = {}
        tps = f.tparams
        if len(targs) > len(tps):
            return None
        for tp, a in zip(tps, targs):
            if (tp[0] == 'type') != (a[0] == 'ty'):
                return None
            tctx[tp[1]] = a
        nreq = sum(1 for p in f.params if p[5] is None)
        if not (nreq <= len(vals) <= len(f.params)):
            return None

        def unify(pt, v):
            k = pt[0]
            if k == 'name':
                if pt[1] in tctx:
                    return True
                if any(tp[1] == pt[1] and tp[0] == 'type' for tp in tps):
                    tctx[pt[1]] = ('ty', self.tyof(v)) if not isinstance(v, (VLam, VMisc)) else ('ty', ('auto',))
                    return True
                return True
            if k == 'mat':
                return isinstance(v, VMat) and udim(pt[2], v.r) and udim(pt[3], v.c) and uelem(pt[1])
            if k == 'row':
                return isinstance(v, VRow) and udim(pt[2], v.n) and uelem(pt[1])
            if k == 'int':
                return isinstance(v, (VInt, VBool, VFlt))
            if k == 'bool':
                return isinstance(v, (VBool, VInt))
            if k in ('float', 'double'):
                return isinstance(v, (VFlt, VT, VInt))
            if k == 'pair':
                return isinstance(v, VPair) and unify(pt[1], v.a) and unify(pt[2], v.b)
            if k == 'map':
                return isinstance(v, VMap) and uelem(pt[1])
            return k == 'auto'

        def uelem(et):
            if et[0] == 'name' and et[1] not in tctx:
                tctx[et[1]] = ('ty', ('T',))
            return True

        def udim(d, actual):
            if d[0] == 'num':
                a = z3.simplify(actual)
                return z3.is_int_value(a) and a.as_long() == d[1]
            if d[0] == 'name':
                if d[1] in tctx:
                    b = tctx[d[1]]
                    return b[0] == 'dim' and (z3.is_true(z3.simplify(b[1] == actual)) or self.quick(st, b[1] == actual))
                tctx[d[1]] = ('dim', actual)
                return True
            try:
                dd = self.dim(St({}, [], tctx), d)
                return z3.is_true(z3.simplify(dd == actual)) or self.quick(st, dd == actual)
            except Unsupported:
                return False
        for p, v in zip(f.params, vals):
            if not unify(p[2], v):
                return None
        for tp in tps:
            if tp[1] not in tctx and tp[1] is not None:
                if tp[2] is None:
                    return None
                s = St({}, [], tctx)
                a = TypeParser(_tokens(tp[2] + ' >')).targ()
                try:
                    if tp[0] == 'val':
                        tctx[tp[1]] = ('dim', self.dim(s, a))
                    else:
                        tctx[tp[1]] = ('ty', self.rty(s, a))
                except Unsupported:
                    return None
        return tctx

    def inline_fn(self, st, f, tctx, vals, refs, line):
        self.inline_stack.append(f)
        try:
            s = st.copy()
            s.tctx = tctx
            for i, p in enumerate(f.params):
                self.vname[p[0]] = p[1] or 'arg'
                if i < len(vals):
                    v = vals[i]
                    if p[4] == '&' and not p[3]:
                        if refs[i] is None:
                            raise Unsupported('reference to temporary')
                        s.env[p[0]] = refs[i]
                    elif p[4] and refs[i] is not None:
                        s.env[p[0]] = refs[i]
                    else:
                        s.env[p[0]] = self.convert(s, v, self.rty(s, p[2]), line)
                else:
                    s.env[p[0]] = self.convert(s, self.eval(s, p[5]), self.rty(s, p[2]), line)
            base = len(st.facts)
            outs = self.exec(s, f.body)
            res = []
            for o in outs:
                if o.kind == 'throw':
                    o.st.tctx = st.tctx
                    self.pending.append(o)
                elif o.kind in ('return', 'next'):
                    v = o.v
                    if v is not None:
                        v = self.convert(o.st, v, self.rty(s, f.ret), line)
                    o.st.tctx = st.tctx
                    res.append((o.st, v))
                else:
                    raise Unsupported('control flow')
            if not res:
                raise Diverge()
            return self.merge(st, base, res)
        finally:
            self.inline_stack.pop()

    # ------------------------------------------------------------ methods
    def method(self, st, e):
        nm = e.name
        if nm in ('at', 'front', 'back'):
            return self.load(st, self.lval(st, e))
        try:
            r = self.lval(st, e.o)
            v = self.load(st, r)
        except NotLvalue:
            r, v = None, self.eval(st, e.o)
        if isinstance(v, (VMat, VRow)):
            n = v.r if isinstance(v, VMat) else v.n
            if nm == 'size' or nm == 'max_size':
                return VInt(n, 'u64')
            if nm == 'empty':
                return VBool(n == 0)
            if nm == 'fill' and r is not None:
                a = self.eval(st, e.args[0]) if e.args[0].k != 'init' else None
                if isinstance(v, VRow):
                    if a is None:
                        a = self.initlist(st, e.args[0], ('T',))
                    self.store(st, r, VRow(K(z3.IntSort(), self.toT(st, a)), v.n))
                else:
                    if a is None:
                        a = self.initlist(st, e.args[0], ('row', ('T',), ('dim', v.c)))
                    if not isinstance(a, VRow):
                        raise Unsupported('fill argument')
                    self.store(st, r, VMat(K(z3.IntSort(), a.t), v.r, v.c))
                return VMisc('void')
            if nm in ('begin', 'end', 'cbegin', 'cend') and r is not None:
                return VIter(r, n if nm.endswith('end') else IntVal(0))
            if nm == 'data' and r is not None and isinstance(v, VRow):
                return VIter(r, IntVal(0))
        if isinstance(v, VMap):
            if nm == 'count' and len(e.args) == 1:
                key = self.toT(st, self.eval(st, e.args[0]))
                return VInt(If(Select(v.pres, key), IntVal(1), IntVal(0)), 'u64')
            if nm in ('end', 'cend') and r is not None and not r.path:
                return VMisc('mapend', r.root)
            if nm == 'empty':
                z = z3.Const('z', self.alg.S)
                return VBool(ForAll([z], Not(Select(v.pres, z)), patterns=[Select(v.pres, z)]))
            if nm == 'find' and len(e.args) == 1 and r is not None and not r.path:
                return VMapIt(r, self.named(st.facts, self.toT(st, self.eval(st, e.args[0]))))
            if nm in ('insert', 'emplace', 'insert_or_assign') and r is not None:
                if nm != 'insert' and len(e.args) == 2:
                    kv = [self.eval(st, x) for x in e.args]
                elif len(e.args) == 1 and e.args[0].k == 'init' and e.args[0].ty is None and len(e.args[0].e) == 2:
                    kv = [self.eval(st, x) for x in e.args[0].e]
                elif len(e.args) == 1 and e.args[0].k != 'init':
                    p = self.eval(st, e.args[0])
                    if not isinstance(p, VPair):
                        raise Unsupported('map insertion')
                    kv = [p.a, p.b]
                else:
                    raise Unsupported('map insertion')
                key = self.named(st.facts, self.toT(st, kv[0]))
                new = self.convert(st, kv[1], ('int', 'u64'), e.line).t
                v = self.load(st, r)
                if nm != 'insert_or_assign':
                    new = self.named(st.facts, If(Select(v.pres, key), Select(v.cnt, key), new))
                self.allocs.append('std::map insertion')
                self.store(st, r, VMap(Store(v.pres, key, BoolVal(True)), Store(v.cnt, key, new)))
                return VMisc('insertion')
            if nm == 'clear' and r is not None:
                self.store(st, r, VMap(K(self.alg.S, BoolVal(False)), K(self.alg.S, IntVal(0))))
                return VMisc('void')
        raise Unsupported('method ' + nm)

    # ------------------------------------------------------------ statements
    def exec(self, st, s):
        """-> outcomes; st may be reused in one of them"""
        if time.time() > self.deadline:
            raise Budget('time budget')
        k = s.k
        if k == 'block':
            cur = [st]
            outs = []
            scope_t = st.tctx
            keys0 = set(st.env)
            for x in s.body:
                nxt = []
                for c in cur:
                    for o in self.exec(c, x):
                        if o.kind == 'next':
                            nxt.append(o.st)
                        else:
                            outs.append(o)
                cur = nxt
                if not cur:
                    break
                if len(cur) + len(outs) > 64:
                    raise Budget('too many paths')
            if not getattr(s, 'noscope', False):
                for c in cur:
                    self.leave(c, keys0, scope_t)
            return outs + [Outcome('next', c) for c in cur]
        save, self.pending = self.pending, []
        try:
            try:
                outs = self.exec1(st, s)
            except Diverge:
                outs = []
            return outs + self.pending
        finally:
            self.pending = save

    def leave(self, st, keys, tctx):
        """drop the variables of a finished scope"""
        for k in [q for q in st.env if q not in keys]:
            del st.env[k]
        st.tctx = tctx

    def exec1(self, st, s):
        k = s.k
        if k == 'decl':
            self.decl(st, s)
            return [Outcome('next', st)]
        if k == 'alias':
            st.tctx = dict(st.tctx)
            st.tctx[s.name] = ('ty', self.rty(st, s.ty))
            return [Outcome('next', st)]
        if k == 'expr':
            self.eval(st, s.e)
            return [Outcome('next', st)]
        if k == 'return':
            v = None
            if s.e is not None:
                if s.e.k == 'init' and s.e.ty is None:
                    ty = self.rettype(st)
                    v = self.initlist(st, s.e, ty)
                else:
                    v = self.eval(st, s.e)
            return [Outcome('return', st, v, s.line)]
        if k in ('break', 'continue'):
            return [Outcome(k, st)]
        if k == 'if':
            return self.exec_if(st, s)
        if k == 'for':
            return self.loop(st, s)
        if k == 'do':
            # body once, then while
            w = N('for', s.line, init=None, c=s.c, inc=None, body=s.body, uid=s.uid)
            res = []
            for o in self.exec(st, s.body):
                if o.kind in ('next', 'continue'):
                    res += self.exec(o.st, w)
                elif o.kind == 'break':
                    res.append(Outcome('next', o.st))
                else:
                    res.append(o)
            return res
        if k == 'rangefor':
            return self.rangefor(st, s)
        raise Unsupported('statement ' + k)

    def rettype(self, st):
        if self.inline_stack:
            f = self.inline_stack[-1]
            if isinstance(f, N):
                if f.rt is None:
                    raise Unsupported('braced return')
                return self.rty(st, f.rt)
            return self.rty(st, f.ret)
        return self.rty(st, self.func.ret)

    def decl(self, st, d):
        self.vname[d.id] = d.name
        if d.init is not None and d.init.k == 'lambda':
            st.env[d.id] = self.eval(st, d.init)
            return
        if d.ref:
            if d.init is None:
                raise Unsupported('reference')
            init = d.init
            if init.k == 'init' and init.ty is None and len(init.e) == 1:
                init = init.e[0]
            try:
                r = self.lval(st, init)
            except NotLvalue:
                v = self.eval(st, init)
                ty = self.rty(st, d.ty)
                r = self.temp(st, self.convert(st, v, ty) if ty[0] != 'auto' else v)
            else:
                ty = self.rty(st, d.ty)
                cur = self.load(st, r)
                if ty[0] not in ('auto',) and self.tyof(cur)[0] != ty[0]:
                    r = self.temp(st, self.convert(st, cur, ty))
            st.env[d.id] = r
            return
        ty = self.rty(st, d.ty)
        if d.init is None:
            if ty[0] == 'map':
                v = self.zero_of(st, ty)
            else:
                v = self.fresh_of(st, ty, d.name)       # indeterminate value
        elif d.init.k == 'init' and d.init.ty is None:
            v = self.initlist(st, d.init, ty)
            if isinstance(v, VMisc) and v.what == 'braces':
                raise Unsupported('auto from braces')
        else:
            v = self.eval(st, d.init)
        v = self.convert(st, v, ty, d.line)
        if isinstance(v, VInt):
            st.add(self.alg.tick(v.t))
            st.tctx = dict(st.tctx)
            st.tctx['$name:' + d.name] = d.id
        st.env[d.id] = v

    def exec_if(self, st, s):
        c = self.tobool(st, self.eval(st, s.c))
        c = z3.simplify(c) if not has_quant(c) else c
        branches = []
        if not z3.is_false(c):
            branches.append((c, s.a))
        if not z3.is_true(c):
            branches.append((Not(c), s.b))
        base = len(st.facts)
        nexts, others = [], []
        tctx0 = st.tctx
        keys = set(st.env)
        for cond, body in branches:
            b = st.copy()
            if not (z3.is_true(cond)):
                b.add(cond, True)
                if len(branches) == 2 and self.quick_false(b):
                    continue
            for o in (self.exec(b, body) if body is not None else [Outcome('next', b)]):
                if o.kind == 'next':
                    o.st.tctx = tctx0
                    nexts.append(o.st)
                else:
                    others.append(o)
        if len(nexts) > 1:
            # drop block-local variables, then merge when only scalars differ
            for n in nexts:
                for kk in [q for q in n.env if q not in keys]:
                    del n.env[kk]
            if self.mergeable(nexts, st) or len(nexts) > 6:
                m = st.copy()
                try:
                    self.merge(m, base, [(n, None) for n in nexts])
                    nexts = [m]
                except Unsupported:
                    pass
        return others + [Outcome('next', n) for n in nexts]

    def mergeable(self, sts, st0):
        for k in sts[0].env:
            vs = [s.env.get(k) for s in sts]
            if all(v is vs[0] for v in vs):
                continue
            if any(v is None or v.shape() != vs[0].shape() for v in vs):
                return False
            for ts in zip(*[v.terms() for v in vs]):
                if not all(t.eq(ts[0]) for t in ts) and (ts[0].sort().kind() == z3.Z3_ARRAY_SORT):
                    return False
        return True

    # ------------------------------------------------------------ loops
    def assigned(self, st, node, acc, seen):
        """root ids that may be assigned inside node"""
        if isinstance(node, (list, tuple)):
            for x in node:
                self.assigned(st, x, acc, seen)
            return
        if not isinstance(node, N):
            return
        if id(node) in seen:
            return
        seen.add(id(node))
        k = node.k
        if k in ('assign',):
            self.root_of(st, node.l, acc)
        elif k == 'incdec':
            self.root_of(st, node.e, acc)
        elif k == 'method':
            if node.name in ('fill', 'swap', 'clear', 'begin', 'end', 'push_back', 'insert', 'emplace', 'assign', 'rbegin',
                             'rend', 'data', 'find', 'insert_or_assign', 'at', 'erase'):
                self.root_of(st, node.o, acc)
                if node.name == 'swap':
                    for a in node.args:
                        self.root_of(st, a, acc)
        elif k == 'sub':
            self.map_roots(st, node, acc)
        elif k == 'var' and isinstance(st.env.get(node.id), VLam):
            self.assigned(st, st.env[node.id].node.body, acc, seen)
        elif k == 'call':
            f = node.f
            if f.k == 'fref':
                b = self.base(f)
                if b in ('begin', 'end') or b in ALGO and not self.prog.has(b):
                    for a in node.args:
                        if a.k != 'lambda':
                            self.root_of(st, a, acc)
                fs = self.prog.by_name(b) if self.prog.has(b) else []
                if b in ('swap', 'iter_swap') and not fs or f.text.replace(' ', '').startswith('std::swap'):
                    for a in node.args:
                        self.root_of(st, a, acc)
                for g in fs:
                    for p, a in zip(g.params, node.args):
                        if p[4] and not p[3]:
                            self.root_of(st, a, acc)
            elif f.k == 'var':
                v = st.env.get(f.id)
                if isinstance(v, VLam):
                    self.assigned(st, v.node.body, acc, seen)
                    for p, a in zip(v.node.params, node.args):
                        if p[4] and not p[3]:
                            self.root_of(st, a, acc)
        elif k == 'rangefor':
            if node.var[4] and not node.var[3]:
                sub = set()
                self.assigned(st, node.body, sub, seen)
                if node.var[0] in sub:
                    self.root_of(st, node.rng, acc)
        elif k == 'decl' and node.ref and not node.const and node.init is not None:
            # alias: conservatively treat the referent as assigned
            init = node.init.e[0] if node.init.k == 'init' and len(node.init.e) == 1 else node.init
            if init.k in ('var', 'sub', 'member'):
                self.root_of(st, init, acc, alias=True)
        for v in node.__dict__.values():
            if isinstance(v, (N, list, tuple)):
                self.assigned(st, v, acc, seen)

    def map_roots(self, st, node, acc):
        b = node.b
        if b.k == 'var' and isinstance(st.env.get(b.id), VMap):
            acc.add(b.id)

    def root_of(self, st, e, acc, alias=False):
        through = False         # only what an iterator points at is written, not the iterator
        while True:
            if e.k == 'var':
                v = st.env.get(e.id)
                if isinstance(v, VRef):
                    v = self.resolve(st, v)
                    acc.add(v.root)
                    v = st.env.get(v.root)
                elif not (through and isinstance(v, VIter)):
                    acc.add(e.id)
                if isinstance(v, VIter):
                    acc.add(self.resolve(st, v.ref).root)
                return
            if e.k == 'sub':
                e, through = e.b, True
            elif e.k == 'member' or e.k == 'method':
                e = e.o
            elif e.k == 'deref':
                e, through = e.e, True
            elif e.k == 'bin':
                self.root_of(st, e.a, acc)
                e = e.b
            elif e.k == 'assign':
                e, through = e.l, False
            elif e.k == 'incdec':
                e, through = e.e, False
            elif e.k == 'call' and e.args:
                for a in e.args:
                    self.root_of(st, a, acc)
                return
            else:
                return

    def mods(self, st, node):
        acc = set()
        self.assigned(st, node, acc, set())
        if '$out' in st.env and self.spec is not None and self.spec.outputs:
            acc.add('$out')
        if self.func is not None:
            acc -= {p[0] for p in self.func.params if p[3]}
        m = [k for k in st.env if k in acc and not isinstance(st.env[k], (VRef, VLam, VMisc, VFlt))]
        for k in acc:
            if isinstance(st.env.get(k), (VFlt, VMisc)):
                raise Unsupported('loop changes a non-element floating value')
            if isinstance(st.env.get(k), VRef):
                raise Unsupported('loop reseats a reference')
        return m

    def map_loop(self, st, s):
        """for (auto it = m.begin(); it != m.end(); ++it) over a std::map, as the range-for it is"""
        i = s.init
        while i is not None and i.k == 'block' and len(i.body) == 1:
            i = i.body[0]
        if i is None or i.k != 'decl' or i.init is None or i.init.k != 'method' or i.init.name not in ('begin', 'cbegin'):
            return None
        o = i.init.o
        if o.k != 'var':
            return None
        try:
            if not isinstance(self.load(st, self.lval(st, o)), VMap):
                return None
        except (NotLvalue, Unsupported):
            return None
        isit = lambda e: e.k == 'var' and e.id == i.id
        isend = lambda e: e.k == 'method' and e.name in ('end', 'cend') and e.o.k == 'var' and e.o.id == o.id
        c = s.c
        if c is None or c.k != 'bin' or c.op != '!=' or not (isit(c.a) and isend(c.b) or isit(c.b) and isend(c.a)):
            raise Unsupported('loop over a map')
        if s.inc is None or s.inc.k != 'incdec' or s.inc.op != '++' or not isit(s.inc.e):
            raise Unsupported('loop over a map')
        memo = getattr(self, 'maploops', None)
        if memo is None:
            memo = self.maploops = {}
        if s.uid not in memo:
            vid = i.id + '*'
            self.vname[vid] = i.name

            def rw(n):
                if isinstance(n, list):
                    return [rw(x) for x in n]
                if isinstance(n, tuple):
                    return tuple(rw(x) for x in n)
                if not isinstance(n, N):
                    return n
                if n.k == 'deref' and isit(n.e):
                    return N('var', n.line, id=vid, name=i.name)
                if isit(n):
                    raise Unsupported('map iterator')
                q = N(n.k, n.line)
                q.__dict__.update({k: rw(v) if isinstance(v, (N, list, tuple)) else v for k, v in n.__dict__.items()})
                return q
            memo[s.uid] = N('rangefor', s.line, var=(vid, i.name, ('auto',), i.init.name == 'cbegin', '&'), rng=o, body=rw(s.body), uid=s.uid)
        return memo[s.uid]

    def loop(self, st, s):
        outs = []
        m = self.map_loop(st, s)
        if m is not None:
            return self.rangefor(st, m)
        starts = [st]
        keys0, t0 = set(st.env), st.tctx
        if s.init is not None:
            starts = []
            for o in self.exec(st, s.init):
                (starts.append(o.st) if o.kind == 'next' else outs.append(o))
        for c in starts:
            outs += self.loop_from(c, s)
        for o in outs:
            if o.kind == 'next':
                self.leave(o.st, keys0, t0)
        return outs

    def try_unroll(self, st, s):
        """constant trip count loops"""
        outs, cur = [], [st]
        for _ in range(40):
            if not cur:
                return outs
            nxt = []
            for c in cur:
                b = c.copy()
                save_p, self.pending = self.pending, []
                save_c, self.checking = self.checking, False
                try:
                    t = self.tobool(b, self.eval(b, s.c)) if s.c is not None else BoolVal(True)
                finally:
                    self.pending = save_p
                    self.checking = save_c
                t = z3.simplify(t)
                if z3.is_false(t):
                    outs.append(Outcome('next', b))
                    continue
                if not z3.is_true(t):
                    return None
                base, keys, t0 = len(b.facts), set(b.env), b.tctx
                mine, m = [], b.copy()
                for o in self.exec(b, s.body):
                    if o.kind in ('next', 'continue'):
                        if s.inc is not None:
                            self.eval(o.st, s.inc)
                        self.leave(o.st, keys, t0)
                        mine.append(o.st)
                    elif o.kind == 'break':
                        self.leave(o.st, keys, t0)
                        outs.append(Outcome('next', o.st))
                    else:
                        outs.append(o)
                if len(mine) > 1 and self.mergeable(mine, m):
                    try:
                        self.merge(m, base, [(n, None) for n in mine])
                        mine = [m]
                    except Unsupported:
                        pass
                nxt += mine
            cur = nxt
            if len(cur) > 16:
                return None
        return None

    def loop_from(self, st, s):
        # constant trip count?
        b = st.copy()
        save_p, self.pending = self.pending, []
        save_c, self.checking = self.checking, False
        try:
            t = z3.simplify(self.tobool(b, self.eval(b, s.c))) if s.c is not None else BoolVal(True)
        finally:
            self.pending = save_p
            self.checking = save_c
        if z3.is_false(t):
            return [Outcome('next', b)]
        if z3.is_true(t):
            snap = (len(self.obligs), set(self.seen_ob), list(self.pending))
            u = self.try_unroll(st.copy(), s)
            if u is not None:
                return u
            del self.obligs[snap[0]:]
            self.seen_ob, self.pending = snap[1], snap[2]
        mods = self.mods(st, [s.c, s.inc, s.body])
        entry = {m: st.env[m] for m in mods}

        def head(bst):
            pass

        def iterate(hst):
            """one iteration from a state at the loop head: (exit states, next states, other outcomes)"""
            exits, nexts, others = [], [], []
            save, self.pending = self.pending, []
            try:
                try:
                    c = self.tobool(hst, self.eval(hst, s.c)) if s.c is not None else BoolVal(True)
                except Diverge:
                    others += self.pending
                    return exits, nexts, others
                others += self.pending
            finally:
                self.pending = save
            f = hst.copy()
            f.add(Not(c), True)
            if not self.quick_false(f):
                exits.append(f)
            b = hst.copy()
            b.add(c, True)
            for o in self.exec(b, s.body):
                if o.kind in ('next', 'continue'):
                    if s.inc is not None:
                        save, self.pending = self.pending, []
                        try:
                            self.eval(o.st, s.inc)
                            others.extend(self.pending)
                        except Diverge:
                            others.extend(self.pending)
                            continue
                        finally:
                            self.pending = save
                    nexts.append(o.st)
                elif o.kind == 'break':
                    exits.append(o.st)
                else:
                    others.append(o)
            return exits, nexts, others
        return self.houdini(st, s, mods, entry, iterate)

    def rangefor(self, st, s):
        vid, vname, vty, vconst, vref = s.var
        try:
            r = self.lval(st, s.rng)
        except NotLvalue:
            r = self.temp(st, self.eval(st, s.rng))
        v = self.load(st, r)
        if isinstance(v, VMap):
            return self.rangefor_map(st, s, r, v)
        if not isinstance(v, (VMat, VRow)):
            raise Unsupported('range-for over ' + type(v).__name__)
        n = v.r if isinstance(v, VMat) else v.n
        ns = z3.simplify(n)
        self.nfresh += 1
        cid = '$rng:%s' % s.uid

        def bindvar(b, t):
            el = VRef(r.root, r.path + [('i', t)])
            if vref:
                b.env[vid] = el
            else:
                b.env[vid] = self.convert(b, self.load(b, el), self.rty(b, vty))
        if z3.is_int_value(ns) and ns.as_long() <= 40:
            cur, outs = [st], []
            for i in range(ns.as_long()):
                nxt = []
                for c in cur:
                    bindvar(c, IntVal(i))
                    for o in self.exec(c, s.body):
                        if o.kind in ('next', 'continue'):
                            nxt.append(o.st)
                        elif o.kind == 'break':
                            outs.append(Outcome('next', o.st))
                        else:
                            outs.append(o)
                cur = nxt
                if len(cur) > 16:
                    raise Budget('too many paths')
            return outs + [Outcome('next', c) for c in cur]
        st.env[cid] = VInt(IntVal(0), 'u64')
        b0 = st.copy()
        bindvar(b0, IntVal(0))
        mods = [m for m in self.mods(b0, [s.body]) if m in st.env] + [cid]
        entry = {m: st.env[m] for m in mods}

        def iterate(hst):
            i = hst.env[cid].t
            exits, nexts, others = [], [], []
            f = hst.copy()
            f.add(Not(i < n), True)
            exits.append(f)
            b = hst.copy()
            b.add(And(i >= 0, i < n), True)
            bindvar(b, i)
            for o in self.exec(b, s.body):
                if o.kind in ('next', 'continue'):
                    o.st.env[cid] = VInt(i + 1, 'u64')
                    nexts.append(o.st)
                elif o.kind == 'break':
                    exits.append(o.st)
                else:
                    others.append(o)
            return exits, nexts, others
        return self.houdini(st, s, mods, entry, iterate, limit=n)

    def rangefor_map(self, st, s, r, v):
        """std::map iteration: every key once, in ascending order (assumed contract of std::map)"""
        self.assumed.add('std::map iteration visits every key once in ascending order')
        a = self.alg
        vid, vname, vty, vconst, vref = s.var
        cid = '$vis:%s' % s.uid
        SB = z3.ArraySort(a.S, z3.BoolSort())

        class VVis(V):
            def __init__(q, t): q.t = t
            def terms(q): return [q.t]
            def rebuild(q, ts): return VVis(ts[0])
            def shape(q): return ('vis',)
        st.env[cid] = VVis(K(a.S, BoolVal(False)))
        mods = [m for m in self.mods(st, [s.body]) if m in st.env] + [cid]
        if r.root in mods:
            raise Unsupported('map changed while iterated')
        acc = set()
        self.assigned(st, [s.body], acc, set())
        back = vref and not vconst and vid in acc      # writes through the reference change the counts, never the keys
        if back:
            if r.path:
                raise Unsupported('map inside another object changed through a reference')
            mods.append(r.root)
        entry = {m: st.env[m] for m in mods}
        z = z3.Const('z', a.S)

        def written(o, key):
            if back:
                m, pr = o.st.env[r.root], o.st.env[vid]
                if not pr.a.t.eq(key):
                    raise Unsupported('the key of a map entry is changed')
                o.st.env[r.root] = VMap(m.pres, Store(m.cnt, key, pr.b.t))

        def iterate(hst):
            vis = hst.env[cid].t
            exits, nexts, others = [], [], []
            f = hst.copy()
            f.add(ForAll([z], Select(vis, z) == Select(v.pres, z), patterns=[Select(vis, z), Select(v.pres, z)]))
            if back:
                f.add(hst.env[r.root].pres == v.pres)      # only counts are written in the loop
            exits.append(f)
            b = hst.copy()
            key = self.fresh('key', a.S)
            b.add(Select(v.pres, key), True)
            b.add(Not(Select(vis, key)), True)
            b.add(ForAll([z], Select(vis, z) == And(Select(v.pres, z), a.lt(z, key)),
                         patterns=[Select(vis, z), Select(v.pres, z)]))
            cur = hst.env[r.root].cnt if back else v.cnt
            b.env[vid] = VPair(VT(key), VInt(Select(cur, key), 'u64'))
            if back:
                b.add(hst.env[r.root].pres == v.pres)
            for o in self.exec(b, s.body):
                if o.kind in ('next', 'continue'):
                    written(o, key)
                    o.st.env[cid] = VVis(Store(vis, key, BoolVal(True)))
                    nexts.append(o.st)
                elif o.kind == 'break':
                    written(o, key)
                    exits.append(o.st)
                else:
                    if back and o.kind == 'return':
                        raise Unsupported('return from a loop that rewrites a map')
                    others.append(o)
            return exits, nexts, others
        return self.houdini(st, s, mods, entry, iterate, mapiter=(cid, v))

    def houdini(self, st, s, mods, entry, iterate, limit=None, mapiter=None):
        from . import pool
        if getattr(self, 'simulating', False):
            raise Unsupported('loop')
        self.loops.append({'mods': mods, 'entry': entry, 'node': s, 'limit': limit, 'map': mapiter, 'st': st})
        save_check = self.checking
        try:
            ctxkey = (s.uid, tuple(id(x) for x in self.inline_stack), len(self.loops), self.path_sig(st))
            if ctxkey in self.loopcache:
                cands = self.loopcache[ctxkey](st)
            else:
                cands = pool.candidates(self, st, s, mods, entry, limit, mapiter)
            res = self.prove_all(st.facts, [c.f(st.env, entry) for c in cands], self.cand_ms, [self.slow(c) for c in cands])
            alive = [c for c, ok in zip(cands, res) if ok]
            rnd = 0
            while True:
                rnd += 1
                if rnd > 40:
                    raise Budget('invariant iteration')
                h = self.havoc(st, mods, entry, alive)
                head = dict(h.env)
                self.checking = False
                hh = h.copy()
                exits, nexts, others = iterate(hh)
                self.loop_exit_facts(st, s, mods, exits)
                for n in list(nexts) + list(exits):
                    for kk, vv in st.env.items():
                        if kk not in mods and not isinstance(vv, (VLam, VMisc)) and kk in n.env and n.env[kk] is not vv \
                                and (n.env[kk].shape() != vv.shape() or
                                     not all(p.eq(q) for p, q in zip(vv.terms(), n.env[kk].terms()))):
                            raise Unsupported('loop changes a variable the frame analysis missed')
                killed = set()
                for n in nexts:
                    goals = [c for c in alive if c not in killed]
                    r = self.prove_all(n.facts, [c.f(n.env, entry) for c in goals], self.cand_ms, [self.slow(c) for c in goals])
                    for c, ok in zip(goals, r):
                        if not ok:
                            killed.add(c)
                if self.log and killed:
                    self.log('   loop line %s round %d: killed %s' % (s.line, rnd, ', '.join(self.pretty(c.label) for c in killed)))
                alive = [c for c in alive if c not in killed]
                if not killed:
                    break
            labels = [c.label for c in alive]
            self.loopcache[ctxkey] = lambda st2, labels=set(labels): [
                c for c in pool.candidates(self, st2, s, mods, {m: st2.env[m] for m in mods}, limit, mapiter)
                if c.label in labels]
            if self.log:
                self.log('   loop line %s: %d invariants %s' % (s.line, len(alive), [self.pretty(x) for x in labels]))
            self.stats['inv'] += len(alive)
            self.checking = save_check
            if self.checking:
                # final pass emits the obligations of the body
                h = self.havoc(st, mods, entry, alive)
                head = dict(h.env)
                exits, nexts, others = iterate(h.copy())
                self.loop_exit_facts(st, s, mods, exits)
                for c in alive:
                    if self.prog.dump_dir:
                        for z in [(st, c.f(st.env, entry))] + [(n, c.f(n.env, entry)) for n in nexts]:
                            if not z3.is_true(z3.simplify(z[1])):
                                self.prog.dump(self, z[0].facts, z[1], 'invariant')
                    self.obligs.append(Oblig(self.func, 'invariant', s.line, 'loop invariant holds on entry and is kept: ' +
                                             self.pretty(c.label), True, 0.0))
                self.termination(st, s, mods, entry, head, nexts, limit, mapiter)
            return others + [Outcome('next', e) for e in exits]
        finally:
            self.checking = save_check
            self.loops.pop()

    def loop_exit_facts(self, st, s, mods, exits):
        """instances of proved lemmas the contract asks for when a loop is left"""
        if self.spec is None or type(self.spec).loop_exit is self.base_loop_exit():
            return
        from . import pool
        ints = pool.int_ids(self, st, s, mods)
        for e in exits:
            for f in self.spec.loop_exit(self, st, e, mods, ints):
                e.add(f)

    @staticmethod
    def base_loop_exit():
        from .specs import Spec
        return Spec.loop_exit

    def path_sig(self, st):
        return tuple(sorted((str(k), v.shape()[0]) for k, v in st.env.items() if isinstance(v, VRef)))

    def havoc(self, st, mods, entry, alive):
        h = st.copy()
        for m in mods:
            v = st.env[m]
            h.env[m] = self.fresh_like('h', v)
            if isinstance(v, (VInt, VIter)):
                lo, hi = RANGES[v.kind]
                h.add(And(h.env[m].t >= lo, h.env[m].t <= hi))
                h.add(self.alg.tick(h.env[m].t))
        for c in alive:
            h.add(c.f(h.env, entry))
        return h

    def termination(self, st, s, mods, entry, head, nexts, limit, mapiter):
        if mapiter is not None:
            return
        if not nexts:
            self.obligs.append(Oblig(self.func, 'termination', s.line, 'loop body never repeats', True, 0.0))
            return
        ints = [m for m in mods if isinstance(st.env[m], (VInt, VIter))]
        from . import pool
        terms = pool.limit_terms(self, st, s, limit)

        def ms(env):
            out = []
            for m in ints:
                out.append(env[m].t)
                for t in terms(env):
                    out.append(t - env[m].t)
                if isinstance(env[m], VInt) and env[m].kind[0] == 'i':
                    out.append(If(env[m].t >= 0, env[m].t, -env[m].t))
                    out.append(env[m].t + 1)
            return out
        hm = ms(head)
        n = len(hm)
        ok1 = [True] * n
        le1 = [True] * n
        for x in nexts:
            em = ms(x.env)
            r = self.prove_all(x.facts, [And(hm[i] >= 0, em[i] < hm[i]) for i in range(n)], self.cand_ms)
            ok1 = [a and b for a, b in zip(ok1, r)]
        good = any(ok1)
        if not good:
            for i in range(n):
                if good:
                    break
                # lexicographic: measure i never grows; where it does not shrink some other measure j does
                r = [self.prove_all(x.facts, [And(hm[i] >= 0, ms(x.env)[i] <= hm[i])], self.cand_ms)[0] for x in nexts]
                if not all(r):
                    continue
                for j in range(n):
                    if i != j and all(self.prove_all(x.facts, [Or(ms(x.env)[i] < hm[i],
                                                                  And(hm[j] >= 0, ms(x.env)[j] < hm[j]))],
                                                     self.cand_ms)[0] for x in nexts):
                        good = True
                        break
        self.obligs.append(Oblig(self.func, 'termination', s.line, 'loop has a decreasing bounded measure', good, 0.0,
                                 reason='' if good else 'no ranking function found'))

    # ------------------------------------------------------------ entry point
    def verify(self):
        f, spec = self.func, self.spec
        st = St({}, [], {})
        self.checking = True
        a = self.alg
        for tp in f.tparams:
            if tp[0] == 'val':
                d = z3.Int(tp[1] or 'd?')
                st.tctx[tp[1]] = ('dim', d)
                st.add(And(d >= 1, d <= DIMMAX))
                st.add(a.tick(d))
            else:
                k = self.intkinds.get(tp[1])
                st.tctx[tp[1]] = ('ty', ('int', k)) if k else ('ty', ('T',))
        bind = self.prog.bind_func(self, st, f, spec)
        if bind is None:
            raise Unsupported('signature does not fit the contract of %s' % spec.name)
        c = Ctx(self, st, bind)
        for p, sp in zip(f.params, spec.params):
            ty = self.rty(st, p[2])
            v = self.fresh_of(st, ty, p[1] or 'arg')
            if isinstance(v, VMat):
                st.add(And(v.r >= 1, v.c >= 1, v.r <= DIMMAX, v.c <= DIMMAX))
                st.add(a.tick(v.r))
                st.add(a.tick(v.c))
            if isinstance(v, VT) and ty[0] in WIDER:
                self.width[v.t.get_id()] = ty[0]
                self.keep.append(v.t)
            st.env[p[0]] = v
            self.vname[p[0]] = p[1] or 'arg'
            c.args[sp[0]] = v
        if spec.outputs or spec.may_output:
            st.env['$out'] = VOut(self.fresh('out', a.Trace))
            c.out0 = st.env['$out'].t
        for g in self.prog.overload_exclusions(self, st, f):
            st.add(g)
        for label, g in spec.requires(c):
            st.add(g)
        for g in spec.entry_facts(c):
            st.add(g)
        self.ctx0 = c
        c.entry_args = dict(c.args)
        # vacuity guard: the precondition together with the axioms must not be contradictory
        s = self.solver(st.facts, 1500)
        if s.check() == z3.unsat:
            self.obligs.append(Oblig(f, 'vacuity', f.line, 'precondition is satisfiable', False, 0.0, reason='contradictory'))
            return
        self.obligs.append(Oblig(f, 'vacuity', f.line, 'precondition and axioms not refuted by the solver', True, 0.0))
        ret = self.rty(st, f.ret)
        spec.check_ret_shape(c, self, st, ret)
        outs = self.exec(st, f.body)
        nret = 0
        live = False
        for o in outs:
            if o.kind == 'throw':
                th = spec.throws(c)
                t = (o.v or '').replace('class ', '').strip()
                okty = t in ('std::overflow_error', 'overflow_error')
                if not okty:
                    self.oblige(o.st, BoolVal(False), 'throws', o.line, 'exception type is std::overflow_error, got %s' %
                                (o.v or 'a rethrow without an active exception'))
                self.oblige(o.st, th if th is not None else BoolVal(False), 'throws', o.line,
                            'an exception is thrown only when the contract says so')
            elif o.kind in ('return', 'next'):
                if o.kind == 'next' and f.ret != ('void',):
                    self.oblige(o.st, BoolVal(False), 'ensures', f.line, 'control reaches the end without a return value')
                    continue
                nret += 1
                v = o.v
                if not live:
                    live = self.solver(o.st.facts, 1000).check() != z3.unsat
                if v is not None:
                    if isinstance(v, VMisc):
                        raise Unsupported('returned value')
                    v = self.convert(o.st, v, ret)
                th = spec.throws(c)
                if th is not None:
                    self.oblige(o.st, Not(th), 'throws', o.line, 'no exception: the failing condition does not hold')
                finals = {sp[0]: o.st.env[p[0]] for p, sp in zip(f.params, spec.params)}
                for p, sp in zip(f.params, spec.params):
                    if p[4] == '&' and sp[-1] != 'inout':
                        v0, v1 = c.args[sp[0]], finals[sp[0]]
                        same = all(x.eq(y) for x, y in zip(v0.terms(), v1.terms()))
                        self.oblige(o.st, BoolVal(same), 'frame', o.line or f.line, 'operand %s is unchanged' % p[1])
                c.finals = finals
                out1 = o.st.env['$out'].t if '$out' in o.st.env else None
                for ms in spec.exit_facts(c, v, self, o.st):
                    o.st.add(ms)
                for label, g in spec.ensures(c, v, finals, out1, self):
                    self.oblige(o.st, g, 'ensures', o.line or f.line, label)
                    o.st.add(g)
            else:
                raise Unsupported('stray ' + o.kind)
        self.obligs.append(Oblig(f, 'vacuity', f.line, 'some path reaches a return that the solver cannot refute', live, 0.0,
                                 reason='' if live else 'no live return path'))

    def ok(self):
        return all(o.ok for o in self.obligs)


class NotLvalue(Exception):
    pass


class Diverge(Exception):
    """evaluation never yields a value on this path"""


class Ctx:
    """binding of a contract's parameters: c['n'] is a dimension term, c.args['A'] a value"""
    def __init__(self, ver, st, bind):
        self.ver, self.st, self.bind = ver, st, bind
        self.args, self.finals = {}, {}
        self.g = ver.alg
        self.out0 = None

    def __getitem__(self, k):
        return self.bind[k]

    def a(self, k):
        return self.args[k].t


# ---------------------------------------------------------------- library functions used by the code
def _args(ver, st, e):
    return [ver.eval(st, a) for a in e.args]


def b_abs(ver, st, e):
    v, = _args(ver, st, e)
    if isinstance(v, VT):
        return VT(ver.alg.abs(v.t), True)
    if isinstance(v, VMat):
        return ver.callfn(st, 'abs', [v], [None], e.line)
    if isinstance(v, VInt):
        return VInt(If(v.t >= 0, v.t, -v.t), v.kind)
    raise Unsupported('abs')


def b_fabs(ver, st, e):
    v, = _args(ver, st, e)
    if isinstance(v, VT) and ver.alg.mode == 'P':
        raise Unsupported('fabs of an element: integer element types would pass through double')
    return b_abs(ver, st, e)


def b_sqrt(ver, st, e):
    v, = _args(ver, st, e)
    if not isinstance(v, VT):
        raise Unsupported('sqrt of a non-element')
    ver.assumed.add('sqrt returns the exact non-negative square root (over the reals)')
    g = ver.alg
    ver.oblige(st, g.le(g.lit(0), v.t), 'sqrt-domain', e.line, 'square root of a non-negative value')
    return VT(g.sqrt(v.t))


def b_floor(ver, st, e):
    v, = _args(ver, st, e)
    if isinstance(v, VInt):
        return ver.convert(st, v, ('double',))
    if isinstance(v, VFlt) and v.exact is not None:
        return v
    raise Unsupported('floor')


def b_swap(ver, st, e):
    try:
        r1, r2 = [ver.lval(st, a) for a in e.args]
    except NotLvalue:
        raise Unsupported('swap of temporaries')
    v1, v2 = ver.load(st, r1), ver.load(st, r2)
    old = None
    if isinstance(v1, VRow) and r1.root == r2.root and r1.path and r2.path:
        holder = VRef(r1.root, r1.path[:-1])
        old = ver.load(st, holder)
    ver.store(st, r1, v2)
    ver.store(st, r2, v1)
    if isinstance(old, VMat) and ver.spec is not None:
        for f in ver.spec.on_swap(ver, st, old, ver.load(st, holder), r1.path[-1][1], r2.path[-1][1]):
            st.add(f)
    return VMisc('void')


def b_make_pair(ver, st, e):
    a, b = _args(ver, st, e)
    return VPair(a, b)


def b_minmax(which):
    def f(ver, st, e):
        a, b = _args(ver, st, e)
        if isinstance(a, VInt) and isinstance(b, VInt):
            c = a.t <= b.t if which == 'min' else a.t >= b.t
            return VInt(If(c, a.t, b.t), a.kind)
        if isinstance(a, VT) and isinstance(b, VT):
            g = ver.alg
            return VT(If(g.lt(b.t, a.t), b.t, a.t)) if which == 'min' else VT(If(g.lt(a.t, b.t), b.t, a.t))
        raise Unsupported('min/max')
    return f


def _bag(ver, st, v):
    """how often each value occurs in a row"""
    if not hasattr(ver, 'bags'):
        ver.bags = {}
    if v.t.get_id() in ver.bags:
        return ver.bags[v.t.get_id()][1]
    g = ver.alg
    bag = ver.fresh('bag', z3.ArraySort(g.S, z3.IntSort()))
    z = z3.Const('z', g.S)
    st.add(ForAll([z], Select(bag, z) == g.fn('rcnt')(v.t, v.n, z), patterns=[Select(bag, z)]))
    return bag


def b_nth(ver, st, e):
    if len(e.args) != 3:
        raise Unsupported('nth_element with comparator')
    a, m, b = _args(ver, st, e)
    whole_range(ver, st, a, b)
    v = ver.load(st, a.ref)
    if not isinstance(v, VRow) or not isinstance(m, VIter) or m.shape() != a.shape():
        raise Unsupported('nth_element')
    ver.oblige(st, And(m.t >= 0, m.t <= v.n), 'bounds', e.line, 'iterator inside the range')
    ver.assumed.add('std::nth_element permutes the range and leaves the k-th smallest element at position k')
    g = ver.alg
    nv = ver.fresh('nth', g.Row)
    bag = _bag(ver, st, v)
    z = z3.Const('z', g.S)
    ver.bags[nv.get_id()] = (nv, bag)
    st.add(ForAll([z], g.fn('rcnt')(nv, v.n, z) == Select(bag, z), patterns=[g.fn('rcnt')(nv, v.n, z)]))
    st.add(Implies(m.t < v.n, Select(nv, m.t) == g.fn('ost')(bag, m.t)))
    # the elements before position m are the m smallest, the ones from it on the others
    o, q, k = g.fn('ost'), ver.fresh('last', z3.IntSort()), z3.Int('k')
    st.add(Implies(m.t > 0, And(q >= 0, q < m.t, Select(nv, q) == o(bag, m.t - 1))))
    st.add(ForAll([k], And(Implies(And(k >= 0, k < m.t), Not(g.lt(o(bag, m.t - 1), Select(nv, k)))),
                           Implies(And(k >= m.t, k < v.n), Not(g.lt(Select(nv, k), o(bag, m.t))))), patterns=[Select(nv, k)]))
    ver.store(st, a.ref, VRow(nv, v.n))
    return VMisc('void')


def b_extreme(which):
    def f(ver, st, e):
        if len(e.args) != 2:
            raise Unsupported('%s_element with comparator' % which)
        a, b = _args(ver, st, e)
        n = _range(ver, st, a, b, e.line)
        v, size = ver.iter_n(st, a)
        if not isinstance(v, VRow):
            raise Unsupported('%s_element of rows' % which)
        ver.oblige(st, And(a.t >= 0, b.t <= size), 'bounds', e.line, 'the range is inside the array')
        ver.assumed.add('std::%s_element returns the position of a %s element of the range (its end when empty)'
                        % (which, 'largest' if which == 'max' else 'smallest'))
        g = ver.alg
        p, k = ver.fresh(which + 'pos', z3.IntSort()), z3.Int('k')
        x, y = Select(v.t, p), Select(v.t, k)
        st.add(If(n == 0, p == b.t, And(p >= a.t, p < b.t)))
        st.add(ForAll([k], Implies(And(k >= a.t, k < b.t), Not(g.lt(x, y) if which == 'max' else g.lt(y, x))), patterns=[y]))
        return VIter(a.ref, p)
    return f


def b_stable_sort(ver, st, e):
    ver.allocs.append('std::stable_sort (temporary buffer)')
    return b_sort(ver, st, e)


def b_sort(ver, st, e):
    if len(e.args) != 2:
        raise Unsupported('sort with comparator')
    a, b = _args(ver, st, e)
    whole_range(ver, st, a, b)
    v = ver.load(st, a.ref)
    if not isinstance(v, VRow):
        raise Unsupported('sort of rows')
    ver.assumed.add('std::sort leaves the k-th smallest element of the range at position k')
    g = ver.alg
    nv = ver.fresh('sorted', g.Row)
    bag = _bag(ver, st, v)
    k = z3.Int('k')
    st.add(ForAll([k], Implies(And(k >= 0, k < v.n), Select(nv, k) == g.fn('ost')(bag, k)), patterns=[Select(nv, k)]))
    ver.bags[nv.get_id()] = (nv, bag)
    ver.store(st, a.ref, VRow(nv, v.n))
    return VMisc('void')


def b_ident(ver, st, e):
    if len(e.args) != 1:
        raise Unsupported('call')
    return ver.eval(st, e.args[0])


def b_pow(ver, st, e):
    a, b = _args(ver, st, e)
    if isinstance(a, VT) and isinstance(b, VInt) and z3.is_int_value(b.t) and b.t.as_long() == 2:
        return VT(ver.alg.mul(a.t, a.t))
    raise Unsupported('pow')


def whole_range(ver, st, a, b):
    if not (isinstance(a, VIter) and isinstance(b, VIter) and a.shape() == b.shape()):
        raise Unsupported('range')
    v, n = ver.iter_n(st, a)
    if not (z3.is_true(z3.simplify(a.t == 0)) and ver.quick(st, b.t == n)):
        raise Unsupported('part of a range')


# ---------------------------------------------------------------- algorithms over iterator ranges, as the loops they are
def _v(i): return N('var', None, id=i, name=i)


def _loop(ver, st, e, n, body, result=None, brk=False):
    """for (k = 0; k < n; ++k) body  -- body: list of statements over the variables bound by the caller"""
    tag = '$%s:%s' % (ver.base(e.f), e.line)
    kk, nn = tag + ':k', tag + ':n'
    s = st.copy()
    s.env[kk] = VInt(IntVal(0), 'u64')
    s.env[nn] = VInt(n, 'u64')
    loop = N('for', e.line, init=None, c=N('bin', e.line, op='<', a=_v(kk), b=_v(nn)),
             inc=N('incdec', e.line, op='++', post=False, e=_v(kk)), body=N('block', e.line, body=body(_v(kk))), uid=tag)
    base = len(st.facts)
    keys = set(st.env)
    res = []
    for o in ver.exec(s, loop):
        if o.kind == 'throw':
            ver.pending.append(o)
        elif o.kind == 'next':
            v = result(o.st) if result else VMisc('void')
            for k in [q for q in o.st.env if q not in keys]:
                del o.st.env[k]
            res.append((o.st, v))
        else:
            raise Unsupported('control flow leaves the algorithm')
    if not res:
        raise Diverge()
    return ver.merge(st, base, res)


def _range(ver, st, a, b, line):
    if not (isinstance(a, VIter) and isinstance(b, VIter)):
        raise Unsupported('iterator range')
    if a.shape() != b.shape():
        raise Unsupported('iterators into different arrays')
    n = z3.simplify(b.t - a.t)
    ver.oblige(st, n >= 0, 'bounds', line, 'the range is well formed')
    st.add(n >= 0)
    return ver.named(st.facts, n)


def _bind(ver, st, e, name, v):
    k = '$%s:%s:%s' % (ver.base(e.f), e.line, name)
    st.env[k] = v
    return k


def _at(it, k):
    """*(it + k)"""
    return N('sub', None, b=_v(it), i=k)


FUNCTOR = {'plus': '+', 'minus': '-', 'multiplies': '*', 'divides': '/', 'equal_to': '==', 'not_equal_to': '!=', 'less': '<',
           'greater': '>', 'less_equal': '<=', 'greater_equal': '>=', 'logical_and': '&&', 'logical_or': '||'}


def _fn(ver, st, e, arg):
    """callable argument -> function of expression nodes"""
    if arg.k in ('init', 'cast', 'construct'):
        t = str(arg.ty)
        m = re.search(r"(negate|%s)" % '|'.join(sorted(FUNCTOR, key=len, reverse=True)), t)
        if m and m[1] == 'negate':
            return lambda a: N('un', e.line, op='-', e=a)
        if m:
            return lambda a, b: N('bin', e.line, op=FUNCTOR[m[1]], a=a, b=b)
        raise Unsupported('function object')
    v = ver.eval(st, arg)
    if not isinstance(v, VLam):
        raise Unsupported('function object')
    k = _bind(ver, st, e, 'fn', v)
    return lambda *a: N('call', e.line, f=_v(k), args=list(a))


def algo(need):
    def deco(f):
        def g(ver, st, e):
            if len(e.args) < need:
                raise Unsupported('arguments of ' + ver.base(e.f))
            keys = set(st.env)
            try:
                return f(ver, st, e)
            finally:
                for k in [q for q in st.env if q not in keys and q.startswith('$' + ver.base(e.f) + ':')]:
                    del st.env[k]
        return g
    return deco


def _assign(l, r, op='', line=None):
    return N('expr', line, e=N('assign', line, op=op, l=l, r=r))


@algo(3)
def b_copy(ver, st, e):
    a, b, o = _args(ver, st, e)
    n = _range(ver, st, a, b, e.line)
    return _copy(ver, st, e, a, n, o)


def _copy(ver, st, e, a, n, o):
    if not isinstance(o, VIter):
        raise Unsupported('output iterator')
    ka, ko = _bind(ver, st, e, 'a', a), _bind(ver, st, e, 'o', o)
    _loop(ver, st, e, n, lambda k: [_assign(_at(ko, k), _at(ka, k), '', e.line)])
    return VIter(o.ref, ver.named(st.facts, z3.simplify(o.t + n)))


@algo(3)
def b_copy_n(ver, st, e):
    a, n, o = _args(ver, st, e)
    return _copy(ver, st, e, a, ver.convert(st, n, ('int', 'u64'), e.line).t, o)


@algo(3)
def b_fill(ver, st, e):
    a, b, v = _args(ver, st, e)
    n = _range(ver, st, a, b, e.line)
    return _fill(ver, st, e, a, n, v)


def _fill(ver, st, e, a, n, v):
    cur, size = ver.iter_n(st, a)
    if isinstance(cur, VRow) and z3.is_true(z3.simplify(a.t == 0)) and ver.quick(st, n == size):
        ver.store(st, a.ref, VRow(K(z3.IntSort(), ver.toT(st, v)), cur.n))
        return VMisc('void')
    ka, kv = _bind(ver, st, e, 'a', a), _bind(ver, st, e, 'v', v)
    return _loop(ver, st, e, n, lambda k: [_assign(_at(ka, k), _v(kv), '', e.line)])


@algo(3)
def b_fill_n(ver, st, e):
    a, n, v = _args(ver, st, e)
    if not isinstance(a, VIter):
        raise Unsupported('fill_n')
    return _fill(ver, st, e, a, ver.convert(st, n, ('int', 'u64'), e.line).t, v)


@algo(4)
def b_transform(ver, st, e):
    args = [ver.eval(st, x) for x in e.args[:-1]]
    fn = _fn(ver, st, e, e.args[-1])
    n = _range(ver, st, args[0], args[1], e.line)
    if not all(isinstance(x, VIter) for x in args):
        raise Unsupported('transform')
    ks = [_bind(ver, st, e, 'i%d' % i, x) for i, x in enumerate(args)]
    if len(args) == 3:
        _loop(ver, st, e, n, lambda k: [_assign(_at(ks[2], k), fn(_at(ks[0], k)), '', e.line)])
    else:
        _loop(ver, st, e, n, lambda k: [_assign(_at(ks[3], k), fn(_at(ks[0], k), _at(ks[2], k)), '', e.line)])
    return VIter(args[-1].ref, ver.named(st.facts, z3.simplify(args[-1].t + n)))


@algo(3)
def b_for_each(ver, st, e):
    a, b = [ver.eval(st, x) for x in e.args[:2]]
    fn = _fn(ver, st, e, e.args[2])
    n = _range(ver, st, a, b, e.line)
    ka = _bind(ver, st, e, 'a', a)
    return _loop(ver, st, e, n, lambda k: [N('expr', e.line, e=fn(_at(ka, k)))])


def _acc(ver, st, e, init):
    v = init
    if isinstance(v, VFlt):
        raise Unsupported('floating accumulator')
    return _bind(ver, st, e, 'acc', v)


@algo(3)
def b_accumulate(ver, st, e):
    a, b, v = [ver.eval(st, x) for x in e.args[:3]]
    fn = _fn(ver, st, e, e.args[3]) if len(e.args) > 3 else lambda x, y: N('bin', e.line, op='+', a=x, b=y)
    n = _range(ver, st, a, b, e.line)
    ka, kc = _bind(ver, st, e, 'a', a), _acc(ver, st, e, v)
    return _loop(ver, st, e, n, lambda k: [_assign(_v(kc), fn(_v(kc), _at(ka, k)), '', e.line)], lambda s: s.env[kc])


@algo(4)
def b_inner_product(ver, st, e):
    a, b, a2, v = [ver.eval(st, x) for x in e.args[:4]]
    if len(e.args) != 4 or not isinstance(a2, VIter):
        raise Unsupported('inner_product')
    n = _range(ver, st, a, b, e.line)
    ka, kb, kc = _bind(ver, st, e, 'a', a), _bind(ver, st, e, 'b', a2), _acc(ver, st, e, v)
    return _loop(ver, st, e, n, lambda k: [_assign(_v(kc), N('bin', e.line, op='+', a=_v(kc), b=N(
        'bin', e.line, op='*', a=_at(ka, k), b=_at(kb, k))), '', e.line)], lambda s: s.env[kc])


def _search(ver, st, e, a, n, cond, found, notfound):
    """walk the range, stop at the first element with cond; -> the bool"""
    kr = _bind(ver, st, e, 'res', VBool(BoolVal(notfound)))
    ka = _bind(ver, st, e, 'a', a)
    return _loop(ver, st, e, n, lambda k: [N('if', e.line, c=cond(ka, k), a=N('block', e.line, body=[
        _assign(_v(kr), N('bool', e.line, v=found), '', e.line), N('break', e.line)]), b=None)], lambda s: s.env[kr])


def b_quant(kind):
    @algo(3)
    def f(ver, st, e):
        a, b = [ver.eval(st, x) for x in e.args[:2]]
        fn = _fn(ver, st, e, e.args[2])
        n = _range(ver, st, a, b, e.line)
        neg = lambda x: N('un', e.line, op='!', e=x)
        if kind == 'all':
            return _search(ver, st, e, a, n, lambda ka, k: neg(fn(_at(ka, k))), False, True)
        return _search(ver, st, e, a, n, lambda ka, k: fn(_at(ka, k)), kind == 'any', kind != 'any')
    return f


@algo(3)
def b_equal(ver, st, e):
    a, b, o = [ver.eval(st, x) for x in e.args[:3]]
    n = _range(ver, st, a, b, e.line)
    if not isinstance(o, VIter):
        raise Unsupported('equal')
    if len(e.args) == 3:
        cmp = lambda x, y: N('bin', e.line, op='==', a=x, b=y)
    elif len(e.args) == 4:
        cmp = _fn(ver, st, e, e.args[3])
    else:
        raise Unsupported('equal of two ranges')
    ko = _bind(ver, st, e, 'o', o)
    return _search(ver, st, e, a, n, lambda ka, k: N('un', e.line, op='!', e=cmp(_at(ka, k), _at(ko, k))), False, True)


@algo(3)
def b_swap_ranges(ver, st, e):
    a, b, o = _args(ver, st, e)
    n = _range(ver, st, a, b, e.line)
    if not isinstance(o, VIter):
        raise Unsupported('swap_ranges')
    ka, ko = _bind(ver, st, e, 'a', a), _bind(ver, st, e, 'o', o)
    sw = N('fref', e.line, name='swap', text='std::swap')
    _loop(ver, st, e, n, lambda k: [N('expr', e.line, e=N('call', e.line, f=sw, args=[_at(ka, k), _at(ko, k)]))])
    return VMisc('void')


def b_iter_swap(ver, st, e):
    return b_swap(ver, st, N('call', e.line, f=e.f, args=[N('deref', e.line, e=x) for x in e.args]))


def b_begin(nm):
    def f(ver, st, e):
        if len(e.args) != 1:
            raise Unsupported(nm)
        return ver.method(st, N('method', e.line, o=e.args[0], name=nm, args=[]))
    return f


def b_next(sign):
    def f(ver, st, e):
        a = ver.eval(st, e.args[0])
        d = ver.convert(st, ver.eval(st, e.args[1]), ('int', 'i64'), e.line).t if len(e.args) > 1 else IntVal(1)
        if not isinstance(a, VIter):
            raise Unsupported('next')
        return ver.iter_add(st, a, d if sign > 0 else -d, e.line)
    return f


def b_distance(ver, st, e):
    a, b = _args(ver, st, e)
    return ver.iter_op(st, '-', b, a, e.line)


ALGO = {'copy': b_copy, 'copy_n': b_copy_n, 'fill': b_fill, 'fill_n': b_fill_n, 'transform': b_transform,
        'for_each': b_for_each, 'accumulate': b_accumulate, 'inner_product': b_inner_product, 'all_of': b_quant('all'),
        'any_of': b_quant('any'), 'none_of': b_quant('none'), 'equal': b_equal, 'swap_ranges': b_swap_ranges,
        'iter_swap': b_iter_swap}

BUILTIN = {'abs': b_abs, 'fabs': b_fabs, 'sqrt': b_sqrt, 'floor': b_floor, 'swap': b_swap, 'make_pair': b_make_pair,
           'min': b_minmax('min'), 'max': b_minmax('max'), 'sort': b_sort, 'stable_sort': b_stable_sort, 'nth_element': b_nth, 'max_element': b_extreme('max'),
           'min_element': b_extreme('min'), 'move': b_ident, 'forward': b_ident,
           'as_const': b_ident, 'begin': b_begin('begin'), 'end': b_begin('end'), 'cbegin': b_begin('cbegin'),
           'cend': b_begin('cend'), 'next': b_next(1), 'prev': b_next(-1), 'distance': b_distance, **ALGO}
