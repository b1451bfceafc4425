"""Contracts of the public functions of michalkielan/MatrixLibs.

Each contract is stated from the property text, over spec functions (see lemmas.py); all overloads of a
function with the same argument kinds must satisfy the same contract, and callers see only the contract.
"""
import z3
from z3 import And, Or, Not, Implies, If, ForAll, IntVal, Int, Ints, Select, BoolVal
from .alg import sel2
from . import lemmas
from .lemmas import inr
from .vcg import VInt, VBool, VT, VMat, VPair, VMap, VOut, VRow

SPECS = []


def cells(c, R, r, q, fn, extra=None, pats=None):
    """forall x, y in range: R[x][y] == fn(x, y)"""
    x, y = Ints('x y')
    rng = And(x >= 0, x < r, y >= 0, y < q)
    if extra is not None:
        rng = And(rng, extra(x, y))
    body = Implies(rng, sel2(R, x, y) == fn(x, y))
    return ForAll([x, y], body, patterns=pats(x, y) if pats else [sel2(R, x, y)])


class Spec:
    name = None
    params = ()         # (arg, 'mat', rows, cols[, 'inout']) | (arg, 'T') | (arg, 'idx') | (arg, 'P') | (arg, 'flt')
    targs = ()          # roles of the template parameters for functions called with explicit ones
    ret = None          # ('mat', rows, cols) | 'T' | 'bool' | ('pair', m1, m2) | 'map' | None
    props = ()
    modes = 'PRN'
    groups = ()
    instances = ()      # lemmas used through explicit instances (loop_exit, on_swap, exit_facts, extra_post)
    outputs = False
    may_output = False
    is_op = False
    intkinds = ({},)
    heap = False        # may allocate
    slow = ()           # labels of invariants worth a longer solver run
    entry_regions = True   # offer the generic 'part of the matrix is as on loop entry' invariants

    def kinds(self):
        return tuple({'mat': 'mat', 'T': 'T', 'flt': 'T', 'idx': 'int', 'P': 'int', 'pint': 'int'}[p[1]] for p in self.params)

    def axiom_formulas(self, g):
        return [f for _, f in lemmas.group(g, set(self.groups) | {'alg'})]

    def axiom_names(self, g):
        return [n for n, _ in lemmas.group(g, set(self.groups) | {'alg'})] + list(self.instances)

    def d(self, c, e):
        """dimension expression"""
        if callable(e):
            return e(c)
        if isinstance(e, int):
            return IntVal(e)
        return c[e]

    # --- overridable parts
    def requires(self, c): return []
    def throws(self, c): return None
    def entry_facts(self, c): return []
    def exit_facts(self, c, v, ver, st): return []
    def extra_ensures(self, c, v, finals, ver): return []
    def extra_post(self, c, res, ver, st): return []
    def cell(self, c, x, y): return None
    def value(self, c): return None
    def measure(self, c):
        """for recursion: the number of rows of the first matrix argument"""
        for p in self.params:
            if p[1] == 'mat':
                return c.args[p[0]].r
        return None
    def default(self, g, idx): raise Exception('no default')
    def cell_targets(self, c): return []
    def scalar_partials(self, c, ver, env, ints, tvals): return []
    def int_partials(self, c, ver, env, ints): return []
    def custom(self, c, ver, st, s, mods, entry, ints): return []
    def loop_exit(self, ver, st_entry, st_exit, mods, ints): return []
    def on_swap(self, ver, st, old, new, i, r): return []
    def out_after(self, c, t): return t

    # --- generic machinery
    def ret_dims(self, c):
        if isinstance(self.ret, tuple) and self.ret[0] == 'mat':
            return self.d(c, self.ret[1]), self.d(c, self.ret[2])

    def result(self, c, ver, st):
        r = self.ret
        if r is None:
            for p in self.params:
                if p[-1] == 'inout':
                    old = c.args[p[0]]
                    c.finals[p[0]] = ver.fresh_like(self.name, old)
            from .vcg import VMisc
            return VMisc('void')
        if r == 'T':
            v = self.value(c)
            return VT(v) if v is not None else VT(ver.fresh(self.name, c.g.S))
        if r == 'bool':
            return VBool(ver.fresh(self.name, z3.BoolSort()))
        if r == 'map':
            ver.allocs.append('std::map result of ' + self.name)
            return VMap(ver.fresh(self.name, z3.ArraySort(c.g.S, z3.BoolSort())),
                        ver.fresh(self.name, z3.ArraySort(c.g.S, z3.IntSort())))
        if r[0] == 'mat':
            return VMat(ver.fresh(self.name, c.g.Mat), self.d(c, r[1]), self.d(c, r[2]))
        if r[0] == 'pair':
            return VPair(*[VMat(ver.fresh(self.name, c.g.Mat), self.d(c, q[1]), self.d(c, q[2])) for q in r[1:]])

    def post_facts(self, c, res, ver, st):
        out = []
        for label, f in self.ensures(c, res, c.finals, None, ver):
            out.append(f)
        out += self.extra_post(c, res, ver, st)
        return out

    def ensures(self, c, v, finals, out1, ver):
        r = self.ret
        out = []
        if isinstance(r, tuple) and r[0] == 'mat':
            R, C = self.ret_dims(c)
            probe = self.cell(c, Int('x'), Int('y'))
            if probe is not None:
                if z3.is_int_value(z3.simplify(R)) and z3.is_int_value(z3.simplify(C)):
                    for x in range(z3.simplify(R).as_long()):
                        for y in range(z3.simplify(C).as_long()):
                            out.append(('entry (%d,%d) of the result' % (x, y),
                                        sel2(v.t, x, y) == self.cell(c, IntVal(x), IntVal(y))))
                else:
                    out.append(('every entry of the result', cells(c, v.t, R, C, lambda x, y: self.cell(c, x, y))))
        elif r == 'T':
            t = self.value(c)
            if t is not None:
                out.append(('the returned value', v.t == t))
        out += self.extra_ensures(c, v, finals, ver)
        if self.outputs and out1 is not None:
            out.append(('the text written', out1 == self.out_after(c, c.out0)))
        return out

    def check_ret_shape(self, c, ver, st, ret):
        def chk(want, got, what):
            R, C = self.d(c, want[1]), self.d(c, want[2])
            if got[0] != 'mat':
                ver.oblige(st, BoolVal(False), 'shape', ver.func.line, what + ' is a matrix')
                return
            ver.oblige(st, And(got[2][1] == R, got[3][1] == C), 'shape', ver.func.line, what + ' has the right shape')
        r = self.ret
        if isinstance(r, tuple) and r[0] == 'mat':
            chk(r, ret, 'the result')
        elif isinstance(r, tuple) and r[0] == 'pair':
            if ret[0] != 'pair':
                ver.oblige(st, BoolVal(False), 'shape', ver.func.line, 'the result is a pair')
            else:
                chk(r[1], ret[1], 'the first component')
                chk(r[2], ret[2], 'the second component')
        elif r == 'T' and ret[0] not in ('T', 'int'):
            ver.oblige(st, BoolVal(False), 'shape', ver.func.line, 'the result has the element type')
        elif r == 'bool' and ret[0] != 'bool':
            ver.oblige(st, BoolVal(False), 'shape', ver.func.line, 'the result is a bool')
        elif r == 'map' and ret[0] != 'map':
            ver.oblige(st, BoolVal(False), 'shape', ver.func.line, 'the result is a map')

    def targets(self, c):
        """(label, rows, cols, fn) of matrices the code may be building"""
        out = []
        if isinstance(self.ret, tuple) and self.ret[0] == 'mat' and self.cell(c, Int('x'), Int('y')) is not None:
            R, C = self.ret_dims(c)
            out.append(('result', R, C, lambda x, y: self.cell(c, x, y)))
        return out + self.cell_targets(c)


def spec(cls):
    SPECS.append(cls())
    return cls


# ================================================================ C01 elementwise
def elementwise(nm, params, fn, throws=None, props=('C01',), op=False, groups=()):
    class E(Spec):
        name = nm
        ret = ('mat', 'i', 'j')
        is_op = op

        def cell(self, c, x, y):
            return fn(c, x, y)

        def throws(self, c):
            return throws(c) if throws else None
    E.params = params
    E.props = props
    E.groups = groups
    E.__name__ = nm
    SPECS.append(E())


AB = (('A', 'mat', 'i', 'j'), ('B', 'mat', 'i', 'j'))
AS = (('A', 'mat', 'i', 'j'), ('s', 'T'))
SA = (('s', 'T'), ('A', 'mat', 'i', 'j'))
AI = (('A', 'mat', 'i', 'j'), ('k', 'pint'))
for nm, op, f in (('sum', 'operator+', 'add'), ('sub', 'operator-', 'sub')):
    elementwise(nm, AB, lambda c, x, y, f=f: getattr(c.g, f)(sel2(c.a('A'), x, y), sel2(c.a('B'), x, y)))
    elementwise(op, AB, lambda c, x, y, f=f: getattr(c.g, f)(sel2(c.a('A'), x, y), sel2(c.a('B'), x, y)), op=True)
    elementwise(nm, AS, lambda c, x, y, f=f: getattr(c.g, f)(sel2(c.a('A'), x, y), c.a('s')))
    elementwise(op, AS, lambda c, x, y, f=f: getattr(c.g, f)(sel2(c.a('A'), x, y), c.a('s')), op=True)
elementwise('operator+', SA, lambda c, x, y: c.g.add(c.a('s'), sel2(c.a('A'), x, y)), op=True)
elementwise('mult', AS, lambda c, x, y: c.g.mul(sel2(c.a('A'), x, y), c.a('s')))
elementwise('operator*', AS, lambda c, x, y: c.g.mul(sel2(c.a('A'), x, y), c.a('s')), op=True)
elementwise('operator*', SA, lambda c, x, y: c.g.mul(c.a('s'), sel2(c.a('A'), x, y)), op=True)
_dz = lambda c: c.g.eq(c.a('s'), c.g.lit(0))
elementwise('div', AS, lambda c, x, y: c.g.div(sel2(c.a('A'), x, y), c.a('s')), _dz, ('C01', 'C18'))
elementwise('operator/', AS, lambda c, x, y: c.g.div(sel2(c.a('A'), x, y), c.a('s')), _dz, ('C01', 'C18'), op=True)
elementwise('abs', (('A', 'mat', 'i', 'j'),), lambda c, x, y: c.g.abs(sel2(c.a('A'), x, y)))
elementwise('operator++', AI, lambda c, x, y: c.g.add(sel2(c.a('A'), x, y), c.g.lit(1)), op=True)
elementwise('operator--', AI, lambda c, x, y: c.g.sub(sel2(c.a('A'), x, y), c.g.lit(1)), op=True)


# ================================================================ C02 product
class Mult(Spec):
    params = (('A', 'mat', 'n', 'm'), ('B', 'mat', 'm', 'p'))
    ret = ('mat', 'n', 'p')
    props = ('C02', 'C22')
    groups = ('dot', 'prod')
    modes = 'PRN'

    def cell(self, c, x, y):
        return c.g.fn('dot')(c.a('A'), c.a('B'), x, y, c['m'])

    def extra_post(self, c, res, ver, st):
        if c.g.mode == 'P' or not (c['n'].eq(c['m']) and c['m'].eq(c['p'])):
            return []
        return [c.g.fn('isProd')(c['n'], c.a('A'), c.a('B'), res.t)]

    def scalar_partials(self, c, ver, env, ints, tvals):
        dt = c.g.fn('dot')
        out = []
        for a in ints:
            for b in ints:
                for k in ints:
                    if len({a, b, k}) == 3:
                        out.append(('dot(%s,%s,%s)' % (a, b, k),
                                    lambda e, a=a, b=b, k=k: dt(c.a('A'), c.a('B'), e[a].t, e[b].t, e[k].t)))
        return out

    def custom(self, c, ver, st, s, mods, entry, ints):
        # a cell holds a partial sum:  M[a][b] == dot(A,B,a,b,k);   whole rows hold partial sums (loop orders ikj, kij, ...)
        dt = c.g.fn('dot')
        out = []
        from .pool import regions
        for mname, get in ver_mats(st, mods):
            for k in ints:
                rs = regions_for(ints, exclude=(k,)) if k in mods else []
                if len(ints) <= 4:
                    rest = [i for i in ints if i != k]
                    rs = rs + regions(rest, [m for m in mods if m != k])
                for off in ((0,) if k in mods else (0, 1)):
                    for rl, reg in rs:
                        def f(env, ent, get=get, k=k, reg=reg, off=off):
                            M = get(env)
                            return cells(c, M.t, M.r, M.c, lambda x, y: dt(c.a('A'), c.a('B'), x, y, env[k].t + off),
                                         extra=lambda x, y: reg(env, x, y))
                        out.append(('%s: %s -> partial sum to %s+%d' % (mname, rl, k, off), f))
        return out


def ver_mats(st, mods):
    """(label, getter) of the matrices among the modified variables, pair components included"""
    out = []
    for m in mods:
        v = st.env[m]
        if isinstance(v, VMat):
            out.append((m, lambda e, m=m: e[m]))
        elif isinstance(v, VPair):
            for comp in ('a', 'b'):
                if isinstance(getattr(v, comp), VMat):
                    out.append((m + '.' + comp, lambda e, m=m, comp=comp: getattr(e[m], comp)))
    return out


def regions_for(ints, exclude=()):
    out = [('all', lambda e, x, y: BoolVal(True))]
    ii = [i for i in ints if i not in exclude]
    for a in ii:
        out.append(('x=%s' % a, lambda e, x, y, a=a: x == e[a].t))
        out.append(('y=%s' % a, lambda e, x, y, a=a: y == e[a].t))
        for b in ii:
            if a != b:
                out.append(('x=%s,y=%s' % (a, b), lambda e, x, y, a=a, b=b: And(x == e[a].t, y == e[b].t)))
    return out


for nm, op in (('mult', False), ('operator*', True)):
    M = type('Mult_' + nm, (Mult,), {'name': nm, 'is_op': op})
    SPECS.append(M())


@spec
class Strassen(Spec):
    name = 'strassen'
    params = (('A', 'mat', 2, 2), ('B', 'mat', 2, 2))
    ret = ('mat', 2, 2)
    props = ('C02',)
    modes = 'N'

    def cell(self, c, x, y):
        g = c.g
        A, B = c.a('A'), c.a('B')
        return g.add(g.mul(sel2(A, x, 0), sel2(B, 0, y)), g.mul(sel2(A, x, 1), sel2(B, 1, y)))


# ================================================================ C03 constructors
class Fill(Spec):
    name = 'fill'
    targs = ('T', 'i', 'j')
    params = (('v', 'T'),)
    ret = ('mat', 'i', 'j')
    props = ('C03',)

    def cell(self, c, x, y): return c.a('v')


class Zeros(Spec):
    name = 'zeros'
    targs = ('T', 'i', 'j')
    ret = ('mat', 'i', 'j')
    props = ('C03',)

    def cell(self, c, x, y): return c.g.lit(0)


class Ones(Spec):
    name = 'ones'
    targs = ('T', 'i', 'j')
    ret = ('mat', 'i', 'j')
    props = ('C03',)

    def cell(self, c, x, y): return c.g.lit(1)


class OnesU(Ones):
    targs = ('i', 'j')


class Eye(Spec):
    name = 'eye'
    targs = ('T', 'n')
    params = (('v', 'T'),)
    ret = ('mat', 'n', 'n')
    props = ('C03', 'C22')

    def default(self, g, idx): return g.lit(1)
    def cell(self, c, x, y): return If(x == y, c.a('v'), c.g.lit(0))


SPECS += [Fill(), Zeros(), Ones(), OnesU(), Eye()]


# ================================================================ C04 transpose, swaps
@spec
class Trans(Spec):
    name = 'trans'
    params = (('A', 'mat', 'n', 'm'),)
    ret = ('mat', 'm', 'n')
    props = ('C04', 'C22')

    def cell(self, c, x, y): return sel2(c.a('A'), y, x)


class Swap(Spec):
    props = ('C04',)
    params = (('A', 'mat', 'r', 'c', 'inout'), ('p', 'idx'), ('q', 'idx'))

    def requires(self, c):
        n = c[self.which]
        return [('the first index is valid', inr(c.a('p'), n)), ('the second index is valid', inr(c.a('q'), n))]

    def newcell(self, c, x, y):
        p, q, A = c.a('p'), c.a('q'), c.a('A')
        if self.which == 'r':
            return sel2(A, If(x == p, q, If(x == q, p, x)), y)
        return sel2(A, x, If(y == p, q, If(y == q, p, y)))

    def extra_ensures(self, c, v, finals, ver):
        return [('every entry after the swap', cells(c, finals['A'].t, c['r'], c['c'], lambda x, y: self.newcell(c, x, y)))]

    def extra_post(self, c, res, ver, st):
        if ver.spec is None or self.which != 'r':
            return []
        return ver.spec.on_swap(ver, st, c.args['A'], c.finals['A'], c.a('p'), c.a('q'))

    def cell_targets(self, c):
        return [('swapped', c['r'], c['c'], lambda x, y: self.newcell(c, x, y))]


@spec
class SwapRows(Swap):
    name = 'swap_rows'
    which = 'r'
    props = ('C04', 'C22')


@spec
class SwapCols(Swap):
    name = 'swap_cols'
    which = 'c'


# ================================================================ C05 minor
@spec
class GetMinor(Spec):
    name = 'getminor'
    params = (('A', 'mat', 'n', 'n'), ('p', 'idx'), ('q', 'idx'))
    ret = ('mat', lambda c: c['n'] - 1, lambda c: c['n'] - 1)
    props = ('C05',)

    def requires(self, c):
        return [('the row index is valid', inr(c.a('p'), c['n'])), ('the column index is valid', inr(c.a('q'), c['n'])),
                ('the matrix has at least two rows', c['n'] >= 2)]

    def cell(self, c, x, y):
        return sel2(c.a('A'), x + If(x >= c.a('p'), 1, 0), y + If(y >= c.a('q'), 1, 0))


# ================================================================ C06 concatenation
def vcat(c, x, y, i1):
    return If(x < i1, sel2(c.a('A'), x, y), sel2(c.a('B'), x - i1, y))


def hcat(c, x, y, j1):
    return If(y < j1, sel2(c.a('A'), x, y), sel2(c.a('B'), x, y - j1))


NN = (('A', 'mat', 'n', 'n'), ('B', 'mat', 'n', 'n'))
two = lambda c: c['n'] + c['n']


@spec
class ConcatPair(Spec):
    name = 'concatenate'
    params = NN
    ret = ('pair', ('mat', two, 'n'), ('mat', 'n', two))
    props = ('C06',)

    def extra_ensures(self, c, v, finals, ver):
        return [('the vertical join', cells(c, v.a.t, two(c), c['n'], lambda x, y: vcat(c, x, y, c['n']))),
                ('the horizontal join', cells(c, v.b.t, c['n'], two(c), lambda x, y: hcat(c, x, y, c['n'])))]

    def cell_targets(self, c):
        return [('vjoin', two(c), c['n'], lambda x, y: vcat(c, x, y, c['n'])),
                ('hjoin', c['n'], two(c), lambda x, y: hcat(c, x, y, c['n']))]


@spec
class ConcatV2(Spec):
    name = 'concatenate'
    variant = 'v'
    params = (('A', 'mat', 'i1', 'j'), ('B', 'mat', 'i2', 'j'))
    ret = ('mat', lambda c: c['i1'] + c['i2'], 'j')
    props = ('C06',)

    def cell(self, c, x, y): return vcat(c, x, y, c['i1'])


@spec
class ConcatH2(Spec):
    name = 'concatenate'
    variant = 'h'
    params = (('A', 'mat', 'i', 'j1'), ('B', 'mat', 'i', 'j2'))
    ret = ('mat', 'i', lambda c: c['j1'] + c['j2'])
    props = ('C06',)

    def cell(self, c, x, y): return hcat(c, x, y, c['j1'])


@spec
class ConcatV(Spec):
    name = 'concatenateV'
    params = NN
    ret = ('mat', two, 'n')
    props = ('C06',)

    def cell(self, c, x, y): return vcat(c, x, y, c['n'])


@spec
class ConcatH(Spec):
    name = 'concatenateH'
    params = NN
    ret = ('mat', 'n', two)
    props = ('C06',)

    def cell(self, c, x, y): return hcat(c, x, y, c['n'])


# ================================================================ C07 determinant
@spec
class Det(Spec):
    name = 'det'
    params = (('A', 'mat', 'n', 'n'),)
    ret = 'T'
    props = ('C07', 'C22')
    modes = 'RN'
    groups = ('det', 'detsmall', 'neg')
    instances = ('det_swap', 'det_rowop', 'det_rowop2', 'det_rowop3', 'det_zpiv')
    entry_regions = False
    slow = ('Det(', 'D0=0', 'zero column')

    def value(self, c): return c.g.fn('Det')(c['n'], c.a('A'))

    def scalar_partials(self, c, ver, env, ints, tvals):
        out = []
        for m, v in env.items():
            if isinstance(v, VMat) and not str(m).startswith('$'):
                for k in ints:
                    out.append(('dprod(%s,%s)' % (m, k), lambda e, m=m, k=k: c.g.fn('dprod')(e[m].t, e[k].t)))
        return out

    def custom(self, c, ver, st, s, mods, entry, ints):
        g, n = c.g, c['n']
        D = g.fn('Det')
        D0 = D(n, c.a('A'))
        out = []

        def add(lab, f):
            out.append((lab, f))
        mats = [m for m in st.env if isinstance(st.env[m], VMat) and not str(m).startswith('$')]
        ts = [m for m in st.env if isinstance(st.env[m], VT) and not str(m).startswith('$')]
        x, y = Ints('x y')
        mm = [m for m in mats if m in mods]
        from . import pool
        leaf = not pool.has_loop(ver, st, s.body)
        inc = pool.counters(ver, s)
        rs = [k for k in ints if k in inc] or list(ints)
        ps = [k for k in ints if k not in inc] or list(ints)
        for t in ts:
            if t in mods:
                add('%s=+-1' % t, lambda e, _, t=t: Or(e[t].t == 1, e[t].t == -1))
        # what may hold the sign of the row exchanges: a factor +-1, a flag, the parity of a count
        signs = [(t, lambda e, t=t: e[t].t == 1) for t in ts if t in mods]
        flags = [k for k in st.env if isinstance(st.env[k], VBool) and k in mods and not str(k).startswith('$')]
        signs += [('!%s' % k, lambda e, k=k: Not(e[k].t)) for k in flags] + [(str(k), lambda e, k=k: e[k].t) for k in flags]
        nested = bool(signs)
        if not leaf:
            signs += [('even %s' % k, lambda e, k=k: e[k].t % 2 == 0) for k in ints if k in mods and k not in inc]
        for m in mm:
            if nested or not leaf:
                # the loop that tracks the sign: determinant up to sign, or already known to be singular
                for lab, pos in signs:
                    add('Det(%s)=%s*D0' % (m, lab), lambda e, en, m=m, pos=pos: D(n, e[m].t) == If(pos(e), D0, -D0))
                    for r in rs:
                        for p in ps:
                            if r != p:
                                add('%s=%s -> Det(%s)=%s*D0' % (p, r, m, lab), lambda e, en, m=m, r=r, p=p, pos=pos: Implies(
                                    e[p].t == e[r].t, D(n, e[m].t) == If(pos(e), D0, -D0)))
                # the product of the pivots so far, with the sign
                for t in ts:
                    for r in (ints if t in mods else []):
                        dp = g.fn('dprod')
                        add('%s=+-dprod(%s,%s), Det(%s)=+-D0' % (t, m, r, m), lambda e, en, m=m, t=t, r=r: Or(
                            And(D(n, e[m].t) == D0, e[t].t == dp(e[m].t, e[r].t)),
                            And(D(n, e[m].t) == -D0, e[t].t == -dp(e[m].t, e[r].t))))
            if nested:
                pass
            elif not leaf:
                for r in rs:
                    for p in ps:
                        if r != p and r not in mods and p not in mods:
                            add('%s=%s -> Det(%s)=entry' % (p, r, m), lambda e, en, m=m, r=r, p=p: Implies(
                                e[p].t == e[r].t, D(n, e[m].t) == D(n, en[m].t)))
                add('Det(%s)=entry' % m, lambda e, en, m=m: D(n, e[m].t) == D(n, en[m].t))
            for r in ([] if leaf else ints):
                add('below diagonal zero %s cols<%s' % (m, r), lambda e, en, m=m, r=r: ForAll(
                    [x, y], Implies(And(0 <= y, y < x, x < n, y < e[r].t), sel2(e[m].t, x, y) == 0),
                    patterns=[sel2(e[m].t, x, y)]))
                for p in ints:
                    if r == p:
                        continue
                    add('%s: column %s zero in rows between %s and %s' % (m, p, p, r), lambda e, en, m=m, r=r, p=p: ForAll(
                        [x], Implies(And(e[p].t < x, x < e[r].t, x < n), sel2(e[m].t, x, e[p].t) == 0),
                        patterns=[sel2(e[m].t, x, e[p].t)]))
                    if r not in rs or p not in ps:
                        continue
                    add('%s=%s -> below diagonal zero %s' % (p, r, m), lambda e, en, m=m, r=r, p=p: Implies(
                        e[p].t == e[r].t, ForAll([x, y], Implies(And(0 <= y, y < x, x < n, y < e[r].t),
                                                                 sel2(e[m].t, x, y) == 0),
                                                 patterns=[sel2(e[m].t, x, y)])))
                    add('%s>%s -> D0=0' % (p, r), lambda e, en, r=r, p=p: Implies(e[p].t > e[r].t, D0 == 0))
                    for k in (0, 1):
                        add('%s>%s -> zero column <%s+%d' % (p, r, r, k), lambda e, en, m=m, r=r, p=p, k=k: Implies(
                            e[p].t > e[r].t, g.fn('zq')(n, e[m].t, e[r].t + k)))
        # search for a pivot: columns already passed are zero from row r down, as is the part of the current column
        if not mm:
            for m in mats:
                for r in ints:
                    for p in ints:
                        if p in mods and r != p:
                            add('%s: columns passed by %s zero from row %s' % (m, p, r), lambda e, en, m=m, r=r, p=p: ForAll(
                                [x, y], Implies(And(e[r].t <= x, x < n, en[p].t <= y, y < e[p].t), sel2(e[m].t, x, y) == 0),
                                patterns=[sel2(e[m].t, x, y)]))
                        for i in ints:
                            if i in (r, p) or not (i in mods or p in mods):
                                continue
                            add('%s: column %s zero in rows %s..%s' % (m, p, r, i),
                                lambda e, en, m=m, r=r, p=p, i=i: ForAll(
                                    [x], Implies(And(e[r].t <= x, x < e[i].t, x < n), sel2(e[m].t, x, e[p].t) == 0),
                                    patterns=[sel2(e[m].t, x, e[p].t)]))
        # one elimination step, cell by cell
        for m in mm:
            free = [k for k in ints if k in mods]
            fix = [k for k in ints if k not in mods]
            for a in ints:
                for b in ints:
                    if a != b and a not in mods and b in mods:
                        add('%s: rows outside (%s,%s) unchanged' % (m, a, b), lambda e, en, m=m, a=a, b=b: ForAll(
                            [x, y], Implies(And(inr(x, n), inr(y, n), Or(x <= e[a].t, x >= e[b].t)),
                                            sel2(e[m].t, x, y) == sel2(en[m].t, x, y)), patterns=[sel2(e[m].t, x, y)]))
                if a not in mods:
                    add('%s: columns <%s unchanged' % (m, a), lambda e, en, m=m, a=a: ForAll(
                        [x, y], Implies(And(inr(x, n), 0 <= y, y < e[a].t), sel2(e[m].t, x, y) == sel2(en[m].t, x, y)),
                        patterns=[sel2(e[m].t, x, y)]))
                    add('%s: rows other than %s unchanged' % (m, a), lambda e, en, m=m, a=a: ForAll(
                        [x, y], Implies(And(inr(x, n), inr(y, n), x != e[a].t), sel2(e[m].t, x, y) == sel2(en[m].t, x, y)),
                        patterns=[sel2(e[m].t, x, y)]))
            for j in free:
                for i in fix:
                    add('%s: row %s from %s on unchanged' % (m, i, j), lambda e, en, m=m, i=i, j=j: ForAll(
                        [y], Implies(And(y >= e[j].t, y < n), sel2(e[m].t, e[i].t, y) == sel2(en[m].t, e[i].t, y)),
                        patterns=[sel2(e[m].t, e[i].t, y)]))
                    add('%s: row %s up to %s unchanged' % (m, i, j), lambda e, en, m=m, i=i, j=j: ForAll(
                        [y], Implies(And(0 <= y, y <= e[j].t, y < n), sel2(e[m].t, e[i].t, y) == sel2(en[m].t, e[i].t, y)),
                        patterns=[sel2(e[m].t, e[i].t, y)]))
                    for r in fix:
                        for p in fix:
                            if i == r or i == p:
                                continue
                            for dl, dom in (('%s<=y<%s' % (p, j), lambda e, y, p=p, j=j: And(e[p].t <= y, y < e[j].t)),
                                            ('y<%s' % j, lambda e, y, j=j: And(0 <= y, y < e[j].t)),
                                            ('y>%s' % j, lambda e, y, j=j: And(e[j].t < y))):
                                for form, ff in lemmas.ROWOPS.items():
                                    add('%s: row %s minus multiple (%s) of row %s by column %s, %s' % (m, i, form, r, p, dl),
                                        lambda e, en, m=m, i=i, r=r, p=p, dom=dom, ff=ff: ForAll([y], Implies(
                                            And(dom(e, y), y < n),
                                            sel2(e[m].t, e[i].t, y) == sel2(en[m].t, e[i].t, y) -
                                            ff(g, sel2(en[m].t, e[i].t, e[p].t), sel2(en[m].t, e[r].t, e[p].t),
                                               sel2(en[m].t, e[r].t, y))),
                                            patterns=[sel2(e[m].t, e[i].t, y)]))
        return out

    def loop_exit(self, ver, st0, st1, mods, ints):
        """instances of det_rowop / det_swap at the exit of a loop that rewrote a matrix"""
        g, n = ver.alg, ver.ctx0['n']
        out = []
        fix = [k for k in ints if k not in mods]
        if not any(isinstance(st0.env[m], VMat) for m in mods):
            for m, v in st1.env.items():
                if isinstance(v, VMat) and not str(m).startswith('$'):
                    for r in fix:
                        out.append(lemmas.det_zpiv_body(g, n, v.t, st1.env[r].t))
            out += [g.fn('tz')(st1.env[r].t) for r in fix]
        for m in mods:
            if not isinstance(st0.env[m], VMat):
                continue
            A, B = st0.env[m].t, st1.env[m].t
            for i in fix:
                for r in fix:
                    if i == r:
                        continue
                    ti, tr = st1.env[i].t, st1.env[r].t
                    if str(i) < str(r):
                        out.append(lemmas.det_swap_body(g, n, A, B, ti, tr))
                    for p in fix:
                        if p == i:
                            continue
                        tp = st1.env[p].t
                        for form in lemmas.ROWOPS:
                            out.append(lemmas.det_rowop_body(g, n, A, B, ti, tr, sel2(A, ti, tp), sel2(A, tr, tp), form))
        return out

    def on_swap(self, ver, st, old, new, i, r):
        return [lemmas.det_swap_body(ver.alg, ver.ctx0['n'], old.t, new.t, i, r)]


# ================================================================ C08 inverse
@spec
class Inv(Spec):
    name = 'inv'
    params = (('A', 'mat', 'n', 'n'),)
    ret = ('mat', 'n', 'n')
    props = ('C08', 'C18', 'C22')
    modes = 'RN'
    groups = ('det', 'detsmall', 'minor', 'cof', 'inv')

    def throws(self, c): return c.g.fn('Det')(c['n'], c.a('A')) == 0

    def extra_post(self, c, res, ver, st):
        # instance of pow_one: a matrix is its own first power
        return [c.g.fn('isPow')(c['n'], res.t, IntVal(1), res.t)] if 'pow' in ver.spec.groups else []

    def extra_ensures(self, c, v, finals, ver):
        g, n, A = c.g, c['n'], c.a('A')
        x, y = Ints('x y')
        one = If(x == y, g.lit(1), g.lit(0))
        d1, d2 = g.fn('dot')(v.t, A, x, y, n), g.fn('dot')(A, v.t, x, y, n)
        rng = And(inr(x, n), inr(y, n))
        out = [('the result is the inverse', g.fn('isInv')(n, A, v.t))]
        if ver.spec is self and ver.inline_stack == [] and ver.checking:
            out += [('result times operand is the identity', ForAll([x, y], Implies(rng, d1 == one), patterns=[d1])),
                    ('operand times result is the identity', ForAll([x, y], Implies(rng, d2 == one), patterns=[d2]))]
        return out

    def exit_facts(self, c, v, ver, st):
        # the cells of a small constant matrix, one by one
        g, n, A = c.g, c['n'], c.a('A')
        ns = z3.simplify(n)
        out = [Implies(g.fn('isInv')(n, A, v.t), BoolVal(True))]
        if z3.is_int_value(ns) and ns.as_long() <= 3:
            k = ns.as_long()
            # ensures proves isInv: give the solver the cell equalities as intermediate goals
            for x in range(k):
                for y in range(k):
                    goal = sel2(v.t, x, y) == g.div(g.fn('cof')(n, A, IntVal(y), IntVal(x)), g.fn('Det')(n, A))
                    ver.oblige(st, goal, 'assert', ver.func.line, 'entry (%d,%d) is cofactor over determinant' % (x, y))
                    out.append(goal)
        return out

    def cell_targets(self, c):
        g, n, A = c.g, c['n'], c.a('A')
        D = g.fn('Det')(n, A)
        return [('cofactors', n, n, lambda x, y: g.fn('cof')(n, A, x, y)),
                ('adjugate', n, n, lambda x, y: g.fn('cof')(n, A, y, x)),
                ('inverse', n, n, lambda x, y: g.div(g.fn('cof')(n, A, y, x), D))]


# ================================================================ C09 LU
@spec
class LU(Spec):
    name = 'lu'
    params = (('A', 'mat', 'n', 'n'),)
    ret = ('pair', ('mat', 'n', 'n'), ('mat', 'n', 'n'))
    props = ('C09', 'C18')
    modes = 'R'
    groups = ('dot', 'dotc', 'lu')
    instances = ('dot_congr',)

    def throws(self, c): return c.g.fn('lumin')(c['n'], c.a('A'))

    def extra_ensures(self, c, v, finals, ver):
        g, n = c.g, c['n']
        L, U = v.a.t, v.b.t
        x, y = Ints('x y')
        k = Int('k')
        return [('L is lower triangular with unit diagonal',
                 cells(c, L, n, n, lambda x, y: If(x == y, g.lit(1), g.lit(0)), extra=lambda x, y: x <= y)),
                ('U is upper triangular', cells(c, U, n, n, lambda x, y: g.lit(0), extra=lambda x, y: x > y)),
                ('the diagonal of U is non-zero', ForAll([k], Implies(inr(k, n), sel2(U, k, k) != 0), patterns=[sel2(U, k, k)])),
                ('L times U is the matrix', ForAll([x, y], Implies(And(inr(x, n), inr(y, n)), g.fn('dot')(L, U, x, y, n) ==
                                                                   sel2(c.a('A'), x, y)),
                                                   patterns=[g.fn('dot')(L, U, x, y, n)]))]

    def exit_facts(self, c, v, ver, st):
        # name the spec factors so that e-matching can relate dot(L,U) to dot(LL,UU)
        g, n, A = c.g, c['n'], c.a('A')
        x, y = Ints('x y')
        L, U = g.fn('LL')(n, A), g.fn('UU')(n, A)
        d = g.fn('dot')(v.a.t, v.b.t, x, y, n)
        # instances of dot_congr (proved): stated with an explicit trigger on the code's own factors
        p = Int('p')
        return [ForAll([x, y], Or(d == g.fn('dot')(L, U, x, y, n), z3.Exists([p], And(inr(p, n), Or(
            sel2(v.a.t, x, p) != sel2(L, x, p), sel2(v.b.t, p, y) != sel2(U, p, y))))), patterns=[d])]

    def cell_targets(self, c):
        g, n, A = c.g, c['n'], c.a('A')
        return [('LL', n, n, lambda x, y: sel2(g.fn('LL')(n, A), x, y)),
                ('UU', n, n, lambda x, y: sel2(g.fn('UU')(n, A), x, y))]

    def scalar_partials(self, c, ver, env, ints, tvals):
        g, n, A = c.g, c['n'], c.a('A')
        L, U = g.fn('LL')(n, A), g.fn('UU')(n, A)
        dt = g.fn('dot')
        out = []
        for a in ints:
            for b in ints:
                for k in ints:
                    if len({a, b, k}) == 3:
                        out.append(('lu-dot(%s,%s,%s)' % (a, b, k),
                                    lambda e, a=a, b=b, k=k: dt(L, U, e[a].t, e[b].t, e[k].t)))
                        out.append(('lu-dot(%s,%s,min(%s,%s))' % (a, b, k, b),
                                    lambda e, a=a, b=b, k=k: dt(L, U, e[a].t, e[b].t, If(e[k].t <= e[b].t, e[k].t, e[b].t))))
                        out.append(('A-lu-dot(%s,%s,%s)' % (a, b, k),
                                    lambda e, a=a, b=b, k=k: sel2(A, e[a].t, e[b].t) - dt(L, U, e[a].t, e[b].t, e[k].t)))
        return out

    def custom(self, c, ver, st, s, mods, entry, ints):
        from . import pool
        g, n, A = c.g, c['n'], c.a('A')
        L, U = g.fn('LL')(n, A), g.fn('UU')(n, A)
        k = Int('k')
        out = []
        for a in ints:
            if a in mods:
                out.append(('pivots <%s non-zero' % a, lambda e, en, a=a: ForAll(
                    [k], Implies(And(0 <= k, k < e[a].t), sel2(U, k, k) != 0), patterns=[sel2(U, k, k)])))
            for b in ints:
                if a != b and (a in mods or b in mods):
                    out.append(('%s>%s -> pivot %s non-zero' % (a, b, b), lambda e, en, a=a, b=b: Implies(
                        e[a].t > e[b].t, sel2(U, e[b].t, e[b].t) != 0)))
        # elimination in place: cell (x, y) is A[x][y] minus the first min(x, k) terms, one more where the current step is done
        dt = g.fn('dot')
        if pool.subtracts(s):
            for mname, get in ver_mats(st, mods):
                for kk in ints:
                    for rl, reg in [('', None)] + [r for r in pool.regions([i for i in ints if i != kk], mods) if kk not in mods]:
                        def f(e, en, get=get, k=kk, reg=reg):
                            def val(x, y):
                                t = e[k].t if reg is None else e[k].t + If(reg(e, x, y), 1, 0)
                                return sel2(A, x, y) - dt(L, U, x, y, If(x <= t, x, t))
                            return cells(c, get(e).t, n, n, val)
                        out.append(('%s: eliminated to %s %s' % (mname, kk, rl), f))
        for mname, get in ver_mats(st, mods):
            for tl, T, tri in (('LL', L, 'lo'), ('UU', U, 'up')):
                zero = (lambda x, y: If(x == y, g.lit(1), g.lit(0))) if tl == 'LL' else (lambda x, y: g.lit(0))
                for a in ints:
                    out.append(('%s: cols<%s from %s, rest initial' % (mname, a, tl), lambda e, en, get=get, a=a, T=T, zero=zero:
                                cells(c, get(e).t, n, n, lambda x, y: If(y < e[a].t, sel2(T, x, y), zero(x, y)))))
                    for b in ints:
                        if a == b:
                            continue
                        out.append(('%s: cols<%s, col %s rows<%s from %s, rest initial' % (mname, a, a, b, tl),
                                    lambda e, en, get=get, a=a, b=b, T=T, zero=zero:
                                    cells(c, get(e).t, n, n, lambda x, y: If(Or(y < e[a].t, And(y == e[a].t, x < e[b].t)),
                                                                             sel2(T, x, y), zero(x, y)))))
        return out


# ================================================================ C10 Cholesky
@spec
class Chol(Spec):
    name = 'chol'
    params = (('A', 'mat', 'n', 'n'),)
    ret = ('mat', 'n', 'n')
    props = ('C10',)
    modes = 'R'
    groups = ('dotT', 'dotTc', 'chol')

    def requires(self, c):
        return [('the matrix is symmetric positive definite', c.g.fn('spd')(c['n'], c.a('A')))]

    def extra_ensures(self, c, v, finals, ver):
        g, n = c.g, c['n']
        x, y, k = Ints('x y k')
        d = g.fn('dotT')(v.t, v.t, x, y, n)
        return [('L is lower triangular', cells(c, v.t, n, n, lambda x, y: g.lit(0), extra=lambda x, y: x < y)),
                ('the diagonal is positive', ForAll([k], Implies(inr(k, n), sel2(v.t, k, k) > 0), patterns=[sel2(v.t, k, k)])),
                ('L times its transpose is the matrix', ForAll([x, y], Implies(And(inr(x, n), inr(y, n)), d == sel2(c.a('A'), x, y)),
                                                               patterns=[d]))]

    def exit_facts(self, c, v, ver, st):
        g, n, A = c.g, c['n'], c.a('A')
        C = g.fn('CH')(n, A)
        x, y, p = Ints('x y p')
        d = g.fn('dotT')(v.t, v.t, x, y, n)
        return [ForAll([x, y], Or(d == g.fn('dotT')(C, C, x, y, n), z3.Exists([p], And(inr(p, n), Or(
            sel2(v.t, x, p) != sel2(C, x, p), sel2(v.t, y, p) != sel2(C, y, p))))), patterns=[d])]

    def cell_targets(self, c):
        return [('CH', c['n'], c['n'], lambda x, y: sel2(c.g.fn('CH')(c['n'], c.a('A')), x, y))]

    def scalar_partials(self, c, ver, env, ints, tvals):
        g = c.g
        C = g.fn('CH')(c['n'], c.a('A'))
        dt = g.fn('dotT')
        out = []
        for a in ints:
            for b in ints:
                for k in ints:
                    if k != a and k != b:
                        out.append(('ch-dot(%s,%s,%s)' % (a, b, k), lambda e, a=a, b=b, k=k: dt(C, C, e[a].t, e[b].t, e[k].t)))
                        out.append(('A-ch-dot(%s,%s,%s)' % (a, b, k), lambda e, a=a, b=b, k=k:
                                    sel2(c.a('A'), e[a].t, e[b].t) - dt(C, C, e[a].t, e[b].t, e[k].t)))
                        if a != b:
                            out.append(('ch-dot(%s,%s,min(%s,%s))' % (a, b, k, b), lambda e, a=a, b=b, k=k:
                                        dt(C, C, e[a].t, e[b].t, If(e[k].t <= e[b].t, e[k].t, e[b].t))))
        return out

    def custom(self, c, ver, st, s, mods, entry, ints):
        g, n = c.g, c['n']
        C = g.fn('CH')(n, c.a('A'))
        out = []
        for mname, get in ver_mats(st, mods):
            for a in ints:
                out.append(('%s: rows<%s done, rest zero' % (mname, a), lambda e, en, get=get, a=a:
                            cells(c, get(e).t, n, n, lambda x, y: If(x < e[a].t, sel2(C, x, y), g.lit(0)))))
                for b in ints:
                    if a != b:
                        out.append(('%s: rows<%s, row %s cols<%s done, rest zero' % (mname, a, a, b),
                                    lambda e, en, get=get, a=a, b=b: cells(c, get(e).t, n, n, lambda x, y: If(
                                        Or(x < e[a].t, And(x == e[a].t, y < e[b].t)), sel2(C, x, y), g.lit(0)))))
                        out.append(('%s: cols<%s, col %s rows<%s done, rest zero' % (mname, a, a, b),
                                    lambda e, en, get=get, a=a, b=b: cells(c, get(e).t, n, n, lambda x, y: If(
                                        Or(y < e[a].t, And(y == e[a].t, x < e[b].t)), sel2(C, x, y), g.lit(0)))))
        return out


# ================================================================ C11 powers
@spec
class Pow(Spec):
    name = 'pow'
    params = (('A', 'mat', 'n', 'n'), ('p', 'P'))
    ret = ('mat', 'n', 'n')
    props = ('C11', 'C18')
    modes = 'R'
    groups = ('pow', 'prod')
    intkinds = tuple({'P': k} for k in ('i32', 'u32', 'i64', 'u64'))

    def throws(self, c):
        return And(c.a('p') < 0, c.g.fn('Det')(c['n'], c.a('A')) == 0)

    def measure(self, c):
        return If(c.a('p') >= 0, c.a('p'), -c.a('p'))

    def extra_ensures(self, c, v, finals, ver):
        g, n, A, p = c.g, c['n'], c.a('A'), c.a('p')
        return [('the power of the matrix', Implies(p >= 0, g.fn('isPow')(n, A, p, v.t))),
                ('the power of the inverse', Implies(p < 0, g.fn('isPowInv')(n, A, -p, v.t)))]

    def entry_facts(self, c):
        g, n, A = c.g, c['n'], c.a('A')
        return [g.fn('isPow')(n, A, IntVal(1), A)]

    def custom(self, c, ver, st, s, mods, entry, ints):
        g, n = c.g, c['n']
        mats = [m for m in st.env if isinstance(st.env[m], VMat) and not str(m).startswith('$')]
        f, h = g.fn('isPM'), g.fn('isPow')

        def mag(t): return If(t >= 0, t, -t)
        out = []
        for r in mats:
            if r not in mods:
                continue
            for k in ints:
                if k not in mods:
                    continue
                for b in mats:
                    if b == r:
                        continue
                    # repeated squaring: the powers still to be multiplied
                    out.append(('%s*%s^%s is the power' % (r, b, k), lambda e, en, r=r, b=b, k=k: f(
                        n, en[b].t if b in mods else e[b].t, e[r].t, e[b].t, mag(e[k].t), mag(en[k].t))))
                    # repeated multiplication
                    for lab, t in (('%s' % k, lambda e, en, k=k: e[k].t), ('%s-1' % k, lambda e, en, k=k: e[k].t - 1),
                                   ('%s+1' % k, lambda e, en, k=k: e[k].t + 1),
                                   ('entry-%s' % k, lambda e, en, k=k: mag(en[k].t) - mag(e[k].t)),
                                   ('entry-%s+1' % k, lambda e, en, k=k: mag(en[k].t) - mag(e[k].t) + 1)):
                        out.append(('%s=%s^(%s)' % (r, b, lab), lambda e, en, r=r, b=b, t=t: And(
                            h(n, e[b].t, IntVal(1), e[b].t), h(n, e[b].t, t(e, en), e[r].t))))
        return out


# ================================================================ C12 convolution
def az(c, x, y):
    """zero-padded entry of A"""
    return lambda k: If(And(inr(x, c['i']), inr(y, c['j'])), c.g.mul(k, sel2(c.a('A'), x, y)), c.g.lit(0))


def full(c, x, y):
    t = None
    for a in range(3):
        for b in range(3):
            e = az(c, x - a, y - b)(sel2(c.a('K'), a, b))
            t = e if t is None else c.g.add(t, e)
    return t


class Conv(Spec):
    params = (('A', 'mat', 'i', 'j'), ('K', 'mat', 3, 3))
    props = ('C12',)
    modes = 'RN'


@spec
class Conv2(Conv):
    name = 'conv2'
    ret = ('mat', 'i', 'j')

    def cell(self, c, x, y): return full(c, x + 1, y + 1)


@spec
class Conv2Full(Conv):
    name = 'conv2_full'
    ret = ('mat', lambda c: c['i'] + 2, lambda c: c['j'] + 2)

    def cell(self, c, x, y): return full(c, x, y)


@spec
class Conv2Valid(Conv):
    name = 'conv2_valid'
    ret = ('mat', lambda c: c['i'] - 2, lambda c: c['j'] - 2)

    def requires(self, c):
        return [('the matrix has at least three rows and columns', And(c['i'] >= 3, c['j'] >= 3))]

    def cell(self, c, x, y): return full(c, x + 2, y + 2)


# ================================================================ C13 statistics
AM = (('A', 'mat', 'i', 'j'),)


def pairs(ints, c=None):
    out = [(a, b) for a in list(ints) + ['0'] for b in list(ints) + ['0'] if a != b]
    if getattr(c, 'flat', False):
        # a flattened index and the row and column it stands for
        for k in ints:
            for d in ('j', 'i'):
                out.append((Flat(k, d, c[d], True), Flat(k, d, c[d], False)))
    return out


class Flat(str):
    def __new__(cls, k, d, t, quotient):
        o = str.__new__(cls, '%s%s%s' % (k, '/' if quotient else '%', d))
        o.f = (lambda e: e[k].t / t) if quotient else (lambda e: e[k].t % t)
        return o


def iv(e, a):
    return a.f(e) if isinstance(a, Flat) else IntVal(0) if a == '0' else e[a].t


def mean_term(c):
    return c.g.div(c.g.fn('rsum')(c.a('A'), c['j'], c['i'], IntVal(0)), c.g.ofint(c['i'] * c['j']))


@spec
class Mean(Spec):
    name = 'mean'
    params = AM
    ret = 'T'
    props = ('C13',)
    groups = ('rsum', 'csum')

    def entry_facts(self, c):
        return [And(c['i'] * c['j'] >= 1, c['i'] * c['j'] <= 2 ** 48)]

    def value(self, c): return mean_term(c)

    def scalar_partials(self, c, ver, env, ints, tvals):
        out = []
        for a, b in pairs(ints, c):
            out.append(('rsum(%s,%s)' % (a, b), lambda e, a=a, b=b: c.g.fn('rsum')(c.a('A'), c['j'], iv(e, a), iv(e, b))))
            if c.g.mode != 'P':
                out.append(('csum(%s,%s)' % (a, b), lambda e, a=a, b=b: c.g.fn('csum')(c.a('A'), c['i'], iv(e, a), iv(e, b))))
        return out


@spec
class Var(Spec):
    name = 'var'
    params = AM
    ret = 'T'
    props = ('C13',)
    modes = 'RN'
    groups = ('vsum', 'cvsum')

    def entry_facts(self, c):
        return [And(c['i'] * c['j'] >= 1, c['i'] * c['j'] <= 2 ** 48)]

    def value(self, c):
        return c.g.div(c.g.fn('vsum')(c.a('A'), mean_term(c), c['j'], c['i'], IntVal(0)), c.g.ofint(c['i'] * c['j']))

    def extra_ensures(self, c, v, finals, ver):
        return [('the variance is not negative', c.g.le(c.g.lit(0), v.t))] if c.g.mode != 'P' else []

    def scalar_partials(self, c, ver, env, ints, tvals):
        out = []
        for a, b in pairs(ints, c):
            for m in tvals:
                out.append(('vsum(%s,%s,%s)' % (m, a, b), lambda e, a=a, b=b, m=m: c.g.fn('vsum')(
                    c.a('A'), e[m].t, c['j'], iv(e, a), iv(e, b))))
                out.append(('cvsum(%s,%s,%s)' % (m, a, b), lambda e, a=a, b=b, m=m: c.g.fn('cvsum')(
                    c.a('A'), e[m].t, c['i'], iv(e, a), iv(e, b))))
        return out


@spec
class Stddev(Spec):
    name = 'stddev'
    params = AM
    ret = 'T'
    props = ('C13',)
    modes = 'RN'
    groups = ('vsum', 'sqrt')

    def value(self, c):
        v = c.g.div(c.g.fn('vsum')(c.a('A'), mean_term(c), c['j'], c['i'], IntVal(0)), c.g.ofint(c['i'] * c['j']))
        return c.g.sqrt(v)


@spec
class Median(Spec):
    name = 'median'
    params = AM
    ret = 'T'
    props = ('C14',)
    modes = 'R'
    groups = ('mcnt', 'ccnt', 'rcnt', 'ost')

    def bag(self, c):
        return z3.Const('bagA', z3.ArraySort(c.g.S, z3.IntSort()))

    def entry_facts(self, c):
        z = z3.Const('z', c.g.S)
        b = self.bag(c)
        n = c['i'] * c['j']
        return [And(n >= 1, n <= 2 ** 48), n >= c['i'], n >= c['j'],
                ForAll([z], Select(b, z) == c.g.fn('mcnt')(c.a('A'), c['j'], c['i'], IntVal(0), z), patterns=[Select(b, z)])]

    def value(self, c):
        n = c['i'] * c['j']
        o = c.g.fn('ost')
        b = self.bag(c)
        return If(n % 2 == 1, o(b, n / 2), c.g.div(c.g.add(o(b, n / 2 - 1), o(b, n / 2)), c.g.lit(2)))

    def custom(self, c, ver, st, s, mods, entry, ints):
        g = c.g
        out = []
        rows = [m for m in mods if isinstance(st.env[m], VRow)]
        for m in rows:
            for a, b in pairs(ints, c):
                for fn, per in (('peq', 'j'), ('peqc', 'i')):
                    idxs = [('%s*%s+%s' % (a, per, b), lambda e, a=a, b=b, per=per: iv(e, a) * c[per] + iv(e, b))]
                    idxs += [(k, lambda e, k=k: e[k].t) for k in ints if k not in (a, b)]
                    for il, ix in idxs:
                        out.append(('%s(%s,%s,%s,%s)' % (fn, m, il, a, b), lambda e, en, m=m, a=a, b=b, fn=fn, per=per, ix=ix:
                                    g.fn(fn)(e[m].t, ix(e), c.a('A'), c[per], iv(e, a), iv(e, b))))
        for a in ints:
            out.append(('product bound %s' % a, lambda e, en, a=a: Implies(
                And(e[a].t >= 0, e[a].t <= c['i']), And(e[a].t * c['j'] <= c['i'] * c['j'], e[a].t * c['j'] >= 0,
                                                       Implies(e[a].t < c['i'], e[a].t * c['j'] + c['j'] <= c['i'] * c['j'])))))
        return out


# ================================================================ C15 histograms
@spec
class Histogram(Spec):
    name = 'histogram'
    params = AM
    ret = 'map'
    props = ('C15',)
    modes = 'R'
    groups = ('mcnt', 'ccnt')
    heap = True

    def extra_ensures(self, c, v, finals, ver):
        g = c.g
        z = z3.Const('z', g.S)
        t = g.fn('mcnt')(c.a('A'), c['j'], c['i'], IntVal(0), z)
        return [('the keys are exactly the entries', ForAll([z], Select(v.pres, z) == (t > 0), patterns=[Select(v.pres, z)])),
                ('each key has its number of occurrences', ForAll([z], Implies(Select(v.pres, z), Select(v.cnt, z) == t),
                                                                  patterns=[Select(v.cnt, z)]))]

    def custom(self, c, ver, st, s, mods, entry, ints):
        g = c.g
        z = z3.Const('z', g.S)
        out = []
        for m in mods:
            if isinstance(st.env[m], VMap):
                for a, b in pairs(ints, c):
                    for fn, per in (('mcnt', 'j'), ('ccnt', 'i')):
                        t = lambda e, a=a, b=b, fn=fn, per=per: g.fn(fn)(c.a('A'), c[per], iv(e, a), iv(e, b), z)
                        out.append(('keys=%s(%s,%s)' % (fn, a, b), lambda e, en, m=m, t=t: ForAll(
                            [z], Select(e[m].pres, z) == (t(e) > 0), patterns=[Select(e[m].pres, z)])))
                        out.append(('counts=%s(%s,%s)' % (fn, a, b), lambda e, en, m=m, t=t: ForAll(
                            [z], Implies(Select(e[m].pres, z), Select(e[m].cnt, z) == t(e)), patterns=[Select(e[m].cnt, z)])))
        return out


@spec
class CumHistogram(Spec):
    name = 'cumulative_histogram'
    params = AM
    ret = 'map'
    props = ('C15',)
    modes = 'R'
    groups = ('mcnt', 'vcnt')
    heap = True

    def extra_ensures(self, c, v, finals, ver):
        g = c.g
        z = z3.Const('z', g.S)
        t = g.fn('mcnt')(c.a('A'), c['j'], c['i'], IntVal(0), z)
        return [('the keys are exactly the entries', ForAll([z], Select(v.pres, z) == (t > 0), patterns=[Select(v.pres, z)])),
                ('each key has the number of entries up to it', ForAll(
                    [z], Implies(Select(v.pres, z), Select(v.cnt, z) == g.fn('mcntle')(c.a('A'), c['i'], c['j'], z)),
                    patterns=[Select(v.cnt, z)]))]

    def custom(self, c, ver, st, s, mods, entry, ints):
        g = c.g
        z = z3.Const('z', g.S)
        out = []
        vis = [m for m in mods if str(m).startswith('$vis:')]
        for w in vis:
            for m in mods:
                if isinstance(st.env[m], VMap):
                    out.append(('keys=visited', lambda e, en, m=m, w=w: ForAll(
                        [z], Select(e[m].pres, z) == Select(e[w].t, z), patterns=[Select(e[m].pres, z), Select(e[w].t, z)])))
                    # counts replaced in place: the visited keys have theirs, the others still have the entry's
                    out.append(('visited counts', lambda e, en, m=m, w=w: ForAll(
                        [z], Implies(And(Select(e[m].pres, z), Select(e[w].t, z)),
                                     Select(e[m].cnt, z) == g.fn('mcntle')(c.a('A'), c['i'], c['j'], z)),
                        patterns=[Select(e[m].cnt, z)])))
                    out.append(('other counts', lambda e, en, m=m, w=w: ForAll(
                        [z], Implies(Not(Select(e[w].t, z)), Select(e[m].cnt, z) == Select(en[m].cnt, z)),
                        patterns=[Select(e[m].cnt, z)])))
                    out.append(('counts<=key', lambda e, en, m=m, w=w: ForAll(
                        [z], Implies(Select(e[m].pres, z), Select(e[m].cnt, z) == g.fn('mcntle')(c.a('A'), c['i'], c['j'], z)),
                        patterns=[Select(e[m].cnt, z)])))
                if isinstance(st.env[m], VInt):
                    out.append(('sum over visited', lambda e, en, m=m, w=w: e[m].t == g.fn('vcnt')(
                        e[w].t, c.a('A'), c['i'], c['j'])))
                    out.append(('sum small', lambda e, en, m=m, w=w: e[m].t <= 2 ** 61))
        return out


# ================================================================ C16 predicates
class Pred(Spec):
    """result <=> every cell satisfies cellpred"""
    ret = 'bool'
    props = ('C16',)
    wide = None

    def allp(self, c):
        nm = '|ALL:%s|' % ':'.join(str(v.t.get_id()) for v in c.args.values())
        return z3.Const(nm, z3.BoolSort())

    def facts(self, c):
        """definition of the atom ALL"""
        ALL = self.allp(c)
        wx, wy = z3.Ints('wx? wy?')
        x, y = Ints('x y')
        r, q = c[self.rows], c[self.cols]
        pat = [sel2(v.t, x, y) for v in c.args.values() if isinstance(v, VMat)]
        rng = lambda x, y: And(inr(x, r), inr(y, q), self.where(x, y))
        return [Implies(ALL, ForAll([x, y], Implies(rng(x, y), self.cellpred(c, x, y)), patterns=pat)),
                Or(ALL, z3.Exists([x, y], And(rng(x, y), Not(self.cellpred(c, x, y)))))]

    def where(self, x, y): return BoolVal(True)

    def entry_facts(self, c): return self.facts(c)

    def extra_ensures(self, c, v, finals, ver):
        return [('true exactly when every pair of entries satisfies the relation', v.t == self.allp(c))]

    def post_facts(self, c, res, ver, st):
        return self.facts(c) + [res.t == self.allp(c)]

    def custom(self, c, ver, st, s, mods, entry, ints):
        from . import pool
        out = []
        x, y = Ints('x y')
        r, q = c[self.rows], c[self.cols]
        pat = [sel2(v.t, x, y) for v in c.args.values() if isinstance(v, VMat)]
        bools = [m for m in mods if isinstance(st.env[m], VBool) or (isinstance(st.env[m], VInt) and m not in pool.used_vars(ver, st, getattr(s, 'c', None)))]
        fl = lambda e, b: e[b].t if isinstance(e[b], VBool) else e[b].t == 0
        for rl, reg in pool.regions(ints, mods):
            f = lambda e, en, reg=reg: ForAll([x, y], Implies(And(inr(x, r), inr(y, q), self.where(x, y), reg(e, x, y)),
                                                              self.cellpred(c, x, y)), patterns=pat)
            out.append(('%s satisfied' % rl, f))
            for b in bools:
                out.append(('%s -> %s satisfied' % (b, rl), lambda e, en, f=f, b=b: Implies(fl(e, b), f(e, en))))
                out.append(('not %s -> %s satisfied' % (b, rl), lambda e, en, f=f, b=b: Implies(Not(fl(e, b)), f(e, en))))
        for b in bools:
            out.append(('not %s -> not ALL' % b, lambda e, en, b=b: Or(fl(e, b), Not(self.allp(c)))))
            out.append(('%s -> not ALL' % b, lambda e, en, b=b: Or(Not(fl(e, b)), Not(self.allp(c)))))
        return out


@spec
class Compare(Pred):
    name = 'compare'
    params = (('A', 'mat', 'i', 'j'), ('B', 'mat', 'i', 'j'), ('eps', 'flt'))
    rows, cols = 'i', 'j'
    modes = 'P'

    def cellpred(self, c, x, y):
        g = c.g
        a, b = sel2(c.a('A'), x, y), sel2(c.a('B'), x, y)
        return Or(g.eq(a, b), g.le(g.abs(g.sub(a, b)), c.a('eps')))


@spec
class IsIdentity(Pred):
    name = 'isIdentity'
    params = (('A', 'mat', 'n', 'n'),)
    rows, cols = 'n', 'n'
    modes = 'PR'

    def cellpred(self, c, x, y):
        g = c.g
        return g.eq(sel2(c.a('A'), x, y), If(x == y, g.lit(1), g.lit(0)))


@spec
class IsSymmetric(Pred):
    name = 'isSymetric'
    params = (('A', 'mat', 'n', 'n'),)
    rows, cols = 'n', 'n'
    modes = 'PR'

    def cellpred(self, c, x, y):
        return c.g.eq(sel2(c.a('A'), x, y), sel2(c.a('A'), y, x))

    def where(self, x, y): return x > y


# ================================================================ C21 print
@spec
class Print(Spec):
    name = 'print'
    params = AM
    ret = None
    props = ('C21',)
    modes = 'P'
    groups = ('ptr',)
    outputs = True

    def out_after(self, c, t):
        return c.g.fn('ptr')(t, c.a('A'), c['j'], c['i'], IntVal(0))

    def custom(self, c, ver, st, s, mods, entry, ints):
        out = []
        for a, b in pairs(ints, c):
            out.append(('out=ptr(%s,%s)' % (a, b), lambda e, en, a=a, b=b: e['$out'].t == c.g.fn('ptr')(
                c.out0, c.a('A'), c['j'], iv(e, a), iv(e, b))))
        return out
