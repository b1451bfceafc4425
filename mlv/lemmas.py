"""Axioms and lemmas about the spec functions.  Each is stated once (for any Alg) as a closed z3 formula;
lean.py prints the mode-R statement as a Lean proposition, which must be proved in lean/Lemmas.lean."""
import z3
from z3 import And, Or, Not, Implies, If, ForAll, Exists, Int, Ints, Const, Consts, Select, Store, BoolVal, MultiPattern
from .alg import sel2, I, B

LEMMAS = {}


def lemma(group, modes='PRN'):
    def deco(f):
        LEMMAS[f.__name__] = (f, group, modes)
        return f
    return deco


def group(g, names):
    out = []
    for nm, (f, grp, modes) in LEMMAS.items():
        if grp in names and g.mode in modes:
            out.append((nm, f(g)))
    return out


def P(*ts):
    return MultiPattern(*ts) if len(ts) > 1 else ts[0]


def inr(x, n):
    return And(x >= 0, x < n)


def S2(g, names):
    return Consts(names, g.S)


def M2(g, names):
    return Consts(names, g.Mat)


# ---------------------------------------------------------------- scalar algebra
@lemma('alg', 'P')
def eadd_comm(g):
    a, b = S2(g, 'a b')
    return ForAll([a, b], g.add(a, b) == g.add(b, a), patterns=[g.add(a, b)])


@lemma('alg', 'P')
def emul_comm(g):
    a, b = S2(g, 'a b')
    return ForAll([a, b], g.mul(a, b) == g.mul(b, a), patterns=[g.mul(a, b)])


@lemma('alg', 'P')
def eadd_zero(g):
    a = Const('a', g.S)
    return ForAll([a], g.add(g.lit(0), a) == a, patterns=[g.add(g.lit(0), a)])


@lemma('alg', 'P')
def emul_one(g):
    a = Const('a', g.S)
    return ForAll([a], g.mul(g.lit(1), a) == a, patterns=[g.mul(g.lit(1), a)])


@lemma('alg', 'P')
def ediv_one(g):
    a = Const('a', g.S)
    return ForAll([a], g.div(a, g.lit(1)) == a, patterns=[g.div(a, g.lit(1))])


@lemma('alg', 'P')
def esub_zero(g):
    a = Const('a', g.S)
    return ForAll([a], g.sub(a, g.lit(0)) == a, patterns=[g.sub(a, g.lit(0))])


@lemma('alg', 'P')
def eneg_sub(g):
    a, b = S2(g, 'a b')
    return ForAll([a, b], And(g.add(a, g.neg(b)) == g.sub(a, b), g.sub(a, g.neg(b)) == g.add(a, b),
                              g.sub(g.lit(0), b) == g.neg(b), g.neg(g.sub(a, b)) == g.sub(b, a)),
                  patterns=[g.add(a, g.neg(b)), g.sub(a, g.neg(b)), P(g.sub(g.lit(0), b), g.sub(a, b)), g.neg(g.sub(a, b))])


@lemma('alg', 'P')
def eabs_def(g):
    a = Const('a', g.S)
    z, p, n = g.lit(0), g.abs(a) == a, g.abs(a) == g.neg(a)
    return ForAll([a], And(If(g.lt(a, z), n, p), If(g.lt(z, a), p, n), If(g.le(a, z), n, p), If(g.le(z, a), p, n)),
                  patterns=[g.abs(a)])


@lemma('alg', 'P')
def eeq_symm(g):
    a, b = S2(g, 'a b')
    return ForAll([a, b], g.eq(a, b) == g.eq(b, a), patterns=[g.eq(a, b)])


@lemma('alg', 'P')
def eabs_sub(g):
    a, b = S2(g, 'a b')
    return ForAll([a, b], g.abs(g.sub(a, b)) == g.abs(g.sub(b, a)), patterns=[g.abs(g.sub(a, b))])


@lemma('alg', 'R')
def rmul_comm(g):
    a, b = S2(g, 'a b')
    return ForAll([a, b], g.mul(a, b) == g.mul(b, a), patterns=[g.mul(a, b)])


@lemma('alg', 'R')
def rmul_zero(g):
    a, b = S2(g, 'a b')
    return ForAll([a, b], Implies(a == 0, g.mul(a, b) == 0), patterns=[g.mul(a, b)])


@lemma('alg', 'R')
def rmul_one(g):
    a, b = S2(g, 'a b')
    return ForAll([a, b], And(Implies(a == 1, g.mul(a, b) == b), Implies(a == -1, g.mul(a, b) == -b)),
                  patterns=[g.mul(a, b)])


@lemma('neg', 'R')
def rmul_neg(g):
    a, b, c = S2(g, 'a b c')
    return ForAll([a, b, c], Implies(a == -c, g.mul(a, b) == -g.mul(c, b)), patterns=[P(g.mul(a, b), g.mul(c, b))])


@lemma('alg', 'R')
def rmul_sq(g):
    a, = S2(g, 'a '.strip()) if False else [Const('a', g.S)]
    return ForAll([a], g.mul(a, a) >= 0, patterns=[g.mul(a, a)])


@lemma('alg', 'R')
def rdiv_unit(g):
    a, b = S2(g, 'a b')
    return ForAll([a, b], And(Implies(b == 1, g.div(a, b) == a), Implies(b == -1, g.div(a, b) == -a),
                              Implies(a == 0, g.div(a, b) == 0)), patterns=[g.div(a, b)])


@lemma('alg', 'R')
def rdiv_cancel(g):
    a, b = S2(g, 'a b')
    return ForAll([a, b], Implies(b != 0, g.mul(g.div(a, b), b) == a), patterns=[g.mul(g.div(a, b), b)])


@lemma('alg', 'R')
def rmul_div(g):
    a, b = S2(g, 'a b')
    return ForAll([a, b], Implies(b != 0, g.div(g.mul(a, b), b) == a), patterns=[g.div(g.mul(a, b), b)])


@lemma('alg', 'R')
def rdiv_nonneg(g):
    a, b = S2(g, 'a b')
    return ForAll([a, b], Implies(And(a >= 0, b > 0), g.div(a, b) >= 0), patterns=[g.div(a, b)])


@lemma('alg', 'P')
def eofint_pos(g):
    k = Int('k')
    t = g.ofint(k)
    return ForAll([k], Implies(And(k >= 1, k <= 2 ** 48), Not(g.eq(t, g.lit(0)))), patterns=[t])


@lemma('sqrt', 'RN')
def sqrt_nonneg(g):
    a = Const('a', g.S)
    return ForAll([a], Implies(a >= 0, And(g.sqrt(a) >= 0, g.mul(g.sqrt(a), g.sqrt(a)) == a)), patterns=[g.sqrt(a)])


# ---------------------------------------------------------------- dot products
@lemma('dot')
def dot_base(g):
    A, Bm = M2(g, 'A B')
    i, j, k = Ints('i j k')
    d = g.fn('dot')(A, Bm, i, j, k)
    return ForAll([A, Bm, i, j, k], Implies(k <= 0, d == g.lit(0)), patterns=[d])


@lemma('dot')
def dot_step(g):
    A, Bm = M2(g, 'A B')
    i, j, k = Ints('i j k')
    d = g.fn('dot')
    return ForAll([A, Bm, i, j, k], Implies(k >= 0, d(A, Bm, i, j, k + 1) ==
                                            g.add(d(A, Bm, i, j, k), g.mul(sel2(A, i, k), sel2(Bm, k, j)))),
                  patterns=[P(d(A, Bm, i, j, k), g.tick(k))])


@lemma('dot')
def dot_one(g):
    A, Bm = M2(g, 'A B')
    i, j, k = Ints('i j k')
    d = g.fn('dot')(A, Bm, i, j, k)
    return ForAll([A, Bm, i, j, k], Implies(k == 1, d == g.add(g.lit(0), g.mul(sel2(A, i, 0), sel2(Bm, 0, j)))), patterns=[d])


@lemma('dotc')
def dot_congr(g):
    A, Bm, C, D = M2(g, 'A B C D')
    i, j, k, p = Ints('i j k p')
    d = g.fn('dot')
    return ForAll([A, Bm, C, D, i, j, k],
                  Or(d(A, Bm, i, j, k) == d(C, D, i, j, k),
                     Exists([p], And(inr(p, k), Or(sel2(A, i, p) != sel2(C, i, p), sel2(Bm, p, j) != sel2(D, p, j))))),
                  patterns=[P(d(A, Bm, i, j, k), d(C, D, i, j, k))])


@lemma('dotT')
def dotT_base(g):
    A, Bm = M2(g, 'A B')
    i, j, k = Ints('i j k')
    d = g.fn('dotT')(A, Bm, i, j, k)
    return ForAll([A, Bm, i, j, k], Implies(k <= 0, d == g.lit(0)), patterns=[d])


@lemma('dotT')
def dotT_step(g):
    A, Bm = M2(g, 'A B')
    i, j, k = Ints('i j k')
    d = g.fn('dotT')
    return ForAll([A, Bm, i, j, k], Implies(k >= 0, d(A, Bm, i, j, k + 1) ==
                                            g.add(d(A, Bm, i, j, k), g.mul(sel2(A, i, k), sel2(Bm, j, k)))),
                  patterns=[P(d(A, Bm, i, j, k), g.tick(k))])


@lemma('dotT')
def dotT_one(g):
    A, Bm = M2(g, 'A B')
    i, j, k = Ints('i j k')
    d = g.fn('dotT')(A, Bm, i, j, k)
    return ForAll([A, Bm, i, j, k], Implies(k == 1, d == g.add(g.lit(0), g.mul(sel2(A, i, 0), sel2(Bm, j, 0)))), patterns=[d])


@lemma('dotTc', 'RN')
def dotT_congr(g):
    A, Bm, C, D = M2(g, 'A B C D')
    i, j, k, p = Ints('i j k p')
    d = g.fn('dotT')
    return ForAll([A, Bm, C, D, i, j, k],
                  Or(d(A, Bm, i, j, k) == d(C, D, i, j, k),
                     Exists([p], And(inr(p, k), Or(sel2(A, i, p) != sel2(C, i, p), sel2(Bm, j, p) != sel2(D, j, p))))),
                  patterns=[P(d(A, Bm, i, j, k), d(C, D, i, j, k))])


# ---------------------------------------------------------------- determinant
@lemma('det', 'RN')
def det_0(g):
    A = Const('A', g.Mat)
    return ForAll([A], g.fn('Det')(0, A) == 1, patterns=[g.fn('Det')(0, A)])


@lemma('detsmall', 'RN')
def det_1(g):
    A = Const('A', g.Mat)
    return ForAll([A], g.fn('Det')(1, A) == sel2(A, 0, 0), patterns=[g.fn('Det')(1, A)])


@lemma('detsmall', 'RN')
def det_2(g):
    A = Const('A', g.Mat)
    D = g.fn('Det')(2, A)
    return ForAll([A], D == g.mul(sel2(A, 0, 0), sel2(A, 1, 1)) - g.mul(sel2(A, 0, 1), sel2(A, 1, 0)), patterns=[D])


@lemma('detsmall', 'RN')
def det_3(g):
    A = Const('A', g.Mat)
    D = g.fn('Det')(3, A)

    def m(x, y, z):
        return g.mul(g.mul(sel2(A, 0, x), sel2(A, 1, y)), sel2(A, 2, z))
    # same association as products of entries taken row by row
    return ForAll([A], D == m(0, 1, 2) + m(1, 2, 0) + m(2, 0, 1) - m(2, 1, 0) - m(1, 0, 2) - m(0, 2, 1), patterns=[D])


@lemma('det', 'RN')
def det_congr(g):
    A, Bm = M2(g, 'A B')
    n, x, y = Ints('n x y')
    D = g.fn('Det')
    return ForAll([n, A, Bm], Or(D(n, A) == D(n, Bm),
                                 Exists([x, y], And(inr(x, n), inr(y, n), sel2(A, x, y) != sel2(Bm, x, y)))),
                  patterns=[P(D(n, A), D(n, Bm))])


def det_swap_body(g, n, A, Bm, i, r):
    """B is A with rows i and r exchanged"""
    D = g.fn('Det')
    x, y = Ints('x y')
    return Implies(And(inr(i, n), inr(r, n), i != r),
                   Or(D(n, Bm) == -D(n, A),
                      Exists([x, y], And(inr(x, n), inr(y, n),
                                         sel2(Bm, x, y) != sel2(A, If(x == i, r, If(x == r, i, x)), y)))))


@lemma('inst', 'RN')
def det_swap(g):
    A, Bm = M2(g, 'A B')
    n, i, r = Ints('n i r')
    return ForAll([n, A, Bm, i, r], det_swap_body(g, n, A, Bm, i, r))


ROWOPS = {'mul-div': lambda g, a, d, t: g.mul(g.div(a, d), t),
          'div-mul': lambda g, a, d, t: g.div(g.mul(a, t), d),
          'mul-quot': lambda g, a, d, t: g.mul(a, g.div(t, d))}


def det_rowop_body(g, n, A, Bm, i, r, a, d, form):
    """B is A with a/d times row r subtracted from row i"""
    D = g.fn('Det')
    x, y = Ints('x y')
    f = ROWOPS[form]
    return Implies(And(inr(i, n), inr(r, n), i != r),
                   Or(D(n, Bm) == D(n, A),
                      Exists([x, y], And(inr(x, n), inr(y, n),
                                         sel2(Bm, x, y) != If(x == i, sel2(A, i, y) - f(g, a, d, sel2(A, r, y)),
                                                              sel2(A, x, y))))))


def _rowop(form):
    def f(g):
        A, Bm = M2(g, 'A B')
        n, i, r = Ints('n i r')
        a, d = Consts('a d', g.S)
        return ForAll([n, A, Bm, i, r, a, d], det_rowop_body(g, n, A, Bm, i, r, a, d, form))
    return f


for _k, _f in (('det_rowop', 'mul-div'), ('det_rowop2', 'div-mul'), ('det_rowop3', 'mul-quot')):
    LEMMAS[_k] = (_rowop(_f), 'inst', 'RN')


@lemma('det', 'RN')
def det_triang(g):
    A = Const('A', g.Mat)
    n, x, y = Ints('n x y')
    D = g.fn('Det')
    return ForAll([n, A], Or(D(n, A) == g.fn('dprod')(A, n),
                             Exists([x, y], And(0 <= y, y < x, x < n, sel2(A, x, y) != 0))),
                  patterns=[P(D(n, A), g.fn('dprod')(A, n))])


def det_zpiv_body(g, n, A, r):
    """zero below the diagonal in the columns before r, and column r zero from the diagonal down"""
    D = g.fn('Det')
    x, y = Ints('x y')
    return Implies(inr(r, n),
                   Or(D(n, A) == 0, Exists([x, y], And(0 <= y, y < x, x < n, y < r, sel2(A, x, y) != 0)),
                      Exists([x], And(r <= x, x < n, sel2(A, x, r) != 0))))


@lemma('inst', 'RN')
def det_zpiv(g):
    A = Const('A', g.Mat)
    n, r = Ints('n r')
    return ForAll([n, A, r], det_zpiv_body(g, n, A, r))


@lemma('det', 'RN')
def dprod_base(g):
    A = Const('A', g.Mat)
    k = Int('k')
    d = g.fn('dprod')
    return ForAll([A, k], Implies(k <= 0, d(A, k) == 1), patterns=[d(A, k)])


@lemma('det', 'RN')
def dprod_step(g):
    A = Const('A', g.Mat)
    k = Int('k')
    d = g.fn('dprod')
    return ForAll([A, k], Implies(k >= 0, d(A, k + 1) == g.mul(d(A, k), sel2(A, k, k))), patterns=[P(d(A, k), g.tick(k))])


@lemma('det', 'RN')
def dprod_one(g):
    A = Const('A', g.Mat)
    k = Int('k')
    d = g.fn('dprod')
    return ForAll([A, k], Implies(k == 1, d(A, k) == sel2(A, 0, 0)), patterns=[d(A, k)])


@lemma('det', 'RN')
def dprod_prev(g):
    A = Const('A', g.Mat)
    k, m = Ints('k m')
    d = g.fn('dprod')
    return ForAll([A, k, m], Implies(And(k >= 0, m == k + 1), d(A, m) == g.mul(d(A, k), sel2(A, k, k))),
                  patterns=[P(d(A, m), g.tick(k))])


@lemma('det', 'RN')
def dprod_congr(g):
    A, Bm = M2(g, 'A B')
    k, x = Ints('k x')
    d = g.fn('dprod')
    return ForAll([A, Bm, k], Or(d(A, k) == d(Bm, k), Exists([x], And(inr(x, k), sel2(A, x, x) != sel2(Bm, x, x)))),
                  patterns=[P(d(A, k), d(Bm, k))])


@lemma('det', 'RN')
def dprod_zero(g):
    A = Const('A', g.Mat)
    k, q = Ints('k q')
    d = g.fn('dprod')
    return ForAll([A, k, q], Implies(And(inr(q, k), sel2(A, q, q) == 0), d(A, k) == 0), patterns=[P(d(A, k), g.fn('tz')(q))])


@lemma('det', 'RN')
def zq_intro(g):
    A = Const('A', g.Mat)
    n, p, q, x = Ints('n p q x')
    z = g.fn('zq')
    return ForAll([n, A, p, q], Implies(And(inr(q, p), q < n),
                  Or(z(n, A, p), Exists([x], And(q <= x, x < n, sel2(A, x, q) != 0)))),
                  patterns=[P(z(n, A, p), g.fn('tz')(q))])


@lemma('det', 'RN')
def zq_elim(g):
    A = Const('A', g.Mat)
    n, p, q, x = Ints('n p q x')
    z = g.fn('zq')
    return ForAll([n, A, p], Implies(z(n, A, p), Exists([q], And(
        inr(q, p), q < n, g.fn('tz')(q), sel2(A, q, q) == 0,
        ForAll([x], Implies(And(q <= x, x < n), sel2(A, x, q) == 0), patterns=[sel2(A, x, q)])))),
        patterns=[z(n, A, p)])


# ---------------------------------------------------------------- minors, cofactors, inverse
@lemma('minor')
def minor_cell(g):
    A = Const('A', g.Mat)
    i, j, x, y = Ints('i j x y')
    m = sel2(g.fn('MINOR')(A, i, j), x, y)
    return ForAll([A, i, j, x, y], m == sel2(A, x + If(x >= i, 1, 0), y + If(y >= j, 1, 0)), patterns=[m])


@lemma('cof', 'RN')
def cof_def(g):
    A = Const('A', g.Mat)
    n, i, j = Ints('n i j')
    c = g.fn('cof')(n, A, i, j)
    D = g.fn('Det')(n - 1, g.fn('MINOR')(A, i, j))
    return ForAll([n, A, i, j], c == If((i + j) % 2 == 0, D, -D), patterns=[c])


@lemma('cof', 'RN')
def inv_intro(g):
    A, R = M2(g, 'A R')
    n, x, y = Ints('n x y')
    D = g.fn('Det')(n, A)
    v = g.fn('isInv')(n, A, R)
    return ForAll([n, A, R], Implies(And(n >= 1, D != 0), Or(v, Exists([x, y], And(
        inr(x, n), inr(y, n), sel2(R, x, y) != g.div(g.fn('cof')(n, A, y, x), D))))), patterns=[v])


@lemma('inv', 'RN')
def inv_left(g):
    A, R = M2(g, 'A R')
    n, x, y = Ints('n x y')
    d = g.fn('dot')(R, A, x, y, n)
    v = g.fn('isInv')(n, A, R)
    return ForAll([n, A, R, x, y], Implies(And(v, inr(x, n), inr(y, n)), d == If(x == y, g.lit(1), g.lit(0))),
                  patterns=[P(v, d)])


@lemma('inv', 'RN')
def inv_right(g):
    A, R = M2(g, 'A R')
    n, x, y = Ints('n x y')
    d = g.fn('dot')(A, R, x, y, n)
    v = g.fn('isInv')(n, A, R)
    return ForAll([n, A, R, x, y], Implies(And(v, inr(x, n), inr(y, n)), d == If(x == y, g.lit(1), g.lit(0))),
                  patterns=[P(v, d)])


# ---------------------------------------------------------------- powers
@lemma('pow', 'RN')
def pow_zero(g):
    A, R = M2(g, 'A R')
    n, x, y = Ints('n x y')
    v = g.fn('isPow')(n, A, 0, R)
    return ForAll([n, A, R], Or(v, Exists([x, y], And(inr(x, n), inr(y, n), sel2(R, x, y) != If(x == y, g.lit(1), g.lit(0))))),
                  patterns=[g.fn('isPow')(n, A, 0, R)])


@lemma('pow', 'RN')
def pow_one(g):
    A, R = M2(g, 'A R')
    n, x, y = Ints('n x y')
    v = g.fn('isPow')(n, A, 1, R)
    return ForAll([n, A, R], Or(v, Exists([x, y], And(inr(x, n), inr(y, n), sel2(R, x, y) != sel2(A, x, y)))),
                  patterns=[v])


@lemma('pow', 'RN')
def pow_add(g):
    A, M, N, R = M2(g, 'A M N R')
    n, a, b = Ints('n a b')
    f = g.fn('isPow')
    pr = g.fn('isProd')(n, M, N, R)
    return ForAll([n, A, M, N, R, a, b], Implies(And(f(n, A, a, M), f(n, A, b, N), a >= 0, b >= 0, pr), f(n, A, a + b, R)),
                  patterns=[P(f(n, A, a, M), f(n, A, b, N), pr)])


@lemma('pow', 'RN')
def pow_inv(g):
    A, M, R = M2(g, 'A M R')
    n, k = Ints('n k')
    f, h, v = g.fn('isPow'), g.fn('isPowInv'), g.fn('isInv')
    return ForAll([n, A, M, R, k], Implies(And(v(n, A, M), f(n, M, k, R)), h(n, A, k, R)),
                  patterns=[P(v(n, A, M), f(n, M, k, R))])


@lemma('pow', 'RN')
def pm_init(g):
    Bm, R, A = M2(g, 'B R A')
    n, p, q, x, y = Ints('n p q x y')
    v = g.fn('isPM')(n, Bm, R, A, p, q)
    return ForAll([n, Bm, R, A, p, q], Or(v, p != q, p < 0,
                  Exists([x, y], And(inr(x, n), inr(y, n), sel2(R, x, y) != If(x == y, g.lit(1), g.lit(0)))),
                  Exists([x, y], And(inr(x, n), inr(y, n), sel2(A, x, y) != sel2(Bm, x, y)))), patterns=[v])


@lemma('pow', 'RN')
def pm_step(g):
    """one step of repeated squaring, or of repeated multiplication"""
    Bm, R, A, R2, A2 = M2(g, 'B R A R2 A2')
    n, p, q, P0 = Ints('n p q P')
    f, pr = g.fn('isPM'), g.fn('isProd')
    mulR = Or(pr(n, R, A, R2), pr(n, A, R, R2))
    half = And(q == p / 2, If(p % 2 == 0, R2 == R, mulR), Or(pr(n, A, A, A2), And(q == 0, A2 == A)))
    less = And(q == p - 1, q >= 0, mulR, A2 == A)
    return ForAll([n, Bm, R, A, R2, A2, p, q, P0], Implies(And(f(n, Bm, R, A, p, P0), Or(half, less)), f(n, Bm, R2, A2, q, P0)),
                  patterns=[P(f(n, Bm, R, A, p, P0), f(n, Bm, R2, A2, q, P0))])


@lemma('pow', 'RN')
def pm_done(g):
    Bm, R, A = M2(g, 'B R A')
    n, p, P0 = Ints('n p P')
    v = g.fn('isPM')(n, Bm, R, A, p, P0)
    return ForAll([n, Bm, R, A, p, P0], Implies(And(v, p == 0), g.fn('isPow')(n, Bm, P0, R)), patterns=[v])


@lemma('prod', 'RN')
def prod_intro(g):
    A, M, R = M2(g, 'A M R')
    n, x, y = Ints('n x y')
    pr = g.fn('isProd')(n, A, M, R)
    return ForAll([n, A, M, R], Or(pr, Exists([x, y], And(inr(x, n), inr(y, n), sel2(R, x, y) != g.fn('dot')(A, M, x, y, n)))),
                  patterns=[pr])


# ---------------------------------------------------------------- LU
def _lu(g, n, A):
    return g.fn('LL')(n, A), g.fn('UU')(n, A)


@lemma('lu', 'RN')
def uu_def(g):
    A = Const('A', g.Mat)
    n, x, y = Ints('n x y')
    L, U = _lu(g, n, A)
    return ForAll([n, A, x, y], Implies(And(0 <= x, x <= y, y < n),
                  sel2(U, x, y) == sel2(A, x, y) - g.fn('dot')(L, U, x, y, x)), patterns=[sel2(U, x, y)])


@lemma('lu', 'RN')
def uu_low(g):
    A = Const('A', g.Mat)
    n, x, y = Ints('n x y')
    L, U = _lu(g, n, A)
    return ForAll([n, A, x, y], Implies(And(0 <= y, y < x, x < n), sel2(U, x, y) == 0), patterns=[sel2(U, x, y)])


@lemma('lu', 'RN')
def ll_def(g):
    A = Const('A', g.Mat)
    n, x, y = Ints('n x y')
    L, U = _lu(g, n, A)
    return ForAll([n, A, x, y], Implies(And(0 <= y, y < x, x < n),
                  sel2(L, x, y) == g.div(sel2(A, x, y) - g.fn('dot')(L, U, x, y, y), sel2(U, y, y))),
                  patterns=[sel2(L, x, y)])


@lemma('lu', 'RN')
def ll_up(g):
    A = Const('A', g.Mat)
    n, x, y = Ints('n x y')
    L, U = _lu(g, n, A)
    return ForAll([n, A, x, y], Implies(And(0 <= x, x <= y, y < n), sel2(L, x, y) == If(x == y, g.lit(1), g.lit(0))),
                  patterns=[sel2(L, x, y)])


@lemma('lu', 'RN')
def lu_prod(g):
    A = Const('A', g.Mat)
    n, x, y, k = Ints('n x y k')
    L, U = _lu(g, n, A)
    d = g.fn('dot')(L, U, x, y, n)
    return ForAll([n, A, x, y], Implies(And(inr(x, n), inr(y, n)),
                  Or(d == sel2(A, x, y), Exists([k], And(inr(k, n), sel2(U, k, k) == 0)))), patterns=[d])


@lemma('lu', 'RN')
def lu_elim(g):
    A = Const('A', g.Mat)
    n, x, y, k = Ints('n x y k')
    L, U = _lu(g, n, A)
    d = g.fn('dot')(L, U, x, y, k)
    return ForAll([n, A, x, y, k], Implies(And(0 <= y, y < x, x < n, y < k), Or(sel2(U, y, y) == 0, d == sel2(A, x, y))), patterns=[d])


@lemma('lu', 'RN')
def lumin_intro(g):
    A = Const('A', g.Mat)
    n, k = Ints('n k')
    L, U = _lu(g, n, A)
    return ForAll([n, A, k], Implies(And(inr(k, n), sel2(U, k, k) == 0), g.fn('lumin')(n, A)), patterns=[sel2(U, k, k)])


@lemma('lu', 'RN')
def lumin_elim(g):
    A = Const('A', g.Mat)
    n, k = Ints('n k')
    L, U = _lu(g, n, A)
    m = g.fn('lumin')(n, A)
    return ForAll([n, A], Implies(m, Exists([k], And(inr(k, n), g.tick(k), sel2(U, k, k) == 0))), patterns=[m])


# ---------------------------------------------------------------- Cholesky
@lemma('chol', 'RN')
def ch_up(g):
    A = Const('A', g.Mat)
    n, x, y = Ints('n x y')
    C = g.fn('CH')(n, A)
    return ForAll([n, A, x, y], Implies(And(0 <= x, x < y, y < n), sel2(C, x, y) == 0), patterns=[sel2(C, x, y)])


@lemma('chol', 'RN')
def ch_diag(g):
    A = Const('A', g.Mat)
    n, x = Ints('n x')
    C = g.fn('CH')(n, A)
    return ForAll([n, A, x], Implies(inr(x, n), sel2(C, x, x) == g.sqrt(sel2(A, x, x) - g.fn('dotT')(C, C, x, x, x))),
                  patterns=[sel2(C, x, x)])


@lemma('chol', 'RN')
def ch_low(g):
    A = Const('A', g.Mat)
    n, x, y = Ints('n x y')
    C = g.fn('CH')(n, A)
    return ForAll([n, A, x, y], Implies(And(0 <= y, y < x, x < n),
                  sel2(C, x, y) == g.div(sel2(A, x, y) - g.fn('dotT')(C, C, x, y, y), sel2(C, y, y))),
                  patterns=[sel2(C, x, y)])


@lemma('chol', 'RN')
def ch_pos(g):
    A = Const('A', g.Mat)
    n, x = Ints('n x')
    C = g.fn('CH')(n, A)
    return ForAll([n, A, x], Implies(And(g.fn('spd')(n, A), inr(x, n)),
                  And(sel2(C, x, x) > 0, sel2(A, x, x) - g.fn('dotT')(C, C, x, x, x) > 0)), patterns=[sel2(C, x, x)])


@lemma('chol', 'RN')
def ch_prod(g):
    A = Const('A', g.Mat)
    n, x, y = Ints('n x y')
    C = g.fn('CH')(n, A)
    d = g.fn('dotT')(C, C, x, y, n)
    return ForAll([n, A, x, y], Implies(And(g.fn('spd')(n, A), inr(x, n), inr(y, n)), d == sel2(A, x, y)), patterns=[d])


# ---------------------------------------------------------------- sums over a whole matrix
def _mk_sum(name, term, extra, rowmajor, comment):
    """three definitional axioms: empty, next cell, next row (column)"""
    def app(g, A, ex, c, r, k):
        return g.fn(name)(A, *ex, c, r, k)
    return app


def _sum_lemmas(name, modes, nex, rowmajor, term, zero):
    def exv(g):
        return [Const('m', g.S)] if nex else []

    def base(g):
        A = Const('A', g.Mat)
        c, r, k = Ints('c r k')
        ex = exv(g)
        t = g.fn(name)(A, *ex, c, r, k)
        return ForAll([A] + ex + [c, r, k], Implies(And(r == 0, k == 0), t == zero(g)), patterns=[t])

    def cell(g):
        A = Const('A', g.Mat)
        c, r, k = Ints('c r k')
        ex = exv(g)
        f = g.fn(name)
        a = sel2(A, r, k) if rowmajor else sel2(A, k, r)
        return ForAll([A] + ex + [c, r, k], Implies(And(r >= 0, k >= 0),
                      f(A, *ex, c, r, k + 1) == term(g, f(A, *ex, c, r, k), a, ex)),
                      patterns=[P(f(A, *ex, c, r, k), g.tick(k))])

    def line(g):
        A = Const('A', g.Mat)
        c, r = Ints('c r')
        ex = exv(g)
        f = g.fn(name)
        return ForAll([A] + ex + [c, r], Implies(r >= 1, f(A, *ex, c, r, 0) == f(A, *ex, c, r - 1, c)),
                      patterns=[f(A, *ex, c, r, 0)])
    for nm, fn in ((name + '_base', base), (name + '_cell', cell), (name + '_line', line)):
        LEMMAS[nm] = (fn, name, modes)


def _sq(g, acc, a, ex):
    d = g.sub(a, ex[0])
    return g.add(acc, g.mul(d, d))


_sum_lemmas('rsum', 'PRN', 0, True, lambda g, acc, a, ex: g.add(acc, a), lambda g: g.lit(0))
_sum_lemmas('csum', 'RN', 0, False, lambda g, acc, a, ex: g.add(acc, a), lambda g: g.lit(0))
_sum_lemmas('vsum', 'PRN', 1, True, _sq, lambda g: g.lit(0))
_sum_lemmas('cvsum', 'RN', 1, False, _sq, lambda g: g.lit(0))


@lemma('csum', 'RN')
def csum_rsum(g):
    A = Const('A', g.Mat)
    r, c = Ints('r c')
    t = g.fn('csum')(A, r, c, 0)
    return ForAll([A, r, c], Implies(And(r >= 0, c >= 0), t == g.fn('rsum')(A, c, r, 0)), patterns=[t])


@lemma('cvsum', 'RN')
def cvsum_vsum(g):
    A = Const('A', g.Mat)
    m = Const('m', g.S)
    r, c = Ints('r c')
    t = g.fn('cvsum')(A, m, r, c, 0)
    return ForAll([A, m, r, c], Implies(And(r >= 0, c >= 0), t == g.fn('vsum')(A, m, c, r, 0)), patterns=[t])


@lemma('vsum', 'RN')
def vsum_nonneg(g):
    A = Const('A', g.Mat)
    m = Const('m', g.S)
    c, r, k = Ints('c r k')
    t = g.fn('vsum')(A, m, c, r, k)
    return ForAll([A, m, c, r, k], Implies(And(c >= 0, r >= 0, k >= 0), t >= 0), patterns=[t])


@lemma('vsum', 'RN')
def rsum_vsum(g):
    A, M = Consts('A M', g.Mat)
    m = Const('m', g.S)
    c, r, x, y = Ints('c r x y')
    d = g.sub(sel2(A, x, y), m)
    s, t = g.fn('rsum')(M, c, r, 0), g.fn('vsum')(A, m, c, r, 0)
    return ForAll([A, M, m, c, r], Implies(And(c >= 0, r >= 0, ForAll([x, y], Implies(And(x >= 0, x < r, y >= 0, y < c),
                  sel2(M, x, y) == g.mul(d, d)))), s == t), patterns=[P(s, t)])


# ---------------------------------------------------------------- counts
def _cnt_lemmas(name, rowmajor):
    def base(g):
        A = Const('A', g.Mat)
        z = Const('z', g.S)
        c, r, k = Ints('c r k')
        t = g.fn(name)(A, c, r, k, z)
        return ForAll([A, c, r, k, z], Implies(And(r == 0, k == 0), t == 0), patterns=[t])

    def cell(g):
        A = Const('A', g.Mat)
        z = Const('z', g.S)
        c, r, k = Ints('c r k')
        f = g.fn(name)
        a = sel2(A, r, k) if rowmajor else sel2(A, k, r)
        return ForAll([A, c, r, k, z], Implies(And(r >= 0, k >= 0),
                      f(A, c, r, k + 1, z) == f(A, c, r, k, z) + If(a == z, 1, 0)),
                      patterns=[P(f(A, c, r, k, z), g.tick(k))])

    def line(g):
        A = Const('A', g.Mat)
        z = Const('z', g.S)
        c, r = Ints('c r')
        f = g.fn(name)
        return ForAll([A, c, r, z], Implies(r >= 1, f(A, c, r, 0, z) == f(A, c, r - 1, c, z)),
                      patterns=[f(A, c, r, 0, z)])

    def nonneg(g):
        A = Const('A', g.Mat)
        z = Const('z', g.S)
        c, r, k = Ints('c r k')
        t = g.fn(name)(A, c, r, k, z)
        return ForAll([A, c, r, k, z], Implies(And(c >= 0, r >= 0, k >= 0), And(t >= 0, Implies(And(c <= 2 ** 30, r <= 2 ** 30, k <= 2 ** 30), t <= 2 ** 61))), patterns=[t])
    for nm, fn in ((name + '_base', base), (name + '_cell', cell), (name + '_line', line), (name + '_nonneg', nonneg)):
        LEMMAS[nm] = (fn, name, 'RN')


_cnt_lemmas('mcnt', True)
_cnt_lemmas('ccnt', False)


@lemma('ccnt', 'RN')
def ccnt_mcnt(g):
    A = Const('A', g.Mat)
    z = Const('z', g.S)
    r, c = Ints('r c')
    t = g.fn('ccnt')(A, r, c, 0, z)
    return ForAll([A, r, c, z], Implies(And(r >= 0, c >= 0), t == g.fn('mcnt')(A, c, r, 0, z)), patterns=[t])


@lemma('mcnt', 'RN')
def mcnt_cellpos(g):
    A = Const('A', g.Mat)
    c, r, x, y = Ints('c r x y')
    t = g.fn('mcnt')(A, c, r, 0, sel2(A, x, y))
    return ForAll([A, c, r, x, y], Implies(And(inr(x, r), inr(y, c)), t >= 1), patterns=[t])


def _peq_lemmas(name, cnt, rowmajor):
    def vs(g):
        return Const('v', g.Row), Const('A', g.Mat), Const('e', g.S)

    def base(g):
        v, A, e = vs(g)
        k, c, r, s = Ints('k c r s')
        t = g.fn(name)(v, k, A, c, r, s)
        return ForAll([v, k, A, c, r, s], Implies(And(k == 0, r == 0, s == 0), t), patterns=[t])

    def step(g):
        v, A, e = vs(g)
        k, k1, k2, c, r, s, s2 = Ints('k k1 k2 c r s s2')
        f = g.fn(name)
        t1, t2 = f(v, k1, A, c, r, s), f(Store(v, k, e), k2, A, c, r, s2)
        a = sel2(A, r, s) if rowmajor else sel2(A, s, r)
        return ForAll([v, k, e, k1, k2, A, c, r, s, s2], Implies(
            And(t1, k1 == k, k2 == k + 1, s2 == s + 1, k >= 0, r >= 0, s >= 0, e == a), t2), patterns=[P(t1, t2)])

    def next(g):
        v, A, e = vs(g)
        k, k1, k2, c, r, s, r2, s2 = Ints('k k1 k2 c r s r2 s2')
        f = g.fn(name)
        t1, t2 = f(v, k1, A, c, r, s), f(Store(v, k, e), k2, A, c, r2, s2)
        a = sel2(A, r, s) if rowmajor else sel2(A, s, r)
        return ForAll([v, k, e, k1, k2, A, c, r, s, r2, s2], Implies(
            And(t1, k1 == k, k2 == k + 1, s + 1 == c, s2 == 0, r2 == r + 1, k >= 0, r >= 0, s >= 0, e == a), t2), patterns=[P(t1, t2)])

    def line(g):
        v, A, e = vs(g)
        k, k1, c, r, s, r2, s2 = Ints('k k1 c r s r2 s2')
        f = g.fn(name)
        t1, t2 = f(v, k, A, c, r, s), f(v, k1, A, c, r2, s2)
        return ForAll([v, k, k1, A, c, r, s, r2, s2], Implies(
            And(t1, k == k1, s == c, s2 == 0, r2 == r + 1, r >= 0), t2), patterns=[P(t1, t2)])

    def elim(g):
        v, A, e = vs(g)
        k, k1, c, r, s = Ints('k k1 c r s')
        z = Const('z', g.S)
        t, q = g.fn(name)(v, k, A, c, r, s), g.fn('rcnt')(v, k1, z)
        return ForAll([v, k, k1, A, c, r, s, z], Implies(And(t, k == k1), q == g.fn(cnt)(A, c, r, s, z)), patterns=[P(t, q)])
    for nm, fn in ((name + '_base', base), (name + '_step', step), (name + '_line', line), (name + '_next', next), (name + '_elim', elim)):
        LEMMAS[nm] = (fn, 'rcnt', 'RN')


_peq_lemmas('peq', 'mcnt', True)
_peq_lemmas('peqc', 'ccnt', False)


@lemma('ost', 'RN')
def ost_congr(g):
    SI = z3.ArraySort(g.S, I)
    b, d, z, k = Const('b', SI), Const('d', SI), Const('z', g.S), Int('k')
    o = g.fn('ost')
    return ForAll([b, d, k], Or(o(b, k) == o(d, k), Exists([z], Select(b, z) != Select(d, z))),
                  patterns=[P(o(b, k), o(d, k))])


@lemma('vcnt', 'RN')
def vcnt_empty(g):
    SB = z3.ArraySort(g.S, B)
    V, A = Const('V', SB), Const('A', g.Mat)
    r, c, x, y = Ints('r c x y')
    t = g.fn('vcnt')(V, A, r, c)
    return ForAll([V, A, r, c], Or(t == 0, Exists([x, y], And(inr(x, r), inr(y, c), Select(V, sel2(A, x, y))))), patterns=[t])


@lemma('vcnt', 'RN')
def vcnt_step(g):
    SB = z3.ArraySort(g.S, B)
    V, A, k = Const('V', SB), Const('A', g.Mat), Const('k', g.S)
    r, c = Ints('r c')
    f = g.fn('vcnt')
    t = f(Store(V, k, BoolVal(True)), A, r, c)
    return ForAll([V, A, k, r, c], Implies(And(Not(Select(V, k)), r >= 0, c >= 0), t == f(V, A, r, c) + g.fn('mcnt')(A, c, r, 0, k)),
                  patterns=[t, P(f(V, A, r, c), g.fn('mcntle')(A, r, c, k))])


@lemma('vcnt', 'RN')
def vcnt_bound(g):
    SB = z3.ArraySort(g.S, B)
    V, A = Const('V', SB), Const('A', g.Mat)
    r, c = Ints('r c')
    t = g.fn('vcnt')(V, A, r, c)
    return ForAll([V, A, r, c], Implies(And(0 <= r, r <= 2 ** 30, 0 <= c, c <= 2 ** 30), And(0 <= t, t <= 2 ** 60)),
                  patterns=[t])


@lemma('vcnt', 'RN')
def vcnt_le(g):
    SB = z3.ArraySort(g.S, B)
    V, A, k = Const('V', SB), Const('A', g.Mat), Const('k', g.S)
    r, c, x, y = Ints('r c x y')
    f = g.fn('vcnt')(V, A, r, c)
    t = g.fn('mcntle')(A, r, c, k)
    return ForAll([V, A, k, r, c], Or(t == f, Exists([x, y], And(inr(x, r), inr(y, c),
                  Select(V, sel2(A, x, y)) != (sel2(A, x, y) <= k)))), patterns=[P(f, t)])


# ---------------------------------------------------------------- printing
@lemma('ptr')
def ptr_base(g):
    t, A = Const('t', g.Trace), Const('A', g.Mat)
    c, r, k = Ints('c r k')
    p = g.fn('ptr')(t, A, c, r, k)
    return ForAll([t, A, c, r, k], Implies(And(r == 0, k == 0), p == t), patterns=[p])


@lemma('ptr')
def ptr_cell(g):
    t, A = Const('t', g.Trace), Const('A', g.Mat)
    c, r, k = Ints('c r k')
    f = g.fn('ptr')
    return ForAll([t, A, c, r, k], Implies(And(r >= 0, k >= 0), f(t, A, c, r, k + 1) ==
                  g.push(g.push(f(t, A, c, r, k), g.item_num(sel2(A, r, k))), g.item_chr(z3.IntVal(32)))),
                  patterns=[P(f(t, A, c, r, k), g.tick(k))])


@lemma('ptr')
def ptr_line(g):
    t, A = Const('t', g.Trace), Const('A', g.Mat)
    c, r = Ints('c r')
    f = g.fn('ptr')
    return ForAll([t, A, c, r], Implies(r >= 1, f(t, A, c, r, 0) == g.push(f(t, A, c, r - 1, c), g.item_chr(z3.IntVal(10)))),
                  patterns=[f(t, A, c, r, 0)])


# ---------------------------------------------------------------- flattened indices; used as ground instances only
@lemma('divmod', 'N')
def divmod_succ(g):
    x, y = Ints('x y')
    return ForAll([x, y], Implies(And(x >= 0, y > 0), And(
        x / y >= 0, x % y >= 0, x % y < y, x == (x / y) * y + x % y,
        If(x % y + 1 < y, And((x + 1) / y == x / y, (x + 1) % y == x % y + 1), And((x + 1) / y == x / y + 1, (x + 1) % y == 0)))))


@lemma('divmod', 'N')
def div_below(g):
    x, y, d = Ints('x y d')
    return ForAll([x, y, d], Implies(And(x >= 0, y > 0, d >= 0), And(
        Implies(x < d * y, x / y < d), (d * y) / y == d, (d * y) % y == 0)))


def ground(g, name, *args):
    """an instance of a lemma"""
    q = LEMMAS[name][0](g)
    return z3.substitute_vars(q.body(), *reversed(args))
