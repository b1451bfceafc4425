"""Element algebras and spec functions.

mode 'P'  parametric: T is an uninterpreted sort, its operations are uninterpreted
          functions (only commutativity of + and * is assumed): a proof holds bit for bit
          for every element type, IEEE floats included.
mode 'R'  T is the reals, + and - are native (linear), * and / uninterpreted with the
          axioms below (all proved in Lean).
mode 'N'  T is the reals, native nonlinear arithmetic.
"""
import z3
from z3 import (And, Or, Not, Implies, If, ForAll, Exists, Int, IntVal, RealVal, Real, Function, Const, ArraySort,
                IntSort, RealSort, BoolSort, Select, Store, K, BoolVal, MultiPattern)

I = IntSort()
B = BoolSort()


def is_num(t):
    return z3.is_rational_value(t) or z3.is_int_value(t)


class Alg:
    def __init__(self, mode):
        self.mode = mode
        self.S = S = z3.DeclareSort('Elem') if mode == 'P' else RealSort()
        self.Row = ArraySort(I, S)
        self.Mat = ArraySort(I, self.Row)
        F = Function
        self.f = {}
        self.tickf = F('tick', I, B)
        if mode == 'P':
            self.fadd, self.fsub = F('eadd', S, S, S), F('esub', S, S, S)
            self.fmul, self.fdiv = F('emul', S, S, S), F('ediv', S, S, S)
            self.fneg, self.flt = F('eneg', S, S), F('elt', S, S, B)
            self.fle, self.feq = F('ele', S, S, B), F('eeq', S, S, B)
            self.fofint = F('eofint', I, S)
            self.fofflt = F('eofflt', RealSort(), S)
        else:
            self.fmul, self.fdiv = F('rmul', S, S, S), F('rdiv', S, S, S)
        self.fabs, self.fsqrt = F('eabs', S, S), F('esqrt', S, S)
        self.ftoint = F('etoint', S, I)
        self.fnarrow = {k: F('narrow_' + k, S, S) for k in ('float', 'double')}
        self.Trace = z3.DeclareSort('Trace')
        self.Item = z3.DeclareSort('Item')
        self.push = F('push', self.Trace, self.Item, self.Trace)
        self.item_num, self.item_chr = F('item_num', S, self.Item), F('item_chr', I, self.Item)
        self._ax = None
        self.axsets = {}

    # ---- scalar operations
    def lit(self, k):
        if self.mode == 'P':
            return self.fofint(IntVal(k))
        return RealVal(k)

    def flit(self, s):
        from fractions import Fraction
        fr = Fraction(s)
        if fr.denominator == 1:
            return self.lit(fr.numerator)
        if self.mode == 'P':
            return self.fofflt(RealVal(str(fr)))
        return RealVal(str(fr))

    def ofint(self, t):
        if z3.is_int_value(t):
            return self.lit(t.as_long())
        return self.fofint(t) if self.mode == 'P' else z3.ToReal(t)

    def add(self, a, b):
        return self.fadd(a, b) if self.mode == 'P' else a + b

    def sub(self, a, b):
        return self.fsub(a, b) if self.mode == 'P' else a - b

    def neg(self, a):
        return self.fneg(a) if self.mode == 'P' else -a

    def mul(self, a, b):
        if self.mode == 'P':
            return self.fmul(a, b)
        if self.mode == 'N' or is_num(a) or is_num(b):
            return a * b
        return self.fmul(a, b)

    def div(self, a, b):
        if self.mode == 'P':
            return self.fdiv(a, b)
        if self.mode == 'N':
            return a / b
        if is_num(b) and not b.as_fraction() == 0:
            return a / b
        return self.fdiv(a, b)

    def abs(self, a):
        return self.fabs(a) if self.mode == 'P' else If(a >= 0, a, -a)

    def sqrt(self, a):
        return self.fsqrt(a)

    def lt(self, a, b):
        return self.flt(a, b) if self.mode == 'P' else a < b

    def le(self, a, b):
        return self.fle(a, b) if self.mode == 'P' else a <= b

    def eq(self, a, b):
        return self.feq(a, b) if self.mode == 'P' else a == b

    # ---- spec functions
    def fn(self, name):
        if name in self.f:
            return self.f[name]
        S, M, F = self.S, self.Mat, Function
        SI, SB = ArraySort(S, I), ArraySort(S, B)
        sig = {
            'dot': (M, M, I, I, I, S),           # sum_{p<k} A[i][p]*B[p][j]
            'dotT': (M, M, I, I, I, S),          # sum_{p<k} A[i][p]*B[j][p]
            'Det': (I, M, S),                    # determinant of the leading n x n block
            'dprod': (M, I, S),                  # product of the first k diagonal entries
            'tz': (I, B),                        # marks a column index as worth considering (always true)
            'zq': (I, M, I, B),                  # some column q < P is zero from its diagonal entry down
            'MINOR': (M, I, I, M),               # matrix without row i, column j
            'cof': (I, M, I, I, S),              # signed cofactor (n, A, i, j)
            'isInv': (I, M, M, B),               # R is the inverse of A (n x n)
            'isPow': (I, M, I, M, B),            # R is the k-th power of A
            'isPowInv': (I, M, I, M, B),         # R is the k-th power of the inverse of A
            'isPM': (I, M, M, M, I, I, B),       # R = B^a, A = B^b, a + b*p = P for some a, b (n, B, R, A, p, P)
            'isProd': (I, M, M, M, B),           # R is the product of two n x n matrices
            'LL': (I, M, M), 'UU': (I, M, M),    # Doolittle factors
            'CH': (I, M, M),                     # Cholesky factor
            'rsum': (M, I, I, I, S),             # row-major partial sum (A, cols, full rows, cells of next row)
            'csum': (M, I, I, I, S),             # column-major partial sum (A, rows, full columns, cells of next column)
            'vsum': (M, S, I, I, I, S),          # row-major partial sum of squared deviations from m
            'cvsum': (M, S, I, I, I, S),         # column-major
            'mcnt': (M, I, I, I, S, I),          # row-major partial count of cells equal to z
            'ccnt': (M, I, I, I, S, I),          # column-major partial count of cells equal to z
            'mcntle': (M, I, I, S, I),           # number of cells (rows, cols) that are <= z
            'rcnt': (self.Row, I, S, I),         # count of z among the first k entries of a row
            'peq': (self.Row, I, M, I, I, I, B),   # the first k entries of a row are, as a bag, the first r rows and s cells of A
            'peqc': (self.Row, I, M, I, I, I, B),  # ... the first r columns and s cells
            'ost': (SI, I, S),                   # k-th smallest element of a bag
            'vcnt': (SB, M, I, I, I),            # number of cells (rows, cols) whose value is in the set
            'lumin': (I, M, B),                  # some leading principal minor of order 1..n is zero
            'spd': (I, M, B),                    # symmetric, all leading principal minors positive
            'ptr': (self.Trace, M, I, I, I, self.Trace),   # output after printing r full rows and k cells
                }[name]
        self.f[name] = F(name, *sig)
        return self.f[name]

    def tick(self, t):
        return self.tickf(t)


def sel2(m, x, y):
    return Select(Select(m, x), y)


def sto2(m, x, y, v):
    return Store(m, x, Store(Select(m, x), y, v))
