"""The extracted program: which contract belongs to which function, and how calls resolve to contracts."""
import os
import re
import z3
from z3 import IntVal
from .extract import Extractor, Unsupported
from . import specs as S
from .vcg import Verifier, VInt, VBool, VT, VMat, VFlt, VMisc, Budget, Oblig, St
from .alg import Alg


def eq(a, b):
    return z3.is_true(z3.simplify(a == b))


def portable(t):
    """constant arrays of a term that is not a literal are z3's own: name them"""
    decl, names = [], {}
    for srt, inner in (('(Array Int Elem)', 'Elem'), ('(Array Int (Array Int Elem))', '(Array Int Elem)')):
        def sub(m):
            k = (srt, m.group(1))
            if k not in names:
                names[k] = n = 'K!%d' % len(names)
                decl.append('(declare-fun %s () %s)\n(assert (forall ((x Int)) (! (= (select %s x) %s) :pattern ((select %s x)))))\n' %
                            (n, srt, n, m.group(1), n))
            return names[k]
        t = re.sub(re.escape('((as const %s) ' % srt) + r'(\(eofint 0\)|[A-Za-z][\w!]*)\)', sub, t)
    i = t.index('(assert')
    return t[:i] + ''.join(decl) + t[i:]


class Program:
    def __init__(self, repo='/repo', **kw):
        self.ex = Extractor(repo, **kw)
        self.funcs = self.ex.funcs
        self.names = {}
        for f in self.funcs:
            self.names.setdefault(f.name, []).append(f)
        self.specs = {}
        for s in S.SPECS:
            self.specs.setdefault(s.name, []).append(s)
        self.dump_dir = None
        self.dumped = 0

    def has(self, name):
        return name in self.names

    def by_name(self, name):
        return self.names.get(name, [])

    # ---------------------------------------------------------------- function -> contract
    def sym_dim(self, e):
        if e[0] == 'num':
            return ('n', e[1])
        return ('s', repr(e))

    def unify_sig(self, f, spec):
        """role -> dimension expression of f, or None"""
        if len(f.params) != len(spec.params):
            return None
        b = {}

        def bind(role, d):
            if isinstance(role, int):
                return d == ('num', role)
            if role in b:
                return b[role] == d
            b[role] = d
            return True
        for p, sp in zip(f.params, spec.params):
            t, k = p[2], sp[1]
            if k == 'mat':
                if t[0] != 'mat' or not bind(sp[2], t[2]) or not bind(sp[3], t[3]):
                    return None
                if (sp[-1] == 'inout') != (p[4] == '&' and not p[3]):
                    if sp[-1] == 'inout':
                        return None
            elif k == 'T':
                if t[0] != 'name':
                    return None
            elif k == 'flt':
                if t[0] not in ('float', 'double', 'name'):
                    return None
            elif k == 'P':
                if t[0] not in ('name', 'int'):
                    return None
            elif t[0] != 'int':
                return None
        if spec.targs:
            # explicit template arguments: kinds must line up
            want = ['type' if r == 'T' else 'val' for r in spec.targs]
            have = [tp[0] for tp in f.tparams]
            if have != want:
                return None
            for r, tp in zip(spec.targs, f.tparams):
                if tp[0] == 'val' and not bind(r, ('name', tp[1])):
                    return None
        r = spec.ret
        kind = f.ret[0]
        if isinstance(r, tuple) and (r[0] == 'pair') != (kind == 'pair'):
            return None
        return b

    def spec_of(self, f):
        for s in self.specs.get(f.name, []):
            if self.unify_sig(f, s) is not None:
                return s
        return None

    def bind_func(self, ver, st, f, spec):
        b = self.unify_sig(f, spec)
        if b is None:
            return None
        return {r: ver.dim(st, d) for r, d in b.items()}

    def intkinds(self, f, spec):
        """instantiations of an integer type parameter to verify"""
        for p, sp in zip(f.params, spec.params):
            if sp[1] == 'P' and p[2][0] == 'name':
                return [{p[2][1]: k['P']} for k in spec.intkinds]
        return [{}]

    def overload_exclusions(self, ver, st, f):
        """a generic overload is only selected when no more specialised one fits"""
        out = []
        for g in self.by_name(f.name):
            if g is f or g.error or len(g.params) != len(f.params):
                continue
            conds, special = [], False
            ok = True
            for p, q in zip(f.params, g.params):
                if p[2][0] != q[2][0]:
                    ok = False
                    break
                if p[2][0] == 'mat':
                    for a, b in zip(p[2][2:4], q[2][2:4]):
                        if b[0] == 'num':
                            if a[0] == 'name':
                                special = True
                                conds.append(ver.dim(st, a) == b[1])
                            elif a != b:
                                ok = False
            if ok and special:
                out.append(z3.Not(z3.And(*conds)))
        return out

    # ---------------------------------------------------------------- calls
    def spec_for_call(self, ver, name, vals, targs):
        fs = self.by_name(name)
        if not fs:
            return None
        for s in self.specs.get(name, []):
            b = {}
            if s.targs:
                if targs:
                    b = self.bind_targs(fs, s, targs)
                    if b is None:
                        continue
                else:
                    continue
            nreq = len(s.params)
            if len(vals) > nreq:
                continue
            if len(vals) < nreq and not self.has_default(s, len(vals)):
                continue
            ok = True
            for v, p in zip(vals, s.params):
                k = p[1]
                if k == 'mat':
                    if not isinstance(v, VMat) or not self.bd(b, p[2], v.r) or not self.bd(b, p[3], v.c):
                        ok = False
                        break
                elif k in ('T', 'flt'):
                    if not isinstance(v, (VT, VInt, VFlt, VBool)):
                        ok = False
                        break
                elif not isinstance(v, (VInt, VBool)):
                    ok = False
                    break
            if ok:
                if not any(self.spec_of(f) is s or (f.error and len(f.params) == len(s.params)) for f in fs):
                    continue
                return s, b
        return None

    def has_default(self, s, k):
        try:
            for i in range(k, len(s.params)):
                s.default(Alg('R'), i)
            return True
        except Exception:
            return False

    def bind_targs(self, fs, s, targs):
        roles = s.targs
        if len(targs) > len(roles):
            return None
        b = {}
        for r, a in zip(roles, targs):
            if (r == 'T') != (a[0] == 'ty'):
                return None
            if r != 'T':
                b[r] = a[1]
        rest = roles[len(targs):]
        for r in rest:
            if r == 'j' and 'i' in b:
                # default template argument: must be declared as the row count
                for f in fs:
                    if self.spec_of(f) is s and f.tparams and f.tparams[-1][2] is not None and \
                            f.tparams[-1][2].strip() == f.tparams[-2][1]:
                        b[r] = b['i']
                if r not in b:
                    return None
            else:
                return None
        return b

    def bd(self, b, role, actual):
        if isinstance(role, int):
            return eq(actual, IntVal(role))
        if role in b:
            return eq(b[role], actual)
        b[role] = actual
        return True

    # ---------------------------------------------------------------- dumping obligations for a second solver
    def dump(self, ver, facts, goal, kind):
        self.dumped += 1
        s = ver.solver(facts, 1000)
        s.add(z3.Not(goal))
        fn = os.path.join(self.dump_dir, '%d-%s-%s-%d.smt2' % (self.funcs.index(ver.func), ver.alg.mode, kind, self.dumped))
        with open(fn, 'w') as f:
            f.write('(set-logic ALL)\n' + portable(s.to_smt2()))
        ver.dumps.append(os.path.basename(fn))
