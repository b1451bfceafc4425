"""Generic loop-invariant candidates.  A candidate that is not inductive is dropped by the Houdini loop, so nothing
here can make an unsound proof: the pool only decides which programs are within reach."""
import z3
from z3 import And, Or, Not, Implies, If, ForAll, IntVal, Ints, BoolVal
from .alg import sel2
from .extract import N, Unsupported
from .vcg import V, VInt, VIter, VBool, VT, VMat, VPair, VRow, VMap, VRef, St, NotLvalue, Diverge, has_quant

COUNTERS_MAX = 7
DEBUG = False


class Cand:
    __slots__ = ('label', 'f')

    def __init__(self, label, f):
        self.label, self.f = label, f


def walk(node, fn, seen=None):
    seen = set() if seen is None else seen
    if isinstance(node, (list, tuple)):
        for x in node:
            walk(x, fn, seen)
        return
    if not isinstance(node, N) or id(node) in seen:
        return
    seen.add(id(node))
    fn(node)
    for v in node.__dict__.values():
        if isinstance(v, (N, list, tuple)):
            walk(v, fn, seen)


def used_vars(ver, st, node):
    used = set()

    def fn(n):
        if n.k == 'var':
            used.add(n.id)
            v = st.env.get(n.id)
            if isinstance(v, VRef):
                used.add(ver.resolve(st, v).root)
            if v.__class__.__name__ == 'VLam':
                walk(v.node.body, fn)
    walk(node, fn)
    return used


def has_loop(ver, st, node, depth=0):
    """does executing this node run a loop, in a helper without contract or a lambda included?"""
    found = []

    def fn(n):
        if n.k in ('for', 'do', 'rangefor'):
            found.append(n)
        elif n.k == 'var' and st.env.get(n.id).__class__.__name__ == 'VLam':
            walk(st.env[n.id].node.body, fn, seen)
        elif n.k == 'call' and n.f.k != 'var' and depth < 6:
            for f in ver.prog.by_name(getattr(n.f, 'name', None)):
                if not f.error and f.body is not None and ver.prog.spec_of(f) is None and has_loop(ver, st, f.body, depth + 1):
                    found.append(n)
    seen = set()
    walk(node, fn, seen)
    return bool(found)


def counters(ver, s):
    """variables stepped by the increment clause of this loop or an enclosing one"""
    out = set()
    for node in [s] + [lp['node'] for lp in ver.loops]:
        inc = getattr(node, 'inc', None)
        if inc is not None:
            def fn(n):
                if n.k in ('incdec', 'assign'):
                    walk(n.e if n.k == 'incdec' else n.l, lambda q: out.add(q.id) if q.k == 'var' else None)
            walk(inc, fn)
    return out


def int_ids(ver, st, s, mods):
    """integer variables worth mentioning: modified here, counters of enclosing loops, or used in the body"""
    used = used_vars(ver, st, [s]) if s is not None else set()
    outer = set()
    for lp in ver.loops:
        outer |= {m for m in lp['mods'] if isinstance(st.env.get(m), (VInt, VIter))}
    params = {p[0] for p in ver.func.params} if ver.func is not None else set()
    out = []
    for k, v in st.env.items():
        if isinstance(v, (VInt, VIter)) and not str(k).startswith('$tmp') and (k in mods or k in used or k in outer or k in params):
            if k not in mods and z3.is_int_value(v.t):
                continue
            out.append(k)
    out.sort(key=lambda k: (k not in mods, k not in used))
    # a parameter of a helper and the variable passed for it: one of them will do
    res, seen = [], set()
    for k in out:
        t = st.env[k].t
        if k not in mods:
            if t.get_id() in seen:
                continue
            seen.add(t.get_id())
        res.append(k)
    return res[:COUNTERS_MAX]


def dims(ver, st):
    out, seen = [], set()

    def add(t):
        t = z3.simplify(t)
        if z3.is_int_value(t) or t.sexpr() in seen:
            return
        seen.add(t.sexpr())
        out.append(t)
    for b in st.tctx.values():
        if isinstance(b, tuple) and b[0] == 'dim':
            add(b[1])
    for v in st.env.values():
        def vis(v):
            if isinstance(v, VMat):
                add(v.r)
                add(v.c)
            elif isinstance(v, VRow):
                add(v.n)
            elif isinstance(v, VPair):
                vis(v.a)
                vis(v.b)
        vis(v)
    return out


def cond_terms(ver, st, s):
    """integer expressions compared in the loop's conditions, as functions of the environment"""
    out = []

    def sides(e):
        if e is None or not isinstance(e, N):
            return
        if e.k == 'cast':
            return sides(e.e)
        if e.k == 'bin' and e.op in ('&&', '||'):
            sides(e.a)
            sides(e.b)
        elif e.k == 'un' and e.op == '!':
            sides(e.e)
        elif e.k == 'bin' and e.op in ('<', '<=', '>', '>=', '!=', '=='):
            for side in (e.a, e.b):
                if pure(side) and not simple(side):
                    out.append(side)

    def simple(e):
        while e.k == 'cast':
            e = e.e
        return e.k in ('var', 'num', 'tparam')

    def pure(e):
        ok = [True]

        def fn(n):
            if n.k in ('assign', 'incdec', 'call', 'method', 'lambda', 'throw', 'sub', 'member'):
                ok[0] = False
        walk(e, fn)
        return ok[0]
    sides(getattr(s, 'c', None))
    return env_terms(ver, st, 'cond', out)


def env_terms(ver, st, tag, exprs):
    res = []
    for i, e in enumerate(exprs):
        def f(env, e=e):
            sc, ver.checking = ver.checking, False
            sp, ver.pending = ver.pending, []
            try:
                v = ver.eval(St(dict(env), list(st.facts), st.tctx), e)
                return v.t if isinstance(v, VInt) else None
            except (Unsupported, NotLvalue, Diverge):
                return None
            finally:
                ver.checking, ver.pending = sc, sp
        if f(st.env) is not None:
            res.append(('%s%d' % (tag, i), f))
    return res


def pure_index(e):
    ok = [True]

    def fn(n):
        if n.k not in ('bin', 'cast', 'var', 'num', 'tparam', 'un', 'method') or n.k == 'method' and n.name != 'size':
            ok[0] = False
    walk(e, fn)
    return ok[0]


def index_terms(ver, st, s):
    """compound subscripts of what the loop body writes, such as R[i + n][j]"""
    out, seen = [], set()

    def fn(n):
        if n.k == 'assign' or n.k == 'incdec':
            e = n.l if n.k == 'assign' else n.e
            while e.k in ('sub', 'member', 'cast'):
                if e.k == 'sub':
                    ix = e.i
                    while ix.k == 'cast':
                        ix = ix.e
                    if ix.k == 'bin' and pure_index(ix) and repr(ix) not in seen:
                        seen.add(repr(ix))
                        out.append(ix)
                e = {'sub': lambda: e.b, 'member': lambda: e.o, 'cast': lambda: e.e}[e.k]()
    walk(s.body if hasattr(s, 'body') else s, fn)
    return env_terms(ver, st, 'index', out[:4])[:2]


def limit_terms(ver, st, s, limit):
    ds = dims(ver, st)
    ct = cond_terms(ver, st, s)
    ks = [k for k, v in st.env.items() if isinstance(v, VInt) and not str(k).startswith('$tmp')][:10]

    def f(env):
        out = list(ds) + [env[k].t for k in ks]
        out += [t for t in (g(env) for _, g in ct) if t is not None]
        if limit is not None:
            out.append(limit)
        out.append(IntVal(2 ** 31))
        return out
    return f


class Term(str):
    """a derived integer term, used like a variable name"""
    def __new__(cls, label, f):
        o = str.__new__(cls, label)
        o.f = f
        return o


def regions(ints, mods, cols=None):
    """(label, region) over cells (x, y), at least one moving bound"""
    T = lambda e, k: e[k].t if not isinstance(k, Term) else k.f(e)
    out = []
    for a in ints:
        out += [('x<%s' % a, lambda e, x, y, a=a: x < T(e, a)), ('y<%s' % a, lambda e, x, y, a=a: y < T(e, a)),
                ('x>=%s' % a, lambda e, x, y, a=a: x >= T(e, a)), ('y>=%s' % a, lambda e, x, y, a=a: y >= T(e, a)),
                ('x>%s' % a, lambda e, x, y, a=a: x > T(e, a)), ('y>%s' % a, lambda e, x, y, a=a: y > T(e, a))]
        for b in ints:
            if a == b or not (a in mods or b in mods or isinstance(a, Term) or isinstance(b, Term)):
                continue
            out += [
                ('x=%s,y<%s' % (a, b), lambda e, x, y, a=a, b=b: And(x == T(e, a), y < T(e, b))),
                ('y=%s,x<%s' % (a, b), lambda e, x, y, a=a, b=b: And(y == T(e, a), x < T(e, b))),
                ('x=%s,y>=%s' % (a, b), lambda e, x, y, a=a, b=b: And(x == T(e, a), y >= T(e, b))),
                ('y=%s,x>=%s' % (a, b), lambda e, x, y, a=a, b=b: And(y == T(e, a), x >= T(e, b))),
                ('x<>%s' % a + '|y>=%s' % b, lambda e, x, y, a=a, b=b: Or(x != T(e, a), y >= T(e, b))),
                ('y<>%s' % a + '|x>=%s' % b, lambda e, x, y, a=a, b=b: Or(y != T(e, a), x >= T(e, b))),
                ('x<>%s' % a + '|y<%s' % b, lambda e, x, y, a=a, b=b: Or(x != T(e, a), y < T(e, b))),
                ('rm(%s,%s)' % (a, b), lambda e, x, y, a=a, b=b: Or(x < T(e, a), And(x == T(e, a), y < T(e, b)))),
                ('cm(%s,%s)' % (a, b), lambda e, x, y, a=a, b=b: Or(y < T(e, a), And(y == T(e, a), x < T(e, b)))),
                ('rm>(%s,%s)' % (a, b), lambda e, x, y, a=a, b=b: Or(x > T(e, a), And(x == T(e, a), y >= T(e, b)))),
                ('cm>(%s,%s)' % (a, b), lambda e, x, y, a=a, b=b: Or(y > T(e, a), And(y == T(e, a), x >= T(e, b)))),
            ]
    return out


def mats_of(st, mods):
    out = []
    for m in mods:
        v = st.env[m]
        if isinstance(v, VMat):
            out.append((m, lambda e, m=m: e[m]))
        elif isinstance(v, VPair):
            for comp in ('a', 'b'):
                if isinstance(getattr(v, comp), VMat):
                    out.append((m + '.' + comp, lambda e, m=m, comp=comp: getattr(e[m], comp)))
    return out


def forall_cells(M, r, c, body):
    x, y = Ints('x y')
    return ForAll([x, y], Implies(And(x >= 0, x < r, y >= 0, y < c), body(x, y)), patterns=[sel2(M, x, y)])


def candidates(ver, st, s, mods, entry, limit, mapiter):
    out = []

    def add(label, f):
        out.append(Cand(label, f))
    ints = int_ids(ver, st, s, mods)
    ds = dims(ver, st)
    ct = cond_terms(ver, st, s)
    imods = [k for k in ints if k in mods]
    for v in imods:
        add('%s>=entry' % v, lambda e, en, v=v: e[v].t >= en[v].t)
        add('%s<=entry' % v, lambda e, en, v=v: e[v].t <= en[v].t)
        add('%s=entry' % v, lambda e, en, v=v: e[v].t == en[v].t)
        if isinstance(st.env[v], VInt) and st.env[v].kind[0] == 'i':
            add('%s>=0' % v, lambda e, en, v=v: e[v].t >= 0)
            add('%s>=-1' % v, lambda e, en, v=v: e[v].t >= -1)
            add('%s<=0' % v, lambda e, en, v=v: e[v].t <= 0)
        ts = [('dim ' + d.sexpr(), lambda e, d=d: d) for d in ds] + ct
        if limit is not None:
            ts.append(('limit', lambda e: limit))
        for lab, t in ts:
            add('%s<=%s' % (v, lab), lambda e, en, v=v, t=t: e[v].t <= t(e))
            add('%s<%s' % (v, lab), lambda e, en, v=v, t=t: e[v].t < t(e))
        for w in ints:
            if w == v:
                continue
            add('%s<=%s' % (v, w), lambda e, en, v=v, w=w: e[v].t <= e[w].t)
            add('%s<%s' % (v, w), lambda e, en, v=v, w=w: e[v].t < e[w].t)
            add('%s<=%s+1' % (v, w), lambda e, en, v=v, w=w: e[v].t <= e[w].t + 1)
            if w not in mods:
                add('%s>=%s' % (v, w), lambda e, en, v=v, w=w: e[v].t >= e[w].t)
                add('%s>%s' % (v, w), lambda e, en, v=v, w=w: e[v].t > e[w].t)
            else:
                if v < w:
                    add('%s-%s const' % (v, w), lambda e, en, v=v, w=w: e[v].t - e[w].t == en[v].t - en[w].t)
                    add('%s+%s const' % (v, w), lambda e, en, v=v, w=w: e[v].t + e[w].t == en[v].t + en[w].t)
                for u in ints:
                    if u not in (v, w) and u not in mods:
                        add('%s=%s-[%s>%s]' % (v, w, w, u), lambda e, en, v=v, w=w, u=u:
                            e[v].t == e[w].t - If(e[w].t > e[u].t, 1, 0))
            if v != w:
                for d in ds:
                    if not (z3.is_const(d)):
                        continue
                    add('%s=%s*%s' % (v, w, d), lambda e, en, v=v, w=w, d=d: e[v].t == e[w].t * d)
                    for u in ints:
                        if u not in (v, w) and (u in mods or w in mods):
                            add('%s=%s*%s+%s' % (v, w, d, u), lambda e, en, v=v, w=w, u=u, d=d: e[v].t == e[w].t * d + e[u].t)
    # counters that the condition does not read: no more steps than cells visited, dimensions being at most 2^30
    stepped = used_vars(ver, st, getattr(s, 'c', None))
    for v in imods:
        if v in stepped or not isinstance(st.env[v], VInt):
            continue
        for w in ints:
            if w == v:
                continue
            add('%s<=%s*2^30' % (v, w), lambda e, en, v=v, w=w: e[v].t <= e[w].t * 2 ** 30)
            for u in imods:
                if u in stepped and u not in (v, w):
                    add('%s<=%s*2^30+%s' % (v, w, u), lambda e, en, v=v, w=w, u=u: e[v].t <= e[w].t * 2 ** 30 + e[u].t)
    tvals = [k for k, v in st.env.items() if isinstance(v, VT) and not str(k).startswith('$')]
    c = getattr(ver, 'ctx0', None)
    spec = ver.spec
    env = st.env
    if c is not None:
        c.flat = uses_div(s)
    tm = [k for k in mods if isinstance(env[k], VT)]
    for k in tm:
        add('%s=entry' % k, lambda e, en, k=k: e[k].t == en[k].t)
    if tm and spec is not None:
        for lab, f in spec.scalar_partials(c, ver, env, ints, tvals):
            for k in tm:
                add('%s=%s' % (k, lab), lambda e, en, k=k, f=f: e[k].t == f(e))
                if ver.alg.mode != 'P' and not z3.is_rational_value(z3.simplify(entry[k].t)) and not lab.startswith('dprod'):
                    # accumulated on top of, or taken off, what the variable held before the loop
                    add('%s=entry-%s' % (k, lab), lambda e, en, k=k, f=f: e[k].t == en[k].t - f(e))
                    add('%s=entry+%s' % (k, lab), lambda e, en, k=k, f=f: e[k].t == en[k].t + f(e))
    # a sign that flips: +1 or -1 by the parity of a counter or of the sum of two
    for k in mods:
        if not isinstance(env[k], (VT, VInt)) or isinstance(env[k], VInt) and env[k].kind[0] != 'i' or not flips(s, k):
            continue
        pairs = [(a,) for a in ints if a != k] + [(a, b) for a in ints for b in ints if a < b and k not in (a, b)]
        lit = (lambda q: ver.alg.lit(q)) if isinstance(env[k], VT) else IntVal
        for ab in pairs:
            for odd in (0, 1):
                add('%s=sign%d(%s)' % (k, odd, '+'.join(ab)), lambda e, en, k=k, ab=ab, odd=odd, lit=lit:
                    e[k].t == If(z3.Sum([e[q].t for q in ab]) % 2 == odd, lit(1), lit(-1)))
    for k in mods:
        if isinstance(env[k], VBool):
            add('%s=entry' % k, lambda e, en, k=k: e[k].t == en[k].t)
    # matrices
    regs = [('all', lambda e, x, y: BoolVal(True))] + regions(list(ints) + [Term(*t) for t in index_terms(ver, st, s)], mods)
    targets = spec.targets(c) if spec is not None else []
    for mname, get in mats_of(st, mods):
        M = get(env)
        tg = []
        for lab, r, q, fn in targets:
            if same(ver, st, r, M.r) and same(ver, st, q, M.c):
                tg.append((lab, lambda e, en, x, y, fn=fn: fn(x, y)))
        if spec is None or spec.entry_regions:
            tg.append(('entry', lambda e, en, x, y: sel2(get(en).t, x, y)))
        ez = get(entry).t
        for rl, reg in regs:
            for lab, t in tg:
                add('%s: %s -> %s' % (mname, rl, lab), lambda e, en, reg=reg, t=t, get=get, M=M: forall_cells(
                    get(e).t, M.r, M.c, lambda x, y: Implies(reg(e, x, y), sel2(get(e).t, x, y) == t(e, en, x, y))))
        for d in [k for k in ints if not str(k).startswith('$rng')]:
            if d in mods and len(imods) == 1 and not z3.is_int_value(z3.simplify(M.c)):
                for lab, t in tg:
                    add('%s: x*c+y<%s -> %s' % (mname, d, lab), lambda e, en, d=d, t=t, get=get, M=M: forall_cells(
                        get(e).t, M.r, M.c, lambda x, y: Implies(x * M.c + y < e[d].t,
                                                                 sel2(get(e).t, x, y) == t(e, en, x, y))))
    # plain arrays: keep what they had outside the written part
    for m in mods:
        if isinstance(env[m], VRow):
            x = z3.Int('x')
            for a in ints:
                for lab, rel in (('<', lambda x, t: x < t), ('>=', lambda x, t: x >= t)):
                    add('%s: x%s%s unchanged' % (m, lab, a), lambda e, en, m=m, a=a, rel=rel: ForAll(
                        [x], Implies(And(x >= 0, x < env[m].n, rel(x, e[a].t)),
                                     z3.Select(e[m].t, x) == z3.Select(en[m].t, x)), patterns=[z3.Select(e[m].t, x)]))
            # a row or a column of something the contract names
            for tl, r, q, fn in targets:
                for kind, size, at in (('row', q, lambda a, x, fn=fn: fn(a, x)), ('column', r, lambda a, x, fn=fn: fn(x, a))):
                    if not same(ver, st, size, env[m].n):
                        continue
                    for a in [k for k in ints if k not in mods]:
                        for b in imods:
                            for lab, rel in (('<', lambda x, t: x < t), ('>=', lambda x, t: x >= t), ('>', lambda x, t: x > t)):
                                add('%s: x%s%s -> %s %s of %s' % (m, lab, b, kind, a, tl),
                                    lambda e, en, m=m, a=a, b=b, rel=rel, at=at: ForAll(
                                        [x], Implies(And(x >= 0, x < env[m].n, rel(x, e[b].t)),
                                                     z3.Select(e[m].t, x) == at(e[a].t, x)), patterns=[z3.Select(e[m].t, x)]))
    for lab, f in store_candidates(ver, st, s, mods, entry):
        add(lab, f)
    if spec is not None:
        for lab, f in spec.custom(c, ver, st, s, mods, entry, ints):
            add(lab, f)
    return out


class Skip(Exception):
    pass


def postdec(c):
    """the variable of a condition like k-- > 0"""
    found = []
    walk(c, lambda n: found.append(n) if n.k == 'incdec' else None)
    if len(found) == 1 and found[0].op == '--' and found[0].post and found[0].e.k == 'var':
        return found[0].e.id
    return None


def stores(ver, st, s, mods, entry):
    """What the stores in one run of this loop's body write, with the loop counters generalised: lists of
    (target root, pair component or None, subscripts, value, counters, condition).  A nested loop's counter ranges over
    that loop's values; variables the body changes in other ways make a store unusable."""
    found = []
    own = [k for k in mods if isinstance(st.env[k], VInt)]
    stepped = counters(ver, s)
    pd = postdec(s.c) if s.k != 'rangefor' and s.c is not None else None
    cnt = [k for k in own if k == pd] or [k for k in own if k in stepped or str(k).startswith('$rng')] or own[:1]
    if not cnt or s.k == 'do':
        return [], None
    kc = cnt[0]
    base = St(dict(st.env), list(st.facts), st.tctx)
    for m in mods:
        if m != kc and not isinstance(base.env[m], (VMat, VRow, VPair)):
            del base.env[m]
        elif m != kc:
            base.env[m] = entry[m]
    K0 = z3.Int('K!%d' % len(ver.loops))
    base.env[kc] = VInt(K0, st.env[kc].kind)
    base.add(And(K0 >= 0, K0 < 2 ** 31))

    def bindrange(b, node, k, guards):
        vid, vname, vty, vconst, vref = node.var
        r = ver.lval(b, node.rng)
        v = ver.load(b, r)
        if not isinstance(v, (VMat, VRow)):
            raise Skip()
        n = v.r if isinstance(v, VMat) else v.n
        b.add(And(k >= 0, k < n, k < 2 ** 31))
        el = VRef(r.root, r.path + [('i', k)])
        b.env[vid] = el if vref else ver.convert(b, ver.load(b, el), ver.rty(b, vty))
        return guards + [k >= 0, k < n]

    def value(b, e):
        if has_loop(ver, b, e):
            raise Skip()
        return ver.eval(b, e)

    def run(b, node, ks, guards):
        """-> guards for what follows"""
        if node is None:
            return guards
        if isinstance(node, (list, tuple)) or node.k == 'block':
            for x in (node if isinstance(node, (list, tuple)) else node.body):
                guards = run(b, x, ks, guards)
            return guards
        if node.k == 'decl':
            if node.init is not None and has_loop(ver, b, node.init):
                raise Skip()
            ver.decl(b, node)
            return guards
        if node.k == 'expr':
            return run(b, node.e, ks, guards)
        if node.k in ('assign', 'incdec'):
            l = node.l if node.k == 'assign' else node.e
            r = ver.lval(b, l)
            old = ver.load(b, r)
            if r.root in mods and isinstance(old, VT):
                if node.k == 'assign':
                    e = node.r if not node.op else N('bin', node.line, op=node.op, a=l, b=node.r)
                else:
                    e = N('bin', node.line, op=node.op[0], a=l, b=N('num', node.line, v=1, ty='int'))
                comp = [p[1] for p in r.path if p[0] == 'f']
                found.append((r.root, comp[0] if comp else None, [p[1] for p in r.path if p[0] == 'i'],
                              ver.toT(b, value(b, e)), list(ks), list(guards)))
            elif r.root in mods and r.path and isinstance(old, VRow) and node.k == 'assign' and not node.op:
                # a whole row: every column of it
                row = value(b, node.r)
                if not isinstance(row, VRow):
                    raise Skip()
                q = z3.Int('K!%d_col%d' % (len(ver.loops), len(found)))
                comp = [p[1] for p in r.path if p[0] == 'f']
                found.append((r.root, comp[0] if comp else None, [p[1] for p in r.path if p[0] == 'i'] + [q],
                              z3.Select(row.t, q), list(ks) + [q], guards + [q >= 0, q < old.n]))
            elif not r.path and r.root in b.env:
                del b.env[r.root]
            else:
                raise Skip()
            return guards
        if node.k == 'method' and node.name == 'fill' and len(node.args) == 1 and node.args[0].k != 'init':
            r = ver.lval(b, node.o)
            old = ver.load(b, r)
            if not (r.root in mods and r.path and isinstance(old, VRow)):
                raise Skip()
            q = z3.Int('K!%d_col%d' % (len(ver.loops), len(found)))
            comp = [p[1] for p in r.path if p[0] == 'f']
            found.append((r.root, comp[0] if comp else None, [p[1] for p in r.path if p[0] == 'i'] + [q],
                          ver.toT(b, value(b, node.args[0])), list(ks) + [q], guards + [q >= 0, q < old.n]))
            return guards
        if node.k == 'if':
            c = ver.tobool(b, value(b, node.c))
            n0 = len(found)
            ga = run(b.copy(), node.a, ks, guards + [c])
            gb = run(b.copy(), node.b, ks, guards + [Not(c)]) if node.b is not None else guards
            left_a, left_b = ga is None, gb is None
            if left_a and left_b:
                return None
            for br in (node.a, node.b):
                acc = set()
                ver.assigned(b, [br], acc, set())
                for k in acc:
                    if k in b.env and not isinstance(b.env[k], (VMat, VRow, VPair)):
                        del b.env[k]
            return guards + ([Not(c)] if left_a else [c] if left_b else [])
        if node.k in ('continue', 'break', 'return', 'throw'):
            return None
        if node.k == 'for':
            k = z3.Int('K!%d_%s' % (len(ver.loops), node.uid))
            i = node.init
            while i is not None and i.k == 'block' and len(i.body) == 1:
                i = i.body[0]
            if i is None or i.k != 'decl' or i.init is None:
                raise Skip()
            bb = b.copy()
            ver.decl(bb, i)
            v0 = bb.env[i.id]
            if not isinstance(v0, VInt):
                raise Skip()
            acc = set()
            ver.assigned(bb, [node.body, node.inc, node.c], acc, set())
            for q in acc:
                if q != i.id and q in bb.env and not isinstance(bb.env[q], (VMat, VRow, VPair)):
                    del bb.env[q]
                    b.env.pop(q, None)
            bb.env[i.id] = VInt(k, v0.kind)
            up = node.inc is not None and '++' in repr(node.inc)
            bb.add(And(k >= v0.t if up else k >= 0, k < 2 ** 31))
            g = [k >= v0.t if up else k <= v0.t]
            if node.c is not None and postdec(node.c) == i.id and node.inc is None:
                g = [k >= 0, k < v0.t]
                bb.add(And(*g))
            elif node.c is not None:
                c = ver.tobool(bb, value(bb, node.c))
                bb.add(c)
                g.append(c)
            run(bb, node.body, ks + [k], guards + g)
            return guards
        if node.k == 'rangefor':
            k = z3.Int('K!%d_%s' % (len(ver.loops), node.uid))
            bb = b.copy()
            run(bb, node.body, ks + [k], bindrange(bb, node, k, guards))
            return guards
        raise Skip()

    sc, ver.checking = ver.checking, False
    sp, ver.pending = ver.pending, []
    na = len(ver.allocs)
    ver.named = lambda facts, t, hint='nm': t
    ver.simulating = True
    try:
        g = []
        if s.k == 'rangefor':
            g = bindrange(base, s, K0, g)
        elif pd is not None and pd == kc:
            g = [K0 >= 0, K0 < entry[kc].t]
            base.add(And(*g))
        elif s.c is not None:
            base.add(ver.tobool(base, value(base, s.c)))
        run(base, s.body, [K0], g)
    except (Skip, Unsupported, NotLvalue, Diverge, KeyError, AttributeError) as ex:
        if DEBUG: import traceback; traceback.print_exc()
        return [], None
    finally:
        ver.checking, ver.pending = sc, sp
        del ver.allocs[na:]
        ver.__dict__.pop('named', None)
        ver.simulating = False
    return found, kc


def unfold(idx, val, ks, guards):
    """subscripts that are conditional expressions, case by case"""
    for n, t in enumerate(idx):
        t = z3.simplify(t)
        b = find_ite(t)
        if b is not None and mentions(t, ks):
            c = b.arg(0)
            out = []
            for g, r in ((c, b.arg(1)), (Not(c), b.arg(2))):
                u = z3.simplify(z3.substitute(t, (b, r)))
                out += unfold(idx[:n] + [u] + idx[n + 1:], val, ks, guards + [g])
            return out
    return [(idx, val, ks, guards)]


def find_ite(t):
    todo = [t]
    while todo:
        q = todo.pop()
        if z3.is_app(q) and q.decl().kind() == z3.Z3_OP_ITE:
            return q
        todo += q.children()
    return None


def mentions(t, ks):
    ids = {k.get_id() for k in ks}
    seen, todo = set(), [t]
    while todo:
        q = todo.pop()
        if q.get_id() in ids:
            return True
        if q.get_id() in seen:
            continue
        seen.add(q.get_id())
        todo += q.children() if not z3.is_quantifier(q) else [q.body()]
    return False


def store_candidates(ver, st, s, mods, entry):
    """the loop has replaced exactly the cells its finished iterations wrote, by what they wrote"""
    if len(ver.inline_stack) > 3:
        return
    found, kc = stores(ver, st, s, mods, entry)
    groups = {}
    for root, comp, idx, val, ks, guards in found:
        groups.setdefault((root, comp, len(idx)), []).append((idx, val, ks, guards))
    for (root, comp, n), lst in groups.items():
        v = st.env[root]
        if comp:
            v = v.a if comp == 'first' else v.b
        if not (isinstance(v, VMat) and n == 2 or isinstance(v, VRow) and n == 1) or len(lst) > 4:
            continue
        cell = Ints('x y')[:n]
        get = (lambda e, root=root, comp=comp: (e[root] if not comp else e[root].a if comp == 'first' else e[root].b).t)
        at = (lambda t: sel2(t, *cell)) if n == 2 else (lambda t: z3.Select(t, cell[0]))
        box = And(*[And(z >= 0, z < d) for z, d in zip(cell, (v.r, v.c) if n == 2 else (v.n,))])
        if n == 2 and len(lst) == 1 and not any(mentions(t, lst[0][2]) for t in lst[0][0]):
            # every iteration works on the same cell
            idx = lst[0][0]
            yield '%s: one cell' % root, lambda e, en, get=get, at=at, box=box, idx=idx, cell=cell: ForAll(
                cell, Implies(And(box, Or(*[z != t for z, t in zip(cell, idx)])), at(get(e)) == at(get(en))), patterns=[at(get(e))])
            if ver.spec is not None and hasattr(ver, 'ctx0'):
                ints = int_ids(ver, st, s, mods)
                for lab, f in ver.spec.scalar_partials(ver.ctx0, ver, st.env, ints, []):
                    yield '%s: cell=%s' % (root, lab), lambda e, en, get=get, idx=idx, f=f: sel2(get(e), *idx) == f(e)
            continue
        parts = []
        lst = [q for e in lst for q in unfold(*e)]
        if len(lst) > 8:
            continue
        for idx, val, ks, guards in lst:
            sol, eqs = {}, []
            for t, z in zip(idx, cell):
                for k in ks:
                    d = z3.simplify(t - k)
                    if k.get_id() not in sol and not mentions(d, ks):
                        sol[k.get_id()] = (k, z - d)
                        break
                    d = z3.simplify(t + k)
                    if k.get_id() not in sol and not mentions(d, ks):
                        sol[k.get_id()] = (k, d - z)
                        break
                else:
                    eqs.append(z == t)
            sub = list(sol.values())
            if len(sub) != len(ks):
                parts = None
                break
            f = lambda t, sub=sub: z3.substitute(t, *sub)
            parts.append((f(ks[0]), [f(g) for g in guards + eqs], f(val)))
        if not parts:
            continue
        for lab, done in (('up', lambda e, en, k: And(k >= en[kc].t, k < e[kc].t)), ('down', lambda e, en, k: And(k <= en[kc].t, k > e[kc].t)),
                          ('down1', lambda e, en, k: And(k < en[kc].t, k >= e[kc].t))):
            def whole(e, en, done=done, parts=parts, get=get, at=at, box=box):
                t = at(get(en))
                for k, g, val in parts:
                    t = If(And(done(e, en, k), *g), val, t)
                return ForAll(cell, Implies(box, at(get(e)) == t), patterns=[at(get(e))])
            yield '%s: written (%s)' % (root, lab), whole


def uses_div(s):
    found = []
    walk(s, lambda n: found.append(n) if n.k == 'bin' and n.op in ('/', '%') else None)
    return bool(found)


def subtracts(s):
    """does the loop take something away from an array cell?"""
    found = []
    walk(s, lambda n: found.append(n) if n.k == 'assign' and n.op == '-' and n.l.k != 'var' or
         n.k == 'assign' and n.op == '' and n.l.k != 'var' and n.r.k == 'bin' and n.r.op == '-' else None)
    return bool(found)


def flips(s, k):
    found = []

    def fn(n):
        if n.k == 'assign' and n.l.k == 'var' and n.l.id == k:
            r = n.r
            while r.k == 'cast':
                r = r.e
            if n.op == '*' or n.op == '' and (r.k == 'un' and r.op == '-' or r.k == 'bin' and r.op in ('*', '-')):
                found.append(n)
    walk(s, fn)
    return bool(found)


def same(ver, st, a, b):
    r = z3.simplify(a == b)
    if z3.is_true(r):
        return True
    if z3.is_false(r):
        return False
    return ver.quick(st, a == b)
