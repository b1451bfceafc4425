"""Print the lemmas of lemmas.py as Lean 4 propositions and have Lean check the proofs in ../lean.

The statement Lean proves is generated from the very formula that is handed to the SMT solver, so the two cannot drift
apart.  Element type of modes R and N: the real numbers (rmul/rdiv are * and / of the reals); mode P: an arbitrary type
with arbitrary operations (structure Ops)."""
import hashlib, json, os, re, shutil, subprocess, sys, tempfile
import z3
from .alg import Alg
from . import lemmas

HERE = os.path.dirname(os.path.abspath(__file__))
LEANDIR = os.path.join(os.path.dirname(HERE), 'lean')

# facts about machine element types, not about spec functions: stated as assumptions on the element type in DESIGN.md
ELEMENT_ASSUMPTIONS = ('eadd_zero', 'emul_one', 'ediv_one', 'esub_zero', 'eneg_sub', 'eabs_def', 'eadd_comm', 'emul_comm', 'eeq_symm', 'eabs_sub', 'eofint_pos')


class Tr:
    def __init__(self, mode, free=()):
        self.mode = mode
        self.free = free

    def sort(self, s):
        k = s.kind()
        if k == z3.Z3_INT_SORT:
            return 'ℤ'
        if k == z3.Z3_REAL_SORT:
            return 'ℝ'
        if k == z3.Z3_BOOL_SORT:
            return 'Prop'
        if k == z3.Z3_ARRAY_SORT:
            return '(%s → %s)' % (self.sort(s.domain()), self.sort(s.range()))
        return {'Elem': 'α', 'Trace': 'τ', 'Item': 'ι'}[s.name()]

    def var(self, nm):
        return {'e': 'e1', 'λ': 'l'}.get(nm, nm.replace('!', '_'))

    def t(self, e, env):
        if z3.is_quantifier(e):
            n = e.num_vars()
            names = [self.var(e.var_name(i)) for i in range(n)]
            bs = ' '.join('(%s : %s)' % (nm, self.sort(e.var_sort(i))) for i, nm in enumerate(names))
            q = '∀' if e.is_forall() else '∃'
            if not e.is_forall():
                bs = ' '.join('(%s : %s)' % (nm, self.sort(e.var_sort(i))) for i, nm in enumerate(names))
            return '(%s %s, %s)' % (q, bs, self.t(e.body(), env + names))
        if z3.is_var(e):
            return env[len(env) - 1 - z3.get_var_index(e)]
        if z3.is_int_value(e):
            v = e.as_long()
            return '(%d : ℤ)' % v
        if z3.is_rational_value(e):
            f = e.as_fraction()
            return '(%d : ℝ)' % f.numerator if f.denominator == 1 else '((%d : ℝ) / %d)' % (f.numerator, f.denominator)
        if z3.is_true(e):
            return 'True'
        if z3.is_false(e):
            return 'False'
        k = e.decl().kind()
        c = [self.t(x, env) for x in e.children()]
        infix = {z3.Z3_OP_ADD: '+', z3.Z3_OP_SUB: '-', z3.Z3_OP_MUL: '*', z3.Z3_OP_DIV: '/', z3.Z3_OP_LE: '≤', z3.Z3_OP_LT: '<',
                 z3.Z3_OP_GE: '≥', z3.Z3_OP_GT: '>', z3.Z3_OP_AND: '∧', z3.Z3_OP_OR: '∨', z3.Z3_OP_IMPLIES: '→',
                 z3.Z3_OP_MOD: '%', z3.Z3_OP_IDIV: '/'}
        if k in infix:
            return '(' + (' %s ' % infix[k]).join(c) + ')'
        if k == z3.Z3_OP_EQ:
            return '(%s %s %s)' % (c[0], '↔' if z3.is_bool(e.arg(0)) else '=', c[1])
        if k == z3.Z3_OP_DISTINCT and len(c) == 2:
            return '(¬ (%s %s %s))' % (c[0], '↔' if z3.is_bool(e.arg(0)) else '=', c[1])
        if k == z3.Z3_OP_NOT:
            return '(¬ %s)' % c[0]
        if k == z3.Z3_OP_UMINUS:
            return '(-%s)' % c[0]
        if k == z3.Z3_OP_ITE:
            return '(if %s then %s else %s)' % tuple(c)
        if k == z3.Z3_OP_SELECT:
            return '(%s %s)' % (c[0], c[1])
        if k == z3.Z3_OP_STORE:
            return '(Function.update %s %s %s)' % tuple(c)
        if k == z3.Z3_OP_TO_REAL:
            return '((%s : ℤ) : ℝ)' % c[0]
        if k == z3.Z3_OP_UNINTERPRETED:
            nm = e.decl().name()
            if nm in ('tick', 'tz'):
                return 'True'
            if nm == 'rmul':
                return '(%s * %s)' % tuple(c)
            if nm == 'rdiv':
                return '(%s / %s)' % tuple(c)
            if nm == 'esqrt':
                return '(Real.sqrt %s)' % c[0]
            if self.mode == 'P':
                m = {'eadd': 'o.add', 'esub': 'o.sub', 'emul': 'o.mul', 'ediv': 'o.div', 'eneg': 'o.neg', 'eofint': 'o.ofint',
                     'eabs': 'o.abs', 'eeq': 'o.eq', 'push': 'q.push', 'item_num': 'q.num', 'item_chr': 'q.chr'}.get(nm)
                if m is None:
                    m = nm + 'G' + (' q' if nm == 'ptr' else ' o' if nm != 'MINOR' else '')
                return '(%s %s)' % (m, ' '.join(c))
            if not c:
                if nm in self.free:
                    return nm
                raise Exception('constant ' + nm)
            if nm in ('push', 'item_num', 'item_chr'):
                return '(%s %s)' % ({'push': 'q.push', 'item_num': 'q.num', 'item_chr': 'q.chr'}[nm], ' '.join(c))
            return '(%s %s)' % (nm + ('G q' if nm == 'ptr' else ''), ' '.join(c))
        raise Exception('cannot print %s' % e)


def statement(name, mode):
    g = Alg(mode)
    f, grp, modes = lemmas.LEMMAS[name]
    e = f(g)
    body = Tr(mode).t(e, [])
    pre = ''
    if mode == 'P':
        pre = '∀ {α : Type} (o : Ops α), '
        if grp == 'ptr':
            pre = '∀ {α τ ι : Type} (q : Out α τ ι), '
    elif grp == 'ptr':
        pre = '∀ {τ ι : Type} (q : Out ℝ τ ι), '
    return pre + body


def all_statements():
    """(lean name, lemma, mode, statement)"""
    out = []
    for nm, (f, grp, modes) in lemmas.LEMMAS.items():
        if nm in ELEMENT_ASSUMPTIONS:
            continue
        if 'P' in modes:
            out.append((nm + '_P', nm, 'P', statement(nm, 'P')))
        if 'R' in modes or 'N' in modes:
            sr = statement(nm, 'R') if 'R' in modes else None
            sn = statement(nm, 'N') if 'N' in modes else None
            if sr and sn and sr != sn:
                out.append((nm, nm, 'R', sr))
                out.append((nm + '_N', nm, 'N', sn))
            else:
                out.append((nm, nm, 'R' if sr else 'N', sr or sn))
    return out


def generate():
    lines = ['import Spec', 'set_option autoImplicit false', 'open Classical MLV', 'namespace Stmt', '']
    for ln, nm, mode, s in all_statements():
        lines.append('def %s : Prop :=\n  %s\n' % (ln, s))
    lines.append('end Stmt')
    return '\n'.join(lines) + '\n'


# contracts that C22's laws are derived from
LAW_CONTRACTS = (('operator+', ('mat', 'mat')), ('operator-', ('mat', 'mat')), ('operator*', ('mat', 'mat')), ('zeros', ()),
                 ('eye', ('T',)), ('trans', ('mat',)), ('swap_rows', ('mat', 'int', 'int')), ('det', ('mat',)), ('inv', ('mat',)))
LAWS = ('sum_comm', 'sum_assoc', 'sum_zeros', 'zeros_sum', 'sum_sub', 'sub_self', 'sub_sum', 'mult_assoc', 'mult_sum', 'sum_mult',
        'mult_eye', 'eye_mult', 'trans_trans', 'trans_sum', 'trans_mult', 'det_mult', 'det_trans', 'det_eye', 'det_swap_rows',
        'swap_rows_twice', 'inv_inv', 'det_inv')


class _Ctx:
    def __init__(self, g, spec):
        from .vcg import VMat, VT
        self.g, self.args, self.finals, self.dims = g, {}, {}, {}
        self.vars = []
        for t in spec.targs:
            if t != 'T':
                self.dim(t)
        for p in spec.params:
            if p[1] == 'mat':
                self.args[p[0]] = VMat(self.const(p[0], g.Mat), self.dim(p[2]), self.dim(p[3]))
                if p[-1] == 'inout':
                    self.finals[p[0]] = VMat(self.const('R', g.Mat), self.dim(p[2]), self.dim(p[3]))
            elif p[1] in ('T', 'flt'):
                self.args[p[0]] = VT(self.const(p[0], g.S))
            else:
                self.args[p[0]] = type('I', (), {'t': self.const(p[0], z3.IntSort())})()

    def const(self, nm, sort):
        c = z3.Const(nm, sort)
        self.vars.append((nm, sort))
        return c

    def dim(self, d):
        if d not in self.dims:
            self.dims[d] = self.const(d, z3.IntSort())
        return self.dims[d]

    def __getitem__(self, k):
        return self.dims[k]

    def a(self, k):
        return self.args[k].t


def contracts():
    """the requires / throws / ensures clauses of the contracts, as Lean predicates"""
    from . import specs
    from .vcg import VMat, VT
    lines = ['import Spec', 'set_option autoImplicit false', 'set_option linter.unusedVariables false', 'open Classical MLV',
             'namespace Contract', '']
    ver = type('V', (), {'spec': None, 'inline_stack': [], 'checking': False})()
    for nm, kinds in LAW_CONTRACTS:
        sp = next(s for s in specs.SPECS if s.name == nm and s.kinds() == kinds)
        g = Alg('R')
        c = _Ctx(g, sp)
        r = sp.ret
        v = None
        if r == 'T':
            v = VT(c.const('r', g.S))
        elif isinstance(r, tuple) and r[0] == 'mat':
            v = VMat(c.const('R', g.Mat), sp.d(c, r[1]), sp.d(c, r[2]))
        fs = [f for _, f in sp.ensures(c, v, c.finals, None, ver)]
        pre = [f for _, f in sp.requires(c)]
        th = sp.throws(c)
        tr = Tr('R', {x for x, _ in c.vars})
        ln = {'operator+': 'sum', 'operator-': 'sub', 'operator*': 'mult'}.get(nm, nm)
        vs = [v for v in c.vars if v[0] in c.dims] + [v for v in c.vars if v[0] not in c.dims and v[0] not in ('R', 'r')]
        vs += [v for v in c.vars if v not in vs]
        bs = ' '.join('(%s : %s)' % (x, tr.sort(s)) for x, s in vs)
        body = ' ∧ '.join([tr.t(f, []) for f in fs])
        if th is not None:
            body = '(¬ %s) ∧ %s' % (tr.t(th, []), body)
        if pre:
            body = '(%s) ∧ %s' % (' ∧ '.join(tr.t(f, []) for f in pre), body)
        lines.append('/-- %s returned normally from a call within its precondition -/' % nm)
        lines.append('def %s %s : Prop :=\n  %s\n' % (ln, bs, body))
    lines.append('end Contract')
    return '\n'.join(lines) + '\n'


def sources():
    out = [(f, open(os.path.join(LEANDIR, f)).read()) for f in ('Spec.lean', 'Proofs.lean', 'Laws.lean')]
    return out + [('Stmts.lean', generate()), ('Contracts.lean', contracts())]


def digest():
    h = hashlib.sha256()
    for f, t in sorted(sources()):
        h.update(('%s %d\n%s' % (f, len(t), t)).encode())
    return h.hexdigest()


RECORD = os.path.join(LEANDIR, 'PROVED.json')


def status(rerun=False):
    """what Lean has proved about exactly these definitions and statements: (digest matches, lemmas, laws, problems)"""
    d = digest()
    if rerun:
        pr, pb = check()
    else:
        rec = json.load(open(RECORD)) if os.path.exists(RECORD) else {}
        if rec.get('digest') != d:
            pr, pb = check()
        else:
            pr, pb = rec['proved'], []
    return {'digest': d, 'rerun': rerun, 'lemmas': [x[4:] for x in pr if x.startswith('chk_')],
            'laws': [x[4:] for x in pr if x.startswith('law_')], 'problems': pb}


def check(verbose=False, timeout=1500):
    """-> (proved names, problems)"""
    d = tempfile.mkdtemp(prefix='mlv-lean')
    probs = []
    try:
        for f, txt in sources():
            open(os.path.join(d, f), 'w').write(txt)
        sts = all_statements()
        chk = ['import Laws', 'open MLV']
        for ln in LAWS:
            chk.append('theorem law_%s := @Law.%s' % (ln, ln))
            chk.append('#print axioms law_%s' % ln)
        for ln, nm, mode, s in sts:
            chk.append('theorem chk_%s : Stmt.%s := Proofs.%s' % (ln, ln, ln))
            chk.append('#print axioms chk_%s' % ln)
        open(os.path.join(d, 'Chk.lean'), 'w').write('\n'.join(chk) + '\n')
        env = dict(os.environ)
        env['LEAN_PATH'] = d + (':' + env['LEAN_PATH'] if env.get('LEAN_PATH') else '')
        out = ''
        for m in ('Spec', 'Stmts', 'Proofs', 'Contracts', 'Laws', 'Chk'):
            p = subprocess.run(['lean', '-o', m + '.olean', m + '.lean'], cwd=d, env=env, capture_output=True, text=True, timeout=timeout)
            out = p.stdout + p.stderr
            if verbose and out.strip() and m != 'Chk':
                print(out)
            if p.returncode != 0:
                if m != 'Chk':
                    return [], ['%s.lean: %s' % (m, out[-3000:])]
        proved = []
        for ln in ['chk_' + t[0] for t in sts] + ['law_' + t for t in LAWS]:
            m = re.search(r"'%s' (depends on axioms: \[([^\]]*)\]|does not depend on any axioms)" % re.escape(ln), out)
            if not m:
                probs.append('%s: not proved' % ln)
                continue
            ax = set(x.strip() for x in (m[2] or '').split(',') if x.strip())
            if ax - {'propext', 'Classical.choice', 'Quot.sound'}:
                probs.append('%s: uses %s' % (ln, sorted(ax)))
            else:
                proved.append(ln)
        return proved, probs
    finally:
        shutil.rmtree(d, ignore_errors=True)


if __name__ == '__main__':
    if len(sys.argv) > 1 and sys.argv[1] == 'gen':
        print(generate())
    elif len(sys.argv) > 1 and sys.argv[1] == 'contracts':
        print(contracts())
    else:
        pr, pb = check(verbose=True)
        if not pb:
            json.dump({'digest': digest(), 'proved': pr}, open(RECORD, 'w'), indent=0)
        print('%d lemmas proved in Lean, %d problems' % (len(pr), len(pb)))
        for x in pb:
            print('  ', x)
        sys.exit(1 if pb else 0)
