"""Mechanical extraction: clang AST of the templates in namespace mlib -> IR.

Nothing is rewritten by hand: every function template (and function) that clang
finds in namespace mlib of /repo/matrix/matrix.hpp is translated on every run.
What the translation drops: comments, attributes, inline/static/constexpr
specifiers, exception messages, implicit lvalue-to-rvalue casts.  Anything the
translation does not know raises Unsupported for that function only.
"""
import json, os, re, subprocess, tempfile



def pure(e):
    if isinstance(e, (list, tuple)):
        return all(pure(x) for x in e)
    if not isinstance(e, N):
        return True
    return e.k not in ('assign', 'incdec', 'call', 'method', 'lambda', 'init', 'construct', 'throw') and pure(list(vars(e).values()))


class Unsupported(Exception):
    pass


class ExtractError(Exception):
    pass


class N:
    """IR node"""
    def __init__(self, k, line=None, **kw):
        self.k = k
        self.line = line
        self.__dict__.update(kw)

    def __repr__(self):
        return '(%s %s)' % (self.k, ' '.join('%s=%r' % (a, b) for a, b in self.__dict__.items()
                                             if a not in ('k', 'line', 'uid')))


# ----------------------------------------------------------------- types
TOK = re.compile(r'\s*(?:(\d+)[uUlL]*|([A-Za-z_][A-Za-z_0-9]*(?:::[A-Za-z_][A-Za-z_0-9]*)*)|(&&|[-+*/%<>(),&]))')


def _tokens(s):
    out, i = [], 0
    s = s.strip()
    while i < len(s):
        m = TOK.match(s, i)
        if not m or m.end() == i:
            raise Unsupported('type/expr text %r' % s)
        out.append(('num', int(m[1])) if m[1] else ('id', m[2]) if m[2] else ('p', m[3]))
        i = m.end()
        while i < len(s) and s[i].isspace():
            i += 1
    return out


INTK = {'std::size_t': 'u64', 'size_t': 'u64', 'unsigned long': 'u64', 'int': 'i32', 'unsigned int': 'u32',
        'unsigned': 'u32', 'long': 'i64', 'std::ptrdiff_t': 'i64', 'ptrdiff_t': 'i64', 'long long': 'i64',
        'unsigned long long': 'u64', 'std::uint64_t': 'u64', 'std::int64_t': 'i64',
        'std::uint32_t': 'u32', 'std::int32_t': 'i32', 'uint64_t': 'u64', 'int64_t': 'i64', 'uint32_t': 'u32',
        'int32_t': 'i32', 'std::array::size_type': 'u64',
        'short': 'i16', 'unsigned short': 'u16', 'signed char': 'i8', 'unsigned char': 'u8', 'char': 'i8'}
for _b in (8, 16, 32, 64):
    for _p in ('', 'std::'):
        INTK[_p + 'int%d_t' % _b], INTK[_p + 'uint%d_t' % _b] = 'i%d' % _b, 'u%d' % _b
        for _q in ('least', 'fast'):
            _w = _b if _q == 'least' or _b == 8 else 64
            INTK[_p + 'int_%s%d_t' % (_q, _b)], INTK[_p + 'uint_%s%d_t' % (_q, _b)] = 'i%d' % _w, 'u%d' % _w
    INTK['std::intmax_t'] = INTK['std::intptr_t'] = 'i64'
    INTK['std::uintmax_t'] = INTK['std::uintptr_t'] = 'u64'



class TypeParser:
    def __init__(self, toks):
        self.t, self.i = toks, 0

    def peek(self, v=None):
        if self.i >= len(self.t):
            return None if v is None else False
        return self.t[self.i] if v is None else self.t[self.i][1] == v

    def eat(self, v):
        if not self.peek(v):
            raise Unsupported('expected %r in type' % v)
        self.i += 1

    def ty(self):
        const = False
        words = []
        while self.peek() and self.peek()[0] == 'id':
            w = self.peek()[1]
            if w in ('const', 'volatile'):
                const = True
                self.i += 1
                continue
            if w in ('typename', 'class', 'struct'):
                self.i += 1
                continue
            if words and not (words[-1] in ('unsigned', 'signed', 'long', 'short')):
                break
            words.append(w)
            self.i += 1
        if not words:
            raise Unsupported('no type name')
        name = ' '.join(words)
        if name == 'long unsigned int':
            name = 'unsigned long'
        args = None
        if self.peek('<'):
            self.eat('<')
            args = []
            while True:
                args.append(self.targ())
                if self.peek(','):
                    self.eat(',')
                    continue
                break
            self.eat('>')
        while self.peek() and self.peek()[1] == 'const':
            const = True
            self.i += 1
        base = name.split('::')[-1]
        if base == 'Matrix' and args and len(args) == 3:
            t = ('mat', args[0], args[1], args[2])
        elif base == 'array' and args and len(args) == 2:
            e = args[0]
            if e[0] == 'row':
                t = ('mat', e[1], args[1], e[2])
            else:
                t = ('row', e, args[1])
        elif base == 'pair' and args:
            t = ('pair', args[0], args[1])
        elif base == 'map' and args:
            t = ('map', args[0], args[1])
        elif base == 'vector' and args:
            t = ('vec', args[0])
        elif name in INTK and not args:
            t = ('int', INTK[name])
        elif name == 'bool':
            t = ('bool',)
        elif name in ('float', 'double', 'void', 'auto', 'long double'):
            t = (name,)
        elif not args:
            t = ('name', name)
        else:
            t = ('other', name)
        ref = ''
        while self.peek('&') or self.peek('&&') or (self.peek() and self.peek()[1] in ('const', '*')):
            if self.peek('*'):
                raise Unsupported('pointer type')
            if self.peek()[1] != 'const':
                ref = self.peek()[1]
            self.i += 1
        self.const, self.ref = const, ref
        return t

    def targ(self):
        save = self.i
        if self.peek()[0] == 'id':
            try:
                t = self.ty()
                if self.peek() and self.peek()[1] in (',', '>'):
                    if t[0] == 'name':
                        return ('name', t[1])      # type parameter or value: resolved later
                    return t
            except Unsupported:
                pass
            self.i = save
        return self.ex(0)

    PREC = {'+': 1, '-': 1, '*': 2, '/': 2, '%': 2}

    def ex(self, p):
        if self.peek('('):
            self.eat('(')
            a = self.ex(0)
            self.eat(')')
        elif self.peek()[0] == 'num':
            a = ('num', self.peek()[1])
            self.i += 1
        elif self.peek()[0] == 'id':
            a = ('name', self.peek()[1])
            self.i += 1
        else:
            raise Unsupported('dimension expression')
        while self.peek() and self.peek()[0] == 'p' and self.PREC.get(self.peek()[1], -1) > p:
            op = self.peek()[1]
            self.i += 1
            b = self.ex(self.PREC[op])
            a = ('op', op, a, b)
        return a


def parse_type(s):
    """-> (type tuple, const, ref)"""
    p = TypeParser(_tokens(s))
    t = p.ty()
    c, r = p.const, p.ref
    if p.i != len(p.t):
        raise Unsupported('type %r' % s)
    return t, c, r


# ----------------------------------------------------------------- functions
class Func:
    def __init__(self):
        self.name = self.file = self.line = None
        self.tparams = []       # ('type', name, default) | ('val', name, default)
        self.params = []        # (id, name, type, const, ref, default IR)
        self.ret = None
        self.body = None
        self.error = None       # Unsupported reason, if any
        self.text = ''
        self.statics = []       # frame facts: static/global state used

    def loc(self):
        return '%s:%s' % (os.path.basename(self.file or '?'), self.line)


# a client may well have included these before the library; a header that forgets one of them still means the same
PREAMBLE = ''.join('#include <%s>\n' % h for h in (
    'algorithm array cassert cmath complex cstddef cstdint cstdlib cstring functional initializer_list iostream iterator '
    'limits map memory numeric set stdexcept string tuple type_traits utility vector').split())


class Extractor:
    def __init__(self, repo='/repo', defines=(), std='c++14', header='matrix.hpp'):
        self.repo = repo
        inc = os.path.join(repo, 'matrix')
        with tempfile.TemporaryDirectory(prefix='mlv_') as d:
            probe = os.path.join(d, 'probe.cpp')
            open(probe, 'w').write(''.join('#define %s 1\n' % x for x in defines) + PREAMBLE + '#include "%s"\n' % header)
            cmd = ['clang++', '-std=' + std, '-fsyntax-only', '-w', '-I', inc, '-Xclang', '-ast-dump=json',
                   '-Xclang', '-ast-dump-filter=mlib', probe]
            r = subprocess.run(cmd, capture_output=True, text=True)
            if r.returncode != 0:
                raise ExtractError('clang rejects the headers:\n' + r.stderr[:4000])
            s = r.stdout
        dec = json.JSONDecoder()
        self.roots, i = [], 0
        while True:
            while i < len(s) and s[i].isspace():
                i += 1
            if i >= len(s):
                break
            o, i = dec.raw_decode(s, i)
            self.roots.append(o)
        self.cur = {'file': None, 'line': None}
        self.srccache = {}
        for o in self.roots:
            self.annotate(o)
        self.funcs = []
        self.globals = []
        self.names = None
        seen = set()
        for o in self.roots:
            if o.get('kind') == 'NamespaceDecl':
                self.namespace(o, seen)
            elif o.get('kind') in ('FunctionTemplateDecl', 'FunctionDecl'):
                self.toplevel(o, seen)

    # -- locations
    def locupd(self, l):
        if not isinstance(l, dict):
            return
        if 'spellingLoc' in l or 'expansionLoc' in l:
            self.locupd(l.get('spellingLoc'))
            self.locupd(l.get('expansionLoc'))
            return
        if 'file' in l:
            self.cur['file'] = l['file']
        if 'line' in l:
            self.cur['line'] = l['line']

    def annotate(self, n):
        if not isinstance(n, dict):
            return
        if 'loc' in n:
            self.locupd(n['loc'])
            n['_dline'] = self.cur['line']
        if 'range' in n:
            b = n['range'].get('begin', {})
            self.locupd(b)
            n['_file'], n['_line'] = self.cur['file'], self.cur['line']
            bb = b.get('expansionLoc', b)
            n['_b'] = bb.get('offset')
            e = n['range'].get('end', {})
            self.locupd(e)
            ee = e.get('expansionLoc', e)
            n['_e'] = None if ee.get('offset') is None else ee['offset'] + ee.get('tokLen', 0)
        for c in n.get('inner', []):
            self.annotate(c)

    def src(self, n):
        f = n.get('_file')
        if not f or n.get('_b') is None or n.get('_e') is None:
            return ''
        if f not in self.srccache:
            self.srccache[f] = open(f, 'rb').read()
        return self.srccache[f][n['_b']:n['_e']].decode('utf8', 'replace')

    # -- declarations
    def namespace(self, o, seen):
        for c in o.get('inner', []):
            if c.get('kind') == 'NamespaceDecl':
                self.namespace(c, seen)
            else:
                self.toplevel(c, seen)

    def toplevel(self, c, seen):
        k = c.get('kind')
        if c.get('id') in seen:
            return
        seen.add(c.get('id'))
        if k == 'FunctionTemplateDecl':
            fd = [x for x in c.get('inner', []) if x.get('kind') == 'FunctionDecl']
            if fd and any(x.get('kind') == 'CompoundStmt' for x in fd[0].get('inner', [])):
                self.func(fd[0], [x for x in c['inner'] if x.get('kind') in
                                  ('TemplateTypeParmDecl', 'NonTypeTemplateParmDecl', 'TemplateTemplateParmDecl')])
        elif k == 'FunctionDecl':
            if any(x.get('kind') == 'CompoundStmt' for x in c.get('inner', [])):
                self.func(c, [])
        elif k == 'VarDecl':
            self.globals.append((c.get('name'), c.get('type', {}).get('qualType', ''), c.get('constexpr', False)))
        elif k in ('ClassTemplateDecl', 'CXXRecordDecl', 'VarTemplateDecl'):
            for x in self.variables(c):
                self.globals.append((x.get('name'), x.get('type', {}).get('qualType', ''), x.get('constexpr', False)))

    def variables(self, n):
        out = []
        for c in n.get('inner', []):
            if c.get('kind') == 'VarDecl' and (c.get('storageClass') == 'static' or c.get('tls') or n.get('kind') == 'VarTemplateDecl'):
                out.append(c)
            else:
                out += self.variables(c)
        return out

    def func(self, fd, tps):
        f = Func()
        f.name = fd['name']
        f.file, f.line = fd.get('_file'), fd.get('_dline') or fd.get('_line')
        f.text = self.src(fd)
        self.state(fd, f.statics)
        try:
            for tp in tps:
                if tp.get('isParameterPack'):
                    raise Unsupported('parameter pack')
                dfl = None
                for x in tp.get('inner', []):
                    if x.get('kind') == 'TemplateArgument':
                        dfl = self.src(tp).split('=', 1)[-1].strip() if '=' in self.src(tp) else None
                if tp['kind'] == 'TemplateTypeParmDecl':
                    f.tparams.append(('type', tp.get('name'), dfl))
                elif tp['kind'] == 'NonTypeTemplateParmDecl':
                    f.tparams.append(('val', tp.get('name'), dfl))
                else:
                    raise Unsupported('template template parameter')
            qt = fd['type']['qualType']
            f.retauto = False
            rets = self.ret_text(qt)
            f.ret, _, rref = parse_type(rets)
            if rref:
                raise Unsupported('reference return type')
            body = None
            for x in fd.get('inner', []):
                if x.get('kind') == 'ParmVarDecl':
                    t, c, r = parse_type(x['type']['qualType'])
                    d = None
                    ini = [y for y in x.get('inner', []) if not y.get('kind', '').endswith('Comment')]
                    if ini:
                        d = self.expr(ini[0])
                    f.params.append((x['id'], x.get('name', ''), t, c, r, d))
                elif x.get('kind') == 'CompoundStmt':
                    body = x
            self.curf = f
            f.body = self.stmt(body)
        except Unsupported as e:
            f.error = str(e)
            try:
                if not f.params:
                    for x in fd.get('inner', []):
                        if x.get('kind') == 'ParmVarDecl':
                            t, c, r = parse_type(x['type']['qualType'])
                            f.params.append((x['id'], x.get('name', ''), t, c, r, None))
            except Unsupported:
                pass
        self.funcs.append(f)

    @staticmethod
    def ret_text(qt):
        depth, i = 0, 0
        # 'Ret (Args)' : find the '(' at angle depth 0 that starts the parameter list
        for i, ch in enumerate(qt):
            if ch == '<':
                depth += 1
            elif ch == '>':
                depth -= 1
            elif ch == '(' and depth == 0:
                return qt[:i].strip()
        return qt

    # -- statements
    def kids(self, n):
        return [x for x in n.get('inner', []) if not x.get('kind', '').endswith('Comment')]

    def stmt(self, n):
        k = n.get('kind')
        ln = n.get('_line')
        if k is None:
            return N('block', ln, body=[])
        if k == 'CompoundStmt':
            return N('block', ln, body=[self.stmt(x) for x in self.kids(n)])
        if k == 'DeclStmt':
            return N('block', ln, body=[d for x in self.kids(n) for d in self.decl(x)], noscope=True)
        if k == 'IfStmt':
            ch = self.kids(n)
            if n.get('hasInit') or n.get('hasVar'):
                raise Unsupported('if with initialiser')
            c = self.expr(ch[0])
            return N('if', ln, c=c, a=self.stmt(ch[1]), b=self.stmt(ch[2]) if len(ch) > 2 else None)
        if k == 'ForStmt':
            ch = self.kids(n)
            return N('for', ln, init=self.stmt(ch[0]) if ch[0].get('kind') else None,
                     c=self.expr(ch[2]) if ch[2].get('kind') else None,
                     inc=self.expr(ch[3]) if ch[3].get('kind') else None, body=self.stmt(ch[4]), uid=n['id'])
        if k == 'WhileStmt':
            ch = self.kids(n)
            if n.get('hasVar'):
                raise Unsupported('while with declaration')
            return N('for', ln, init=None, c=self.expr(ch[0]), inc=None, body=self.stmt(ch[1]), uid=n['id'])
        if k == 'DoStmt':
            ch = self.kids(n)
            return N('do', ln, c=self.expr(ch[1]), body=self.stmt(ch[0]), uid=n['id'])
        if k == 'CXXForRangeStmt':
            ch = n.get('inner', [])
            rng = [x for x in ch if x.get('kind') == 'DeclStmt']
            rv = rng[0]['inner'][0]
            lv = rng[-1]['inner'][0]
            body = ch[-1]
            t, c, r = parse_type(lv['type']['qualType'])
            return N('rangefor', ln, var=(lv['id'], lv.get('name'), t, c, r), rng=self.expr(self.kids(rv)[0]),
                     body=self.stmt(body), uid=n['id'])
        if k == 'ReturnStmt':
            ch = self.kids(n)
            return N('return', ln, e=self.expr(ch[0]) if ch else None)
        if k == 'BreakStmt':
            return N('break', ln)
        if k == 'ContinueStmt':
            return N('continue', ln)
        if k == 'NullStmt':
            return N('block', ln, body=[])
        if k == 'SwitchStmt':
            return self.switch(n)
        if k in ('GotoStmt', 'CXXTryStmt', 'LabelStmt', 'AttributedStmt', 'GCCAsmStmt'):
            raise Unsupported(k)
        return N('expr', ln, e=self.expr(n))

    def switch(self, n):
        """a switch over a side-effect free value as the chain of comparisons it is; each label gets the statements from it
        to the next top-level break"""
        ch = self.kids(n)
        if n.get('hasInit') or n.get('hasVar') or len(ch) != 2 or ch[1].get('kind') != 'CompoundStmt':
            raise Unsupported('SwitchStmt')
        c = self.expr(ch[0])
        if not pure(c):
            raise Unsupported('switch over an expression with effects')
        items, labels = [], []

        def put(x):
            if x.get('kind') == 'CaseStmt':
                k = self.kids(x)
                if len(k) != 2:
                    raise Unsupported('case range')
                labels.append((self.expr(k[0]), len(items)))
                put(k[1])
            elif x.get('kind') == 'DefaultStmt':
                labels.append((None, len(items)))
                put(self.kids(x)[0])
            elif x.get('kind') == 'DeclStmt':
                raise Unsupported('declaration directly in a switch')
            else:
                items.append(self.stmt(x))
        for x in self.kids(ch[1]):
            put(x)

        def nested(s):
            if not isinstance(s, N):
                return isinstance(s, (list, tuple)) and any(nested(x) for x in s)
            if s.k == 'break':
                return True
            return s.k not in ('for', 'do', 'rangefor', 'lambda') and any(nested(v) for v in vars(s).values())

        def tail(i):
            out = []

            def add(seq):
                for s in seq:
                    if s.k == 'break':
                        return True
                    if s.k == 'block' and nested(s):
                        inner = N('block', s.line, body=[])
                        keep = list(out)
                        out.clear()
                        done = add(s.body)
                        inner.body = list(out)
                        out[:] = keep + [inner]
                        if done:
                            return True
                        continue
                    if nested(s):
                        raise Unsupported('break inside a statement of a switch')
                    out.append(s)
                    if s.k in ('return', 'continue'):
                        return True
                return False
            add(items[i:])
            return N('block', n.get('_line'), body=out)
        d = [i for v, i in labels if v is None]
        res = tail(d[0]) if d else None
        for v, i in reversed([x for x in labels if x[0] is not None]):
            res = N('if', n.get('_line'), c=N('bin', n.get('_line'), op='==', a=c, b=v), a=tail(i), b=res)
        return res if res is not None else N('block', n.get('_line'), body=[])

    def state(self, n, out):
        """every variable with static or thread storage below n that is not one fixed value"""
        if not isinstance(n, dict):
            return
        if n.get('kind') == 'VarDecl' and (n.get('tls') or n.get('storageClass') in ('static', 'extern')):
            if n.get('tls') or not (n.get('constexpr') or self.static_constant(n)):
                out.append((n.get('name'), n.get('_line')))
        for c in n.get('inner', []):
            self.state(c, out)

    def library_names(self):
        if self.names is None:
            self.names = set()

            def walk(n):
                for c in n.get('inner', []):
                    if c.get('kind') in ('FunctionTemplateDecl', 'FunctionDecl'):
                        self.names.add(c.get('name'))
                    elif c.get('kind') == 'NamespaceDecl':
                        walk(c)
            for o in self.roots:
                walk({'inner': [o]})
        return self.names

    def static_constant(self, x):
        """a const static whose initialiser mentions no variable and calls nothing but this library (which keeps no state
        either, or is reported for it): the same value on every call"""
        q = x.get('type', {}).get('qualType', '')
        if x.get('storageClass') != 'static' or not q.startswith('const ') or '*' in q or '&' in q:
            return False

        def callee(n):
            n = self.unwrap(n)
            nm = n.get('name') or n.get('referencedDecl', {}).get('name')
            kind = n.get('referencedDecl', {}).get('kind', 'FunctionDecl')
            return n.get('kind') in ('DeclRefExpr', 'UnresolvedLookupExpr') and kind in ('FunctionDecl', 'FunctionTemplateDecl') \
                and nm in self.library_names()

        def pure(n):
            if not isinstance(n, dict):
                return True
            if n.get('kind') == 'DeclRefExpr' and n.get('referencedDecl', {}).get('kind') != 'NonTypeTemplateParmDecl':
                return False
            if n.get('kind') == 'CallExpr':
                k = self.kids(n)
                return bool(k) and callee(k[0]) and all(pure(c) for c in k[1:])
            if 'CallExpr' in n.get('kind', ''):
                return False
            return all(pure(c) for c in n.get('inner', []))
        return all(pure(c) for c in self.kids(x))

    def decl(self, x):
        k = x.get('kind')
        if k == 'VarDecl':
            if x.get('storageClass') in ('static', 'extern') and not x.get('constexpr') and not self.static_constant(x):
                raise Unsupported('static local variable %s (state kept between calls)' % x.get('name'))
            if x.get('tls'):
                raise Unsupported('thread_local variable %s' % x.get('name'))
            ini = self.kids(x)
            qt = x['type']['qualType']
            if qt.startswith('(lambda') or (ini and self.unwrap(ini[0]).get('kind') == 'LambdaExpr'):
                return [N('decl', x.get('_line'), id=x['id'], name=x['name'], ty=('auto',), const=True, ref='',
                          init=self.expr(ini[0]), style='c')]
            t, c, r = parse_type(qt)
            return [N('decl', x.get('_line'), id=x['id'], name=x['name'], ty=t, const=c, ref=r,
                      init=self.expr(ini[0]) if ini else None, style=x.get('init'), kind2=x.get('constexpr', False))]
        if k in ('StaticAssertDecl', 'EmptyDecl', 'UsingDecl', 'UsingDirectiveDecl'):
            return []
        if k in ('TypeAliasDecl', 'TypedefDecl'):
            t, c, r = parse_type(x['type']['qualType'])
            return [N('alias', x.get('_line'), name=x['name'], ty=t)]
        raise Unsupported('declaration ' + str(k))

    def unwrap(self, n):
        while n.get('kind') in ('ImplicitCastExpr', 'ParenExpr', 'ExprWithCleanups', 'MaterializeTemporaryExpr',
                                'CXXBindTemporaryExpr', 'ConstantExpr') and self.kids(n):
            n = self.kids(n)[0]
        return n

    # -- expressions
    def ty(self, n):
        return n.get('type', {}).get('qualType', '')

    def expr(self, n):
        k = n.get('kind')
        ln = n.get('_line')
        ch = self.kids(n)
        if k in ('ParenExpr', 'ExprWithCleanups', 'MaterializeTemporaryExpr', 'CXXBindTemporaryExpr', 'ConstantExpr',
                 'SubstNonTypeTemplateParmExpr'):
            return self.expr(ch[-1])
        if k == 'ImplicitCastExpr':
            ck = n.get('castKind')
            e = self.expr(ch[0])
            if ck in ('IntegralCast', 'IntegralToFloating', 'FloatingCast', 'FloatingToIntegral', 'IntegralToBoolean',
                      'FloatingToBoolean'):
                try:
                    t, _, _ = parse_type(n['type']['qualType'])
                except Unsupported:
                    t, _, _ = parse_type(n['type'].get('desugaredQualType', '?'))
                return N('cast', ln, ty=t, e=e, implicit=True)
            if ck in ('LValueToRValue', 'NoOp', 'FunctionToPointerDecay', 'ArrayToPointerDecay', 'ConstructorConversion',
                      'UserDefinedConversion'):
                return e
            raise Unsupported('cast ' + str(ck))
        if k == 'IntegerLiteral':
            t, _, _ = parse_type(self.ty(n))
            return N('num', ln, v=int(n['value']), ty=t)
        if k == 'FloatingLiteral':
            return N('flt', ln, v=str(n['value']), ty=(self.ty(n),))
        if k == 'CXXBoolLiteralExpr':
            return N('bool', ln, v=bool(n['value']))
        if k == 'DeclRefExpr':
            rd = n.get('referencedDecl', {})
            rk = rd.get('kind')
            if rk == 'VarDecl' and rd.get('name') in ('cout', 'cerr', 'clog') and 'ostream' in self.ty(n):
                return N('fref', ln, name=rd['name'], text=self.src(n))
            if rk in ('VarDecl', 'ParmVarDecl'):
                return N('var', ln, id=rd['id'], name=rd.get('name'))
            if rk == 'NonTypeTemplateParmDecl':
                return N('tparam', ln, name=rd.get('name'))
            if rk in ('FunctionDecl', 'FunctionTemplateDecl'):
                return N('fref', ln, name=rd.get('name'), text=self.src(n))
            raise Unsupported('reference to ' + str(rk))
        if k in ('UnresolvedLookupExpr',):
            return N('fref', ln, name=n.get('name'), text=self.src(n))
        if k == 'ArraySubscriptExpr':
            return N('sub', ln, b=self.expr(ch[0]), i=self.expr(ch[1]))
        if k == 'BinaryOperator':
            op = n['opcode']
            if op == '=':
                return N('assign', ln, op='', l=self.expr(ch[0]), r=self.expr(ch[1]))
            if op == ',':
                return N('comma', ln, a=self.expr(ch[0]), b=self.expr(ch[1]))
            return N('bin', ln, op=op, a=self.expr(ch[0]), b=self.expr(ch[1]))
        if k == 'CompoundAssignOperator':
            return N('assign', ln, op=n['opcode'][:-1], l=self.expr(ch[0]), r=self.expr(ch[1]))
        if k == 'UnaryOperator':
            op = n['opcode']
            if op in ('++', '--'):
                return N('incdec', ln, op=op, post=bool(n.get('isPostfix')), e=self.expr(ch[0]))
            if op == '*':
                return N('deref', ln, e=self.expr(ch[0]))
            if op == '&':
                raise Unsupported('pointer operator ' + op)
            return N('un', ln, op=op, e=self.expr(ch[0]))
        if k == 'ConditionalOperator':
            return N('cond', ln, c=self.expr(ch[0]), a=self.expr(ch[1]), b=self.expr(ch[2]))
        if k in ('CXXStaticCastExpr', 'CXXFunctionalCastExpr', 'CStyleCastExpr'):
            src = self.unwrap(ch[0])
            if src.get('kind') == 'CXXConstructExpr':
                return N('construct', ln, ty=self.ty(n), args=[self.expr(x) for x in self.kids(src)])
            t, _, r = parse_type(self.ty(n))
            if r:
                raise Unsupported('cast to reference')
            return N('cast', ln, ty=t, e=self.expr(ch[0]), implicit=False)
        if k in ('CXXConstCastExpr', 'CXXReinterpretCastExpr', 'CXXDynamicCastExpr'):
            raise Unsupported(k)
        if k == 'CXXUnresolvedConstructExpr':
            t, _, _ = parse_type(self.ty(n))
            if len(ch) == 1 and ch[0].get('kind') == 'InitListExpr':
                return N('init', ln, ty=t, e=[self.expr(x) for x in self.kids(ch[0])])
            if len(ch) == 1:
                return N('cast', ln, ty=t, e=self.expr(ch[0]), implicit=False)
            return N('init', ln, ty=t, e=[self.expr(x) for x in ch])
        if k == 'InitListExpr':
            return N('init', ln, ty=None, e=[self.expr(x) for x in ch])
        if k == 'CXXScalarValueInitExpr':
            t, _, _ = parse_type(self.ty(n))
            return N('init', ln, ty=t, e=[])
        if k == 'ImplicitValueInitExpr':
            return N('init', ln, ty=None, e=[])
        if k == 'CXXConstructExpr':
            if len(ch) == 1:
                return self.expr(ch[0])
            return N('construct', ln, ty=self.ty(n), args=[self.expr(x) for x in ch])
        if k == 'CXXOperatorCallExpr':
            f = self.unwrap(ch[0])
            name = f.get('name') or f.get('referencedDecl', {}).get('name') or f.get('foundReferencedDecl', {}).get('name')
            if not name:
                raise Unsupported('operator call')
            op = name.replace('operator', '').strip()
            a = [self.expr(x) for x in ch[1:]]
            if op == '[]':
                return N('sub', ln, b=a[0], i=a[1])
            if op == '=':
                return N('assign', ln, op='', l=a[0], r=a[1])
            if op == '()':
                return N('call', ln, f=a[0], args=a[1:])
            if op in ('+=', '-=', '*=', '/=', '%='):
                return N('assign', ln, op=op[:-1], l=a[0], r=a[1])
            if op in ('++', '--'):
                return N('incdec', ln, op=op, post=len(a) == 2, e=a[0])
            if len(a) == 2:
                return N('bin', ln, op=op, a=a[0], b=a[1])
            if op == '*':
                return N('deref', ln, e=a[0])
            if op in ('&', '->'):
                raise Unsupported('pointer operator ' + op)
            return N('un', ln, op=op, e=a[0])
        if k == 'CallExpr':
            f = self.unwrap(ch[0])
            args = [self.expr(x) for x in ch[1:]]
            if f.get('kind') in ('CXXDependentScopeMemberExpr', 'MemberExpr', 'UnresolvedMemberExpr'):
                return N('method', ln, o=self.member_base(f), name=self.member_name(f), args=args)
            return N('call', ln, f=self.expr(f), args=args)
        if k == 'CXXMemberCallExpr':
            f = self.unwrap(ch[0])
            return N('method', ln, o=self.member_base(f), name=self.member_name(f), args=[self.expr(x) for x in ch[1:]])
        if k in ('CXXDependentScopeMemberExpr', 'MemberExpr'):
            return N('member', ln, o=self.member_base(n), name=self.member_name(n))
        if k == 'LambdaExpr':
            return self.lam(n)
        if k == 'CXXThrowExpr':
            if not ch:
                return N('throw', ln, ty=None)
            return N('throw', ln, ty=self.ty(ch[0]))
        if k == 'StringLiteral':
            return N('str', ln, v=n.get('value'))
        if k == 'CharacterLiteral':
            return N('str', ln, v=chr(int(n.get('value'))))
        if k == 'CXXDefaultArgExpr':
            raise Unsupported('default argument')
        raise Unsupported(str(k))

    def member_base(self, n):
        ch = self.kids(n)
        if not ch:
            raise Unsupported('implicit this')
        if n.get('isArrow'):
            return N('deref', n.get('_line'), e=self.expr(ch[0]))
        return self.expr(ch[0])

    def member_name(self, n):
        nm = n.get('member') or n.get('name') or ''
        if not nm:
            t = self.src(n)
            nm = re.split(r'\.|->', t)[-1].strip()
        return nm.lstrip('.')

    def lam(self, n):
        rec = [x for x in n.get('inner', []) if x.get('kind') == 'CXXRecordDecl']
        op = [x for r in rec for x in r.get('inner', []) if x.get('kind') in ('CXXMethodDecl',) and
              x.get('name') == 'operator()']
        if not op:
            # generic lambda
            op = [y for r in rec for x in r.get('inner', []) if x.get('kind') == 'FunctionTemplateDecl'
                  for y in x.get('inner', []) if y.get('kind') == 'CXXMethodDecl']
        if not op:
            raise Unsupported('lambda shape')
        params = []
        for x in op[0].get('inner', []):
            if x.get('kind') == 'ParmVarDecl':
                q = x['type']['qualType']
                q = re.sub(r'auto:\d+', 'auto', q)
                t, c, r = parse_type(q)
                params.append((x['id'], x.get('name'), t, c, r, None))
        body = [x for x in op[0].get('inner', []) if x.get('kind') == 'CompoundStmt']
        if not body:
            body = [x for x in n.get('inner', []) if x.get('kind') == 'CompoundStmt']
        text = self.src(n)
        cap = text[text.find('[') + 1:text.find(']')].strip()
        caps = [x.strip() for x in cap.split(',') if x.strip()]
        refs = {x[1:].strip() for x in caps if x.startswith('&') and len(x) > 1}
        vals = {x for x in caps if not x.startswith('&') and x != '='}
        if any(not re.fullmatch(r'\w+', x) for x in refs | vals):
            raise Unsupported('lambda capture')
        if '&' in caps:
            if vals:
                raise Unsupported('mixed lambda capture')
            byref = True
        elif not refs:
            byref = not caps
        else:
            byref = True if len(refs) == len(caps) else refs    # names captured by reference, the others by value
        if 'mutable' in text[:text.find('{')]:
            raise Unsupported('mutable lambda')
        rt = None
        q = op[0]['type']['qualType']
        if '->' in q:
            rt, _, rr = parse_type(q.split('->')[-1])
            if rr:
                raise Unsupported('lambda returning reference')
        return N('lambda', n.get('_line'), params=params, body=self.stmt(body[0]), byref=byref, rt=rt, cap=cap)


if __name__ == '__main__':
    import sys
    ex = Extractor(sys.argv[1] if len(sys.argv) > 1 else '/repo')
    for f in ex.funcs:
        print(f.loc(), f.name, f.tparams, [p[1:5] for p in f.params], f.ret, 'ERROR ' + f.error if f.error else 'ok')
    print(ex.globals)
