"""Mechanical translation of a repository module, redone from /repo's current text on every run.

The translation keeps every statement and expression of the module; it only changes the *form* of
constructs Python gives no hook for: loops become calls of the engine's loop rule with the body as a
nested function, comprehensions become such loops over an accumulating list, list/dict displays
become journaled lists/dicts, string formatting becomes an opaque string.
"""
import ast, os, copy, hashlib

REPO = os.environ.get('VC_REPO', '/repo')

class _Names(ast.NodeVisitor):
    """names bound in a function body (not in nested scopes)"""
    def __init__(self):
        self.bound, self.glob, self.nonl = [], set(), set()
    def _b(self, n):
        if n not in self.bound:
            self.bound.append(n)
    def visit_Name(self, n):
        if isinstance(n.ctx, (ast.Store, ast.Del)):
            self._b(n.id)
    def visit_FunctionDef(self, n):
        self._b(n.name)
        for d in n.decorator_list: self.visit(d)
    visit_AsyncFunctionDef = visit_FunctionDef
    visit_ClassDef = visit_FunctionDef
    def visit_Lambda(self, n): pass
    def _comp(self, n):
        # only walrus targets would leak
        pass
    visit_ListComp = visit_SetComp = visit_GeneratorExp = visit_DictComp = _comp
    def visit_Import(self, n):
        for a in n.names: self._b((a.asname or a.name).split('.')[0])
    visit_ImportFrom = visit_Import
    def visit_ExceptHandler(self, n):
        if n.name: self._b(n.name)
        self.generic_visit(n)
    def visit_Global(self, n): self.glob.update(n.names)
    def visit_Nonlocal(self, n): self.nonl.update(n.names)

def bound_names(stmts):
    v = _Names()
    for s in stmts:
        v.visit(s)
    return v

def contains(node_or_list, types):
    lst = node_or_list if isinstance(node_or_list, list) else [node_or_list]
    return any(isinstance(n, types) for s in lst for n in ast.walk(s))

def nm(s): return ast.Name(id=s, ctx=ast.Load())
def vcattr(a): return ast.Attribute(value=nm('vc__'), attr=a, ctx=ast.Load())
def call(f, *args): return ast.Call(func=f, args=list(args), keywords=[])

class Xform:
    def __init__(self, modname):
        self.k = 0
        self.modname = modname
        self.fstack = []
        self.strings = False

    def fresh(self, p):
        self.k += 1
        return '%s_%d__' % (p, self.k)

    # ---------------------------------------------------------------- module / class level
    def module(self, tree):
        tree.body = [self.top(s) for s in tree.body]
        return tree

    def top(self, s):
        if isinstance(s, ast.FunctionDef):
            return self.func(s)
        if isinstance(s, ast.ClassDef):
            s.body = [self.top(x) for x in s.body]
            return s
        if isinstance(s, (ast.If, ast.Try, ast.With)):
            for f in ('body', 'orelse', 'finalbody'):
                if getattr(s, f, None):
                    setattr(s, f, [self.top(x) for x in getattr(s, f)])
            for h in getattr(s, 'handlers', []):
                h.body = [self.top(x) for x in h.body]
            return s
        return s

    # ---------------------------------------------------------------- functions
    def func(self, f):
        params = [a.arg for a in f.args.posonlyargs + f.args.args + f.args.kwonlyargs]
        if f.args.vararg: params.append(f.args.vararg.arg)
        if f.args.kwarg: params.append(f.args.kwarg.arg)
        names = bound_names(f.body)
        isgen = any(isinstance(n, (ast.Yield, ast.YieldFrom)) for s in f.body for n in self._own(s))
        info = {'name': f.name, 'params': params, 'loops': 0,
                'locals': [n for n in names.bound if n not in names.glob and n not in names.nonl and n not in params],
                'nonl': names.nonl, 'glob': names.glob, 'inloop': False, 'gen': isgen}
        self.fstack.append(info)
        doc = []
        body = f.body
        if body and isinstance(body[0], ast.Expr) and isinstance(body[0].value, ast.Constant) and isinstance(body[0].value.value, str):
            doc, body = body[:1], body[1:]
        nb = self.block(body)
        pre = []
        decl = [s for s in nb if isinstance(s, (ast.Global, ast.Nonlocal))]
        nb = [s for s in nb if not isinstance(s, (ast.Global, ast.Nonlocal))]
        if info['loops']:
            fn_names = {s.name for s in f.body if isinstance(s, (ast.FunctionDef, ast.ClassDef))}
            for n in info['locals']:
                pre.append(ast.Assign(targets=[ast.Name(id=n, ctx=ast.Store())], value=vcattr('UNBOUND')))
        f.body = doc + decl + pre + nb or [ast.Pass()]
        self.fstack.pop()
        return f

    def _own(self, s):
        """walk without entering nested functions"""
        st = [s]
        while st:
            n = st.pop()
            yield n
            if isinstance(n, (ast.FunctionDef, ast.Lambda, ast.ClassDef)) and n is not s:
                continue
            if isinstance(n, (ast.FunctionDef, ast.Lambda, ast.ClassDef)):
                continue
            st.extend(ast.iter_child_nodes(n))

    def block(self, stmts):
        out = []
        for s in stmts:
            out.extend(self.stmt(s))
        return out

    def stmt(self, s):
        h = []
        if isinstance(s, ast.FunctionDef):
            return [self.func(s)]
        if isinstance(s, ast.ClassDef):
            return [self.top(s)]
        if isinstance(s, ast.For):
            return self.for_(s)
        if isinstance(s, ast.While):
            return self.while_(s)
        if isinstance(s, ast.If):
            s.test = self.expr(s.test, h)
            s.body = self.block(s.body) or [ast.Pass()]
            s.orelse = self.block(s.orelse)
            return h + [s]
        if isinstance(s, ast.Try):
            s.body = self.block(s.body)
            for hd in s.handlers:
                if hd.type is None:
                    hd.type = nm('Exception')
                hd.body = self.block(hd.body)
            s.orelse = self.block(s.orelse)
            s.finalbody = self.block(s.finalbody)
            return [s]
        if isinstance(s, ast.With):
            for it in s.items:
                it.context_expr = self.expr(it.context_expr, h)
            s.body = self.block(s.body)
            return h + [s]
        if isinstance(s, ast.Return):
            v = self.expr(s.value, h) if s.value is not None else ast.Constant(value=None)
            if self.fstack[-1]['inloop']:
                v = ast.Tuple(elts=[ast.Constant(value='return'), v], ctx=ast.Load())
            return h + [ast.Return(value=v)]
        if isinstance(s, ast.Break):
            return [ast.Return(value=ast.Tuple(elts=[ast.Constant(value='break')], ctx=ast.Load()))]
        if isinstance(s, ast.Continue):
            return [ast.Return(value=ast.Tuple(elts=[ast.Constant(value='next')], ctx=ast.Load()))]
        if isinstance(s, ast.Match):
            raise SyntaxError('match statement')
        # simple statements: transform their expressions
        for field, val in ast.iter_fields(s):
            if isinstance(val, ast.expr):
                setattr(s, field, self.expr(val, h))
            elif isinstance(val, list) and val and isinstance(val[0], ast.expr):
                setattr(s, field, [self.expr(x, h) for x in val])
        return h + [s]

    # ---------------------------------------------------------------- loops
    def accessors(self, info):
        names = [n for n in info['locals']]
        k = self.k
        getn, setn = 'get_%d__' % k, 'set_%d__' % k
        alln = list(info['params']) + names
        for outer in reversed(self.fstack[:-1]):
            outer['loops'] += 1
            if outer.get('cls'): continue
            for n in outer['params'] + outer['locals']:
                if n not in alln and n not in info['glob']:
                    alln.append(n)
        g = ast.FunctionDef(name=getn, args=_args([]), body=[ast.Return(value=ast.Dict(keys=[ast.Constant(value=n) for n in alln], values=[nm(n) for n in alln]))], decorator_list=[])
        body = []
        if alln:
            body.append(ast.Nonlocal(names=list(alln)))
        for n in alln:
            body.append(ast.If(test=ast.Compare(left=nm('n__'), ops=[ast.Eq()], comparators=[ast.Constant(value=n)]),
                               body=[ast.Assign(targets=[ast.Name(id=n, ctx=ast.Store())], value=nm('v__'))], orelse=[]))
        st = ast.FunctionDef(name=setn, args=_args(['n__', 'v__']), body=body or [ast.Pass()], decorator_list=[])
        return g, st, getn, setn, alln

    def loopbody(self, stmts, info):
        old = info['inloop']
        info['inloop'] = True
        nb = self.block(stmts)
        info['inloop'] = old
        return nb

    def after(self, r, orelse, info):
        """dispatch on the loop result"""
        if info['inloop']:
            ret = ast.Return(value=nm(r))
        else:
            ret = ast.Return(value=ast.Subscript(value=nm(r), slice=ast.Constant(value=1), ctx=ast.Load()))
        out = [ast.If(test=call(vcattr('is_return'), nm(r)), body=[ret], orelse=[])]
        if orelse:
            out.append(ast.If(test=call(vcattr('no_break'), nm(r)), body=self.block(orelse), orelse=[]))
        return out

    def nonlocals(self, stmts, info):
        v = bound_names(stmts)
        ok = [n for n in v.bound if n in info['locals'] or n in info['params']]
        nl = [n for n in ok]
        for n in v.bound:
            if n in info['nonl'] and n not in nl:
                nl.append(n)
        gl = [n for n in v.bound if n in info['glob']]
        return nl, gl

    def for_(self, s):
        info = self.fstack[-1]
        if info['gen']:
            raise SyntaxError('loop in a generator function')
        h = []
        it = self.expr(s.iter, h)
        info['loops'] += 1
        nl, gl = self.nonlocals([ast.Assign(targets=[s.target], value=ast.Constant(value=0))] + s.body, info)
        bn, rn = self.fresh('body'), self.fresh('r')
        g, st, getn, setn, alln = self.accessors(info)
        body = []
        if nl: body.append(ast.Nonlocal(names=nl))
        if gl: body.append(ast.Global(names=gl))
        body.append(ast.Assign(targets=[s.target], value=nm('it__')))
        body += self.loopbody(s.body, info)
        body.append(ast.Return(value=ast.Tuple(elts=[ast.Constant(value='next')], ctx=ast.Load())))
        bf = ast.FunctionDef(name=bn, args=_args(['it__']), body=body, decorator_list=[])
        cl = ast.Assign(targets=[ast.Name(id=rn, ctx=ast.Store())],
                        value=call(vcattr('for_'), it, nm(bn), nm(getn), nm(setn), ast.Constant(value=tuple(nl)),
                                   ast.Constant(value='%s:%s' % (self.qual(), s.lineno))))
        return h + [bf, g, st, cl] + self.after(rn, s.orelse, info)

    def qual(self):
        return '.'.join(i['name'] for i in self.fstack)

    def while_(self, s):
        info = self.fstack[-1]
        if info['gen']:
            raise SyntaxError('loop in a generator function')
        info['loops'] += 1
        nl, gl = self.nonlocals(s.body + [ast.Expr(value=s.test)], info)
        cn, bn, rn = self.fresh('cond'), self.fresh('body'), self.fresh('r')
        g, st, getn, setn, alln = self.accessors(info)
        ch = []
        ce = self.expr(s.test, ch)
        dec = ([ast.Nonlocal(names=nl)] if nl else []) + ([ast.Global(names=gl)] if gl else [])
        cf = ast.FunctionDef(name=cn, args=_args([]), body=dec + ch + [ast.Return(value=ce)], decorator_list=[])
        body = copy.deepcopy(dec) + self.loopbody(s.body, info)
        body.append(ast.Return(value=ast.Tuple(elts=[ast.Constant(value='next')], ctx=ast.Load())))
        bf = ast.FunctionDef(name=bn, args=_args([]), body=body, decorator_list=[])
        cl = ast.Assign(targets=[ast.Name(id=rn, ctx=ast.Store())],
                        value=call(vcattr('while_'), nm(cn), nm(bn), nm(getn), nm(setn), ast.Constant(value=tuple(nl)),
                                   ast.Constant(value='%s:%s' % (self.qual(), s.lineno))))
        return [cf, bf, g, st, cl] + self.after(rn, s.orelse, info)

    # ---------------------------------------------------------------- expressions
    def expr(self, e, h):
        """transform expression; function definitions it needs are appended to h"""
        if e is None:
            return None
        X = lambda x: self.expr(x, h)
        if isinstance(e, (ast.ListComp, ast.SetComp, ast.GeneratorExp, ast.DictComp)):
            return self.comp(e, h)
        if isinstance(e, ast.Lambda):
            if contains(e.body, (ast.ListComp, ast.SetComp, ast.GeneratorExp, ast.DictComp, ast.Lambda)):
                name = self.fresh('lam')
                e.args.defaults = [X(d) for d in e.args.defaults]
                f = ast.FunctionDef(name=name, args=e.args, body=[ast.Return(value=e.body)], decorator_list=[], lineno=e.lineno)
                h.append(self.func(f))
                return nm(name)
            e.body = self.expr(e.body, None)
            return e
        if isinstance(e, (ast.List, ast.Tuple)) and isinstance(e.ctx, ast.Load) and any(isinstance(x, ast.Starred) for x in e.elts):
            parts = [ast.Tuple(elts=[ast.Constant(value=isinstance(x, ast.Starred)), X(x.value if isinstance(x, ast.Starred) else x)], ctx=ast.Load()) for x in e.elts]
            return call(vcattr('star_'), ast.Constant(value=isinstance(e, ast.Tuple)), *parts)
        if isinstance(e, ast.List) and isinstance(e.ctx, ast.Load):
            e.elts = [X(x) for x in e.elts]
            return call(vcattr('list_'), e)
        if isinstance(e, ast.Dict):
            e.keys = [X(k) for k in e.keys]
            e.values = [X(v) for v in e.values]
            return call(vcattr('dict_'), e)
        if self.strings and isinstance(e, ast.JoinedStr):
            return call(vcattr('fmt_'), *[X(p.value) if isinstance(p, ast.FormattedValue) else p for p in e.values])
        if self.strings and isinstance(e, ast.BinOp) and isinstance(e.op, ast.Mod) and isinstance(e.left, ast.Constant) and isinstance(e.left.value, str):
            a = [X(x) for x in e.right.elts] if isinstance(e.right, ast.Tuple) else [X(e.right)]
            return call(vcattr('fmt_'), e.left, *a)
        if isinstance(e, ast.JoinedStr):
            return ast.Constant(value='fmt')
        if isinstance(e, ast.BinOp) and isinstance(e.op, ast.Mod) and isinstance(e.left, ast.Constant) and isinstance(e.left.value, str):
            return ast.Constant(value='fmt')
        for field, val in ast.iter_fields(e):
            if isinstance(val, ast.expr):
                setattr(e, field, X(val))
            elif isinstance(val, list):
                setattr(e, field, [X(x) if isinstance(x, ast.expr) else self.sub(x, h) for x in val])
            elif isinstance(val, (ast.keyword, ast.Slice)):
                self.sub(val, h)
        return e

    def sub(self, x, h):
        if isinstance(x, ast.keyword):
            x.value = self.expr(x.value, h)
        return x

    def comp(self, e, h):
        if h is None:
            raise SyntaxError('comprehension in this position')
        if any(isinstance(n, ast.NamedExpr) for n in ast.walk(e)):
            raise SyntaxError('walrus in comprehension')
        name = self.fresh('comp')
        g0 = e.generators[0]
        first = self.expr(g0.iter, h)
        if isinstance(e, ast.DictComp):
            elt = ast.Tuple(elts=[e.key, e.value], ctx=ast.Load())
        else:
            elt = e.elt
        inner = [ast.Expr(value=call(ast.Attribute(value=nm('acc__'), attr='append', ctx=ast.Load()), elt))]
        for gi, g in reversed(list(enumerate(e.generators))):
            for c in reversed(g.ifs):
                inner = [ast.If(test=c, body=inner, orelse=[])]
            inner = [ast.For(target=g.target, iter=nm('it0__') if gi == 0 else g.iter, body=inner, orelse=[], lineno=e.lineno)]
        f = ast.FunctionDef(name=name, args=_args(['it0__']),
                            body=[ast.Assign(targets=[ast.Name(id='acc__', ctx=ast.Store())], value=call(vcattr('newlist')), lineno=e.lineno)] + inner + [ast.Return(value=nm('acc__'))],
                            decorator_list=[], lineno=e.lineno)
        h.append(self.func(f))
        r = call(nm(name), first)
        if isinstance(e, ast.DictComp):
            r = call(vcattr('dict_of'), r)
        elif isinstance(e, ast.SetComp):
            r = call(nm('set'), r)
        elif isinstance(e, ast.GeneratorExp):
            r = call(vcattr('gen'), r)
        return r

def _args(names):
    return ast.arguments(posonlyargs=[], args=[ast.arg(arg=n) for n in names], kwonlyargs=[], kw_defaults=[], defaults=[], vararg=None, kwarg=None)

def read(rel):
    with open(os.path.join(REPO, rel)) as fh:
        return fh.read()

def translate(rel, script=False):
    src = read(rel)
    import warnings
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        tree = ast.parse(src, rel)
    for n in ast.walk(tree):
        if isinstance(n, (ast.FunctionDef, ast.arg)):
            if hasattr(n, 'returns'): n.returns = None
            if hasattr(n, 'annotation'): n.annotation = None
    x = Xform(rel)
    if script:
        # the module body becomes the body of one function; `script` names functions used through their contract
        body = []
        for s in tree.body:
            body.append(s)
            if isinstance(s, ast.FunctionDef) and s.name in script:
                body.append(ast.Assign(targets=[ast.Name(id=s.name, ctx=ast.Store())], value=call(vcattr('contracted'), ast.Constant(value=s.name), nm(s.name))))
        tree.body = [ast.FunctionDef(name='script__', args=_args([]), body=body, decorator_list=[])]
        x.strings = True
    tree = x.module(tree)
    ast.fix_missing_locations(tree)
    import warnings
    warnings.simplefilter("ignore", SyntaxWarning)
    return compile(tree, rel, 'exec'), src, tree
