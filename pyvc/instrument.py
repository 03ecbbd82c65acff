"""mechanical AST instrumentation of the real /repo source.

What it changes (and all it changes): calls, %-formatting, `is`, `in`, subscript loads, f-strings, list/dict displays,
comprehensions and lambdas (hoisted to local functions with explicit loops) go through the runtime `_rt`; loops ask the
runtime for each iteration; handlers and finally-blocks re-raise engine control exceptions; functions report their entry.
Nothing is dropped: every statement and expression of the file is executed.
"""
import ast
import copy

def names_in(node, ctxs):
    return {n.id for n in ast.walk(node) if isinstance(n, ast.Name) and isinstance(n.ctx, ctxs)}

def assigned_names(stmts):
    out = set()
    class V(ast.NodeVisitor):
        def visit_Name(self, n):
            if isinstance(n.ctx, (ast.Store, ast.Del)):
                out.add(n.id)
        def visit_FunctionDef(self, n):
            out.add(n.name)
        visit_AsyncFunctionDef = visit_FunctionDef
        def visit_ClassDef(self, n):
            out.add(n.name)
        def visit_Lambda(self, n): pass
        def visit_ExceptHandler(self, n):
            if n.name: out.add(n.name)
            self.generic_visit(n)
        def visit_ListComp(self, n): pass
        visit_SetComp = visit_GeneratorExp = visit_DictComp = visit_ListComp
        def visit_Import(self, n):
            for a in n.names: out.add((a.asname or a.name).split('.')[0])
        visit_ImportFrom = visit_Import
        def visit_MatchAs(self, n):
            if n.name: out.add(n.name)
            self.generic_visit(n)
    for s in stmts:
        V().visit(s)
    return out

def reads_expr(e):
    return names_in(e, ast.Load) if e is not None else set()

class RBW(object):
    """names possibly read before being definitely assigned, over a statement list"""
    def __init__(self):
        self.reads = set()
    def ex(self, e, asg):
        if e is not None:
            self.reads |= (reads_expr(e) - asg)
            for n in ast.walk(e):
                if isinstance(n, ast.NamedExpr):
                    asg.add(n.target.id)
    def block(self, stmts, asg):
        """returns definitely-assigned set at fallthrough or None if it never falls through"""
        for s in stmts:
            if asg is None:
                return None
            asg = self.stmt(s, asg)
        return asg
    def meet(self, a, b):
        if a is None: return b
        if b is None: return a
        return a & b
    def stmt(self, s, asg):
        t = type(s)
        if t is ast.Assign:
            self.ex(s.value, asg)
            for tg in s.targets:
                self.reads |= (reads_expr(tg) - asg)
                asg = asg | names_in(tg, ast.Store)
            return asg
        if t is ast.AugAssign:
            self.ex(s.value, asg)
            self.reads |= reads_expr(s.target) - asg
            if isinstance(s.target, ast.Name):
                if s.target.id not in asg:
                    self.reads.add(s.target.id)
                return asg | {s.target.id}
            return asg
        if t is ast.AnnAssign:
            self.ex(s.value, asg)
            if s.value is not None and isinstance(s.target, ast.Name):
                return asg | {s.target.id}
            return asg
        if t in (ast.Return, ast.Raise, ast.Continue, ast.Break):
            for e in ast.iter_child_nodes(s):
                self.ex(e, asg)
            return None
        if t is ast.If:
            self.ex(s.test, asg)
            return self.meet(self.block(s.body, set(asg)), self.block(s.orelse, set(asg)))
        if t in (ast.While,):
            self.ex(s.test, asg)
            self.block(s.body, set(asg))
            self.block(s.orelse, set(asg))
            return asg
        if t in (ast.For, ast.AsyncFor):
            self.ex(s.iter, asg)
            self.block(s.body, set(asg) | names_in(s.target, ast.Store))
            self.block(s.orelse, set(asg))
            return asg
        if t in (ast.With, ast.AsyncWith):
            for it in s.items:
                self.ex(it.context_expr, asg)
                if it.optional_vars is not None:
                    asg = asg | names_in(it.optional_vars, ast.Store)
            r = self.block(s.body, set(asg))
            return r if r is not None else None
        if t is ast.Try:
            b = self.block(s.body, set(asg))
            if b is not None:
                b = self.block(s.orelse, b)
            else:
                self.block(s.orelse, set(asg))
            out = b
            for h in s.handlers:
                a = set(asg)
                if h.type is not None: self.ex(h.type, a)
                if h.name: a = a | {h.name}
                out = self.meet(out, self.block(h.body, a))
            f = self.block(s.finalbody, set(asg))
            if f is None: return None
            if out is None: return None
            return out | f
        if t in (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef):
            # closures read their free names at any time
            free = {n.id for n in ast.walk(s) if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load)}
            self.reads |= free - asg if False else free
            return asg | {s.name}
        if t is ast.Delete:
            return asg - {n.id for tg in s.targets for n in ast.walk(tg) if isinstance(n, ast.Name)}
        for e in ast.iter_child_nodes(s):
            if isinstance(e, ast.expr):
                self.ex(e, asg)
        if t in (ast.Import, ast.ImportFrom):
            return asg | assigned_names([s])
        return asg

def live_at_head(loop, func):
    """names whose value at the loop head may matter"""
    r = RBW()
    asg = set()
    if isinstance(loop, ast.While):
        r.ex(loop.test, asg)
        r.block(loop.body, set(asg))
        r.block(loop.orelse, set(asg))
    else:
        r.block(loop.body, names_in(loop.target, ast.Store))
        r.block(loop.orelse, set())
    live = set(r.reads)
    # any read outside the loop
    inside = set(map(id, ast.walk(loop)))
    for n in ast.walk(func):
        if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load) and id(n) not in inside:
            live.add(n.id)
        if isinstance(n, (ast.Nonlocal,)):
            live |= set(n.names)
    if isinstance(loop, (ast.While, ast.For)):
        # a break leaves the loop with whatever is assigned: covered by reads outside
        pass
    return live

RT = '_rt'

def rt(name, *args):
    return ast.Call(func=ast.Attribute(value=ast.Name(id=RT, ctx=ast.Load()), attr=name, ctx=ast.Load()),
                    args=list(args), keywords=[])

def const(v):
    return ast.Constant(value=v)

class Instr(object):
    def __init__(self, modname):
        self.mod = modname
        self.qual = []
        self.cls = []
        self.func = None
        self.n = 0
        self.hoist = None
        self.infn = False

    def uid(self):
        self.n += 1
        return self.n

    # ------------------------------------------------------------ blocks
    def block(self, stmts):
        out = []
        for s in stmts:
            saved, self.hoist = self.hoist, []
            r = self.stmt(s)
            out.extend(self.hoist)
            self.hoist = saved
            out.extend(r if isinstance(r, list) else [r])
        return out

    def guard(self):
        return ast.Expr(rt('guard'))

    def mangle(self, attr):
        if self.cls and attr.startswith('__') and not attr.endswith('__'):
            return '_' + self.cls[-1].lstrip('_') + attr
        return attr

    def notes(self, targets):
        out = []
        for t in targets:
            for n in ast.walk(t):
                if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Store):
                    v = n.value
                    chain = v
                    while isinstance(chain, ast.Attribute):
                        chain = chain.value
                    if isinstance(chain, ast.Name):
                        import copy
                        vv = copy.deepcopy(v)
                        for x in ast.walk(vv):
                            if hasattr(x, 'ctx'): x.ctx = ast.Load()
                        out.append(ast.Expr(rt('note', vv, const(self.mangle(n.attr)))))
        return out

    def stmt(self, s):
        t = type(s)
        if t in (ast.FunctionDef, ast.AsyncFunctionDef):
            return self.fdef(s)
        if t is ast.ClassDef:
            s.bases = [self.ex(b) for b in s.bases]
            s.decorator_list = [self.ex(d) for d in s.decorator_list]
            self.qual.append(s.name); self.cls.append(s.name)
            infn, self.infn = self.infn, False
            s.body = self.block(s.body)
            self.infn = infn
            self.qual.pop(); self.cls.pop()
            return s
        if t is ast.While:
            return self.while_(s)
        if t is ast.For:
            return self.for_(s)
        if t is ast.Try:
            s.body = self.block(s.body)
            for h in s.handlers:
                if h.type is not None:
                    h.type = self.ex(h.type)
                h.body = [self.guard()] + self.block(h.body)
            s.orelse = self.block(s.orelse)
            if s.finalbody:
                s.finalbody = [self.guard()] + self.block(s.finalbody)
            return s
        if t is ast.If:
            s.test = self.ex(s.test)
            s.body = self.block(s.body)
            s.orelse = self.block(s.orelse)
            return s
        if t in (ast.With, ast.AsyncWith):
            for it in s.items:
                it.context_expr = self.ex(it.context_expr)
            s.body = self.block(s.body)
            return s
        if t is ast.AsyncFor:
            s.iter = self.ex(s.iter)
            s.body = self.block(s.body)
            s.orelse = self.block(s.orelse)
            return s
        if t is ast.Assign:
            lit = isinstance(s.value, (ast.Tuple, ast.List))
            s.value = self.ex(s.value)
            if len(s.targets) == 1 and isinstance(s.targets[0], (ast.Tuple, ast.List)):
                el = s.targets[0].elts
                star = [n for n, x in enumerate(el) if isinstance(x, ast.Starred)]
                if star:
                    s.value = rt('unpack', s.value, const(star[0]), const(len(el) - star[0] - 1))
                    el[star[0]] = el[star[0]].value
                elif not lit:
                    s.value = rt('unpack', s.value, const(len(el)), const(None))
            pre = self.notes(s.targets)
            s.targets = [self.target(x) for x in s.targets]
            return pre + [s]
        if t is ast.AugAssign:
            s.value = self.ex(s.value)
            pre = self.notes([s.target])
            if isinstance(s.op, ast.Mod):
                pass
            return pre + [s]
        if t is ast.AnnAssign:
            if s.value is not None:
                s.value = self.ex(s.value)
            pre = self.notes([s.target])
            return pre + [s]
        if t in (ast.Global, ast.Nonlocal, ast.Pass, ast.Break, ast.Continue, ast.Import, ast.ImportFrom):
            return s
        if t is ast.Delete:
            return s
        for f, v in ast.iter_fields(s):
            if isinstance(v, ast.expr):
                setattr(s, f, self.ex(v))
        return s

    def target(self, t):
        if isinstance(t, ast.Subscript):
            t.value = self.ex(t.value)
            t.slice = self.ex(t.slice)
        elif isinstance(t, ast.Attribute):
            t.value = self.ex(t.value)
        elif isinstance(t, (ast.Tuple, ast.List)):
            t.elts = [self.target(x) for x in t.elts]
        elif isinstance(t, ast.Starred):
            t.value = self.target(t.value)
        return t

    def fdef(self, s):
        s.decorator_list = [self.ex(d) for d in s.decorator_list]
        s.args.defaults = [self.ex(d) for d in s.args.defaults]
        s.args.kw_defaults = [self.ex(d) if d is not None else None for d in s.args.kw_defaults]
        orig = s
        saved = (self.func, self.infn, self.hoist)
        import copy
        self.func = copy.deepcopy(s)
        # loops are matched by position between the copy (for liveness) and the original
        for a, b in zip(ast.walk(self.func), ast.walk(s)):
            b._orig = a
        self.infn = True
        self.qual.append(s.name)
        doc = []
        body = s.body
        if body and isinstance(body[0], ast.Expr) and isinstance(body[0].value, ast.Constant) and isinstance(body[0].value.value, str):
            doc, body = body[:1], body[1:]
        pro = [ast.Expr(rt('fn', const('%s:%s' % (self.mod, '.'.join(self.qual)))))]
        if s.args.vararg:
            pro.append(ast.Assign(targets=[ast.Name(id=s.args.vararg.arg, ctx=ast.Store())],
                                  value=rt('args_in', ast.Name(id=s.args.vararg.arg, ctx=ast.Load()))))
        if s.args.kwarg:
            pro.append(ast.Assign(targets=[ast.Name(id=s.args.kwarg.arg, ctx=ast.Store())],
                                  value=rt('kwargs_in', ast.Name(id=s.args.kwarg.arg, ctx=ast.Load()))))
        b = self.block(body)
        self.qual.pop()
        self.func, self.infn, self.hoist = saved
        s.body = doc + pro + b
        return s

    def loop_meta(self, s):
        o = getattr(s, '_orig', s)
        names = assigned_names(o.body + o.orelse)
        if isinstance(o, ast.For):
            names |= names_in(o.target, ast.Store)
        else:
            for n in ast.walk(o.test):
                if isinstance(n, ast.NamedExpr):
                    names.add(n.target.id)
        if self.func is not None:
            for n in ast.walk(self.func):
                if isinstance(n, ast.Global):
                    names -= set(n.names)
        live = live_at_head(o, self.func if self.func is not None else ast.Module(body=[o], type_ignores=[]))
        return sorted(names), sorted(names & live)

    def restore(self, var, names):
        out = []
        for n in names:
            out.append(ast.If(test=ast.Compare(left=const(n), ops=[ast.In()], comparators=[
                ast.Attribute(value=ast.Name(id=var, ctx=ast.Load()), attr='vars', ctx=ast.Load())]),
                body=[ast.Assign(targets=[ast.Name(id=n, ctx=ast.Store())], value=ast.Subscript(
                    value=ast.Attribute(value=ast.Name(id=var, ctx=ast.Load()), attr='vars', ctx=ast.Load()),
                    slice=const(n), ctx=ast.Load())),
                    ast.If(test=ast.Call(func=ast.Attribute(value=ast.Name(id=RT, ctx=ast.Load()), attr='unbound', ctx=ast.Load()),
                                         args=[ast.Name(id=n, ctx=ast.Load())], keywords=[]),
                           body=[ast.Delete(targets=[ast.Name(id=n, ctx=ast.Del())])], orelse=[])], orelse=[]))
        return out

    def lid(self, s):
        return '%s:%s' % (self.mod, '.'.join(self.qual)) + ':%d' % self.uid()

    def strs(self, l):
        return ast.Tuple(elts=[const(x) for x in l], ctx=ast.Load())

    def while_(self, s):
        names, live = self.loop_meta(s)
        var = '_L%d' % self.uid()
        lid = self.lid(s)
        mk = ast.Assign(targets=[ast.Name(id=var, ctx=ast.Store())],
                        value=rt('while_', const(lid), self.strs(names), self.strs(live)))
        head = ast.Call(func=ast.Attribute(value=ast.Name(id=var, ctx=ast.Load()), attr='head_', ctx=ast.Load()),
                        args=[ast.Call(func=ast.Name(id='_locals', ctx=ast.Load()), args=[], keywords=[])], keywords=[])
        body = self.restore(var, names)
        if not (isinstance(s.test, ast.Constant) and s.test.value):
            saved, self.hoist = self.hoist, []
            test = self.ex(s.test)
            body.extend(self.hoist)
            self.hoist = saved
            cond = ast.Call(func=ast.Attribute(value=ast.Name(id=var, ctx=ast.Load()), attr='cond', ctx=ast.Load()),
                            args=[test], keywords=[])
            body.append(ast.If(test=ast.UnaryOp(op=ast.Not(), operand=cond), body=self.block(s.orelse) + [ast.Break()], orelse=[]))
        body.extend(self.block(s.body))
        w = ast.While(test=head, body=body, orelse=[])
        return [mk, w]

    def for_(self, s):
        names, live = self.loop_meta(s)
        var = '_L%d' % self.uid()
        lid = self.lid(s)
        it = self.ex(s.iter)
        mk = ast.Assign(targets=[ast.Name(id=var, ctx=ast.Store())],
                        value=rt('for_', it, const(lid), self.strs(names), self.strs(live)))
        head = ast.Call(func=ast.Attribute(value=ast.Name(id=var, ctx=ast.Load()), attr='next', ctx=ast.Load()),
                        args=[ast.Call(func=ast.Name(id='_locals', ctx=ast.Load()), args=[], keywords=[])], keywords=[])
        body = self.restore(var, names)
        body.append(ast.Assign(targets=[self.target(s.target)],
                               value=ast.Attribute(value=ast.Name(id=var, ctx=ast.Load()), attr='item', ctx=ast.Load())))
        body.extend(self.block(s.body))
        w = ast.While(test=head, body=body, orelse=self.restore(var, names) + self.block(s.orelse))
        if not w.orelse:
            w.orelse = [ast.Pass()]
        return [mk, w]

    # ------------------------------------------------------------ expressions
    def ex(self, e):
        if e is None:
            return None
        t = type(e)
        m = getattr(self, 'ex_' + t.__name__, None)
        if m is not None:
            return m(e)
        for f, v in ast.iter_fields(e):
            if isinstance(v, ast.expr):
                setattr(e, f, self.ex(v))
            elif isinstance(v, list):
                setattr(e, f, [self.ex(x) if isinstance(x, ast.expr) else x for x in v])
        return e

    def ex_Call(self, e):
        f = e.func
        if isinstance(f, ast.Name) and f.id in ('super', 'locals', 'globals', 'vars', 'eval', 'exec'):
            e.args = [self.ex(a) for a in e.args]
            return e
        star = any(isinstance(a, ast.Starred) for a in e.args) or any(k.arg is None for k in e.keywords)
        if not star:
            args = [self.ex(a) for a in e.args]
            kws = [ast.keyword(arg=k.arg, value=self.ex(k.value)) for k in e.keywords]
            if isinstance(f, ast.Attribute):
                r = rt('callm', self.ex(f.value), const(self.mangle(f.attr)), *args)
            else:
                r = rt('call', self.ex(f), *args)
            r.keywords = kws
            return ast.copy_location(r, e)
        al = []
        for a in e.args:
            if isinstance(a, ast.Starred):
                al.append(ast.Tuple(elts=[const('*'), self.ex(a.value)], ctx=ast.Load()))
            else:
                al.append(ast.Tuple(elts=[const('.'), self.ex(a)], ctx=ast.Load()))
        kl = [ast.Tuple(elts=[const(k.arg), self.ex(k.value)], ctx=ast.Load()) for k in e.keywords]
        if isinstance(f, ast.Attribute):
            fe = rt('getm', self.ex(f.value), const(self.mangle(f.attr)))
        else:
            fe = self.ex(f)
        return ast.copy_location(rt('callx', fe, ast.Tuple(elts=al, ctx=ast.Load()), ast.Tuple(elts=kl, ctx=ast.Load())), e)

    def ex_BinOp(self, e):
        l, r = self.ex(e.left), self.ex(e.right)
        if isinstance(e.op, ast.Mod):
            return ast.copy_location(rt('mod', l, r), e)
        e.left, e.right = l, r
        return e

    def ex_Compare(self, e):
        if len(e.ops) == 1:
            op = e.ops[0]
            l, r = self.ex(e.left), self.ex(e.comparators[0])
            if isinstance(op, ast.Is):
                return rt('is_', l, r)
            if isinstance(op, ast.IsNot):
                return ast.UnaryOp(op=ast.Not(), operand=rt('is_', l, r))
            if isinstance(op, ast.In):
                return rt('in_', l, r)
            if isinstance(op, ast.NotIn):
                return ast.UnaryOp(op=ast.Not(), operand=rt('in_', l, r))
            e.left, e.comparators = l, [r]
            return e
        e.left = self.ex(e.left)
        e.comparators = [self.ex(c) for c in e.comparators]
        return e

    def ex_Subscript(self, e):
        v = self.ex(e.value)
        s = self.ex(e.slice)
        if isinstance(e.ctx, ast.Load):
            return ast.copy_location(rt('getitem', v, self.slice_expr(s)), e)
        e.value, e.slice = v, s
        return e

    def slice_expr(self, s):
        if isinstance(s, ast.Slice):
            return ast.Call(func=ast.Name(id='_slice', ctx=ast.Load()),
                            args=[x if x is not None else const(None) for x in (s.lower, s.upper, s.step)], keywords=[])
        return s

    def ex_Slice(self, e):
        e.lower, e.upper, e.step = self.ex(e.lower), self.ex(e.upper), self.ex(e.step)
        return e

    def ex_List(self, e):
        if isinstance(e.ctx, ast.Load):
            if any(isinstance(x, ast.Starred) for x in e.elts):
                return rt('mklistx', *[ast.Tuple(elts=[const('*' if isinstance(x, ast.Starred) else '.'),
                                                      self.ex(x.value if isinstance(x, ast.Starred) else x)], ctx=ast.Load()) for x in e.elts])
            return ast.copy_location(rt('mklist', *[self.ex(x) for x in e.elts]), e)
        return e

    def ex_Dict(self, e):
        items = []
        for k, v in zip(e.keys, e.values):
            if k is None:
                items.append(ast.Tuple(elts=[const('**'), const(None), self.ex(v)], ctx=ast.Load()))
            else:
                items.append(ast.Tuple(elts=[const('.'), self.ex(k), self.ex(v)], ctx=ast.Load()))
        return ast.copy_location(rt('mkdict', *items), e)

    def ex_JoinedStr(self, e):
        parts = []
        for v in e.values:
            if isinstance(v, ast.Constant):
                parts.append(ast.Tuple(elts=[v, const(None), const(None)], ctx=ast.Load()))
            else:
                spec = self.ex_JoinedStr(v.format_spec) if v.format_spec is not None else const('')
                parts.append(ast.Tuple(elts=[self.ex(v.value), const(v.conversion), spec], ctx=ast.Load()))
        return ast.copy_location(rt('fstr', *parts), e)

    # comprehensions and lambdas: hoisted local functions
    def ex_Lambda(self, e):
        if self.hoist is None:
            return e
        nm = '_lam%d' % self.uid()
        e.args.defaults = [self.ex(d) for d in e.args.defaults]
        f = ast.FunctionDef(name=nm, args=e.args, body=[ast.Return(value=e.body)], decorator_list=[], returns=None, type_comment=None)
        f.type_params = []
        self.qual.append('<locals>')
        f = self.fdef(f)
        self.qual.pop()
        self.hoist.append(f)
        return ast.Name(id=nm, ctx=ast.Load())

    def comp(self, e, kind):
        if self.hoist is None:
            raise SyntaxError('comprehension outside a statement')
        nm = '_comp%d' % self.uid()
        acc = '_acc'
        elt = copy.deepcopy(e.elt) if kind == 'gen' else None
        if kind == 'dict':
            inner = ast.Assign(targets=[ast.Subscript(value=ast.Name(id=acc, ctx=ast.Load()), slice=e.key, ctx=ast.Store())], value=e.value)
            init = ast.Dict(keys=[], values=[])
        else:
            inner = ast.Expr(ast.Call(func=ast.Attribute(value=ast.Name(id=acc, ctx=ast.Load()), attr='append', ctx=ast.Load()), args=[e.elt], keywords=[]))
            init = ast.List(elts=[], ctx=ast.Load())
        body = [inner]
        gens = e.generators
        for n, g in reversed(list(enumerate(gens))):
            if g.is_async:
                raise SyntaxError('async comprehension')
            for c in reversed(g.ifs):
                body = [ast.If(test=c, body=body, orelse=[])]
            it = ast.Name(id='_it', ctx=ast.Load()) if n == 0 else g.iter
            body = [ast.For(target=g.target, iter=it, body=body, orelse=[], type_comment=None)]
        aw = any(isinstance(x, ast.Await) for b in body for x in ast.walk(b))
        f = (ast.AsyncFunctionDef if aw else ast.FunctionDef)(name=nm, args=ast.arguments(posonlyargs=[], args=[ast.arg(arg='_it', annotation=None)], vararg=None,
                                                         kwonlyargs=[], kw_defaults=[], kwarg=None, defaults=[]),
                            body=[ast.Assign(targets=[ast.Name(id=acc, ctx=ast.Store())], value=init)] + body +
                                 [ast.Return(value=ast.Name(id=acc, ctx=ast.Load()))],
                            decorator_list=[], returns=None, type_comment=None)
        f.type_params = []
        first = self.ex(gens[0].iter)
        self.qual.append('<locals>')
        f = self.fdef(f)
        self.qual.pop()
        self.hoist.append(f)
        call = ast.Call(func=ast.Name(id=nm, ctx=ast.Load()), args=[first], keywords=[])
        if aw:
            call = ast.Await(value=call)
        if kind == 'set':
            return rt('mkset', call)
        if kind == 'gen':
            if len(gens) == 1 and not gens[0].ifs and not aw and isinstance(gens[0].target, ast.Name):
                # may be drawn from without end
                fn = ast.Lambda(args=ast.arguments(posonlyargs=[], args=[ast.arg(arg=gens[0].target.id, annotation=None)], vararg=None, kwonlyargs=[], kw_defaults=[],
                                                   kwarg=None, defaults=[]), body=copy.deepcopy(elt))
                return rt('gen1', first, ast.Name(id=nm, ctx=ast.Load()), self.ex(fn))
            return rt('gen', call)
        return call

    def ex_ListComp(self, e): return self.comp(e, 'list')
    def ex_GeneratorExp(self, e): return self.comp(e, 'gen')
    def ex_SetComp(self, e): return self.comp(e, 'set')
    def ex_DictComp(self, e): return self.comp(e, 'dict')

def instrument(src, modname, filename):
    tree = ast.parse(src, filename)
    ins = Instr(modname)
    tree.body = ins.block(tree.body)
    ast.fix_missing_locations(tree)
    return compile(tree, filename, 'exec', dont_inherit=True)
