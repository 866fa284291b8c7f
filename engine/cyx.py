"""Cython sources as Python syntax trees: the parser is Cython's own, what it gives is rewritten node by node."""
import ast
import os
import sys
from fw import Broken

BIN = {'+': ast.Add, '-': ast.Sub, '*': ast.Mult, '/': ast.Div, '//': ast.FloorDiv, '%': ast.Mod, '**': ast.Pow, '|': ast.BitOr, '&': ast.BitAnd, '^': ast.BitXor,
       '<<': ast.LShift, '>>': ast.RShift}
CMP = {'<': ast.Lt, '<=': ast.LtE, '>': ast.Gt, '>=': ast.GtE, '==': ast.Eq, '!=': ast.NotEq, 'is': ast.Is, 'is_not': ast.IsNot, 'is not': ast.IsNot,
       'in': ast.In, 'not_in': ast.NotIn, 'not in': ast.NotIn}
FLIP = {'<': '>', '<=': '>=', '>': '<', '>=': '<='}


class NotKnown(Exception):
    pass


def parse(path):
    try:
        from Cython.Compiler import Main, Errors, Options
        from Cython.Compiler.Scanning import FileSourceDescriptor
    except ImportError as e:
        raise Broken('no Cython: %s' % e)
    Errors.init_thread()
    try:
        o = Options.CompilationOptions(Options.default_options, cplus=True, language_level='3')
        ctx = Main.Context.from_options(o)
        sd = FileSourceDescriptor(path)
        scope = ctx.find_module('ginv', pos=(sd, 1, 0), need_pxd=0)
        return ctx.parse(sd, scope, pxd=0, full_module_name='ginv')
    except Exception as e:
        raise Broken('%s does not parse: %s' % (path, e))


class Conv:
    """self.tree: the module; self.attrs[class][attribute] = (C type, 'ptr' | 'array' | 'value');
    self.ext[C++ class][name] = C++ name; self.cxx: C++ functions"""

    def __init__(self, path):
        self.attrs, self.ext, self.cxx, self.ctors = {}, {}, {}, set()
        self.private = set()              # methods Python does not see
        self.bases = {}
        t = parse(path)
        self.tree = ast.Module(self.stmts(t.body), [])
        ast.fix_missing_locations(self.tree)

    # ---- helpers
    def at(self, n, x):
        pos = getattr(n, 'pos', None)
        x.lineno = x.end_lineno = pos[1] if pos else 0
        x.col_offset = x.end_col_offset = 0
        return x

    def decl(self, d):
        """name, C name, kind of a declarator"""
        kind = 'value'
        while True:
            t = type(d).__name__
            if t == 'CNameDeclaratorNode':
                return d.name, d.cname, kind
            if t == 'CPtrDeclaratorNode':
                kind = 'ptr'
            elif t == 'CArrayDeclaratorNode':
                kind = 'array'
            elif t == 'CFuncDeclaratorNode':
                kind = 'func'
            d = d.base

    def type_(self, b):
        while not hasattr(b, 'name'):
            b = getattr(b, 'base_type', None)
            if b is None:
                return '?'
        return b.name or 'object'

    def name(self, s):
        return ast.Name(s, ast.Load())

    def callf(self, f, *a):
        return ast.Call(self.name(f), list(a), [])

    # ---- declarations
    def extern(self, n, cls=None):
        t = type(n).__name__
        if t == 'StatListNode':
            for s in n.stats:
                self.extern(s, cls)
        elif t == 'CppClassNode':
            self.ext.setdefault(n.name, {})
            for s in n.attributes or []:
                self.extern(s, n.name)
        elif t == 'CVarDefNode':
            for d in n.declarators:
                nm, cn, kind = self.decl(d)
                if cls:
                    self.ext[cls][nm] = str(cn or nm)
                else:
                    self.cxx[nm] = str(cn or nm)

    def stmts(self, n):
        if n is None:
            return []
        t = type(n).__name__
        if t == 'StatListNode':
            return [x for s in n.stats for x in self.stmts(s)]
        if t == 'CDefExternNode':
            self.extern(n.body)
            return []
        if t in ('CTypeDefNode', 'FromCImportStatNode', 'CImportStatNode', 'CEnumDefNode', 'PassStatNode'):
            return [self.at(n, ast.Pass())] if t == 'PassStatNode' else []
        m = getattr(self, 's_' + t, None)
        if m is None:
            return [self.at(n, ast.Expr(self.callf('__unsupported__', ast.Constant(t))))]
        try:
            r = m(n)
        except NotKnown as e:
            r = ast.Expr(self.callf('__unsupported__', ast.Constant(str(e))))
        r = r if isinstance(r, list) else [r]
        for x in r:
            self.at(n, x)
        return r

    def block(self, n):
        return self.stmts(n) or [ast.Pass()]

    def s_CClassDefNode(self, n):
        bases = [x.name if hasattr(x, 'name') else str(x) for x in (n.bases.args if getattr(n, 'bases', None) is not None else [])]
        self.attrs[n.class_name] = {}
        self.bases[n.class_name] = bases
        body = []
        for s in (n.body.stats if type(n.body).__name__ == 'StatListNode' else [n.body] if n.body is not None else []):
            if type(s).__name__ == 'CVarDefNode':
                for d in s.declarators:
                    nm, cn, kind = self.decl(d)
                    if kind == 'func':
                        continue
                    self.attrs[n.class_name][nm] = (self.type_(s.base_type), kind)
            else:
                body += self.stmts(s)
        return ast.ClassDef(n.class_name, [self.name(b) for b in bases], [], body or [ast.Pass()], [])

    def s_PyClassDefNode(self, n):
        raise NotKnown('class')

    def args(self, args, star=None, starstar=None, skip=False):
        names, defaults, pre = [], [], []
        for i, a in enumerate(args):
            nm, cn, kind = self.decl(a.declarator)
            ty = self.type_(a.base_type)
            if not nm:                     # untyped: Cython takes the only name for a type
                nm, ty = ty, 'object'
            names.append(ast.arg(nm))
            if a.default is not None:
                defaults.append(self.e(a.default))
            if ty not in ('object', nm) and kind == 'value' and not (skip and i == 0):
                pre.append(ast.Assign([ast.Name(nm, ast.Store())], self.callf('__cyarg__', self.name(nm), ast.Constant(ty), ast.Constant(nm))))
        return ast.arguments([], names, ast.arg(star.name) if star is not None else None, [], [], ast.arg(starstar.name) if starstar is not None else None, defaults), pre

    def s_DefNode(self, n):
        dec = [self.e(d.decorator) for d in (n.decorators or [])]
        static = any(isinstance(d, ast.Name) and d.id == 'staticmethod' for d in dec)
        ar, pre = self.args(n.args, n.star_arg, n.starstar_arg, not static)
        nm = {'__nonzero__': '__bool__'}.get(n.name, str(n.name))
        if nm == '__pow__' and len(ar.args) == 3 and not ar.defaults:
            ar.defaults = [ast.Constant(None)]
        for p in pre:
            self.at(n, p)
        return ast.FunctionDef(nm, ar, pre + self.block(n.body), dec, None)

    def s_CFuncDefNode(self, n):
        d = n.declarator
        while type(d).__name__ != 'CFuncDeclaratorNode':
            d = d.base
        ar, pre = self.args(d.args, None, None, True)
        if not n.overridable:
            self.private.add(self.decl(d)[0])
        for p in pre:
            self.at(n, p)
        return ast.FunctionDef(self.decl(d)[0], ar, pre + self.block(n.body), [], None)

    # ---- statements
    def s_CVarDefNode(self, n):
        out = []
        for d in n.declarators:
            nm, cn, kind = self.decl(d)
            if kind == 'func':
                continue
            dd, default = d, None
            while dd is not None and default is None:
                default = getattr(dd, 'default', None)
                dd = getattr(dd, 'base', None)
            v = self.e(default) if default is not None else self.callf('__clocal__', ast.Constant(self.type_(n.base_type)), ast.Constant(kind))
            out.append(ast.Assign([ast.Name(nm, ast.Store())], v))
        return out

    def store(self, e):
        x = self.e(e)
        for y in [x] + (list(x.elts) if isinstance(x, (ast.Tuple, ast.List)) else []):
            y.ctx = ast.Store()
        return x

    def s_SingleAssignmentNode(self, n):
        return ast.Assign([self.store(n.lhs)], self.e(n.rhs))

    def s_CascadedAssignmentNode(self, n):
        return ast.Assign([self.store(x) for x in n.lhs_list], self.e(n.rhs))

    def s_ParallelAssignmentNode(self, n):
        raise NotKnown('parallel assignment')

    def s_InPlaceAssignmentNode(self, n):
        return ast.AugAssign(self.store(n.lhs), self.op(n.operator), self.e(n.rhs))

    def s_ReturnStatNode(self, n):
        return ast.Return(self.e(n.value) if n.value is not None else None)

    def s_AssertStatNode(self, n):
        return ast.Assert(self.e(getattr(n, 'condition', None) or n.cond), None)

    def s_ExprStatNode(self, n):
        return ast.Expr(self.e(n.expr))

    def s_IfStatNode(self, n):
        r = self.block(n.else_clause) if n.else_clause is not None else []
        for c in reversed(n.if_clauses):
            r = [self.at(c, ast.If(self.e(c.condition), self.block(c.body), r))]
        return r

    def s_WhileStatNode(self, n):
        return ast.While(self.e(n.condition) if n.condition is not None else ast.Constant(True), self.block(n.body), self.stmts(n.else_clause))

    def rng(self, n):
        lo, hi = self.e(n.bound1), self.e(n.bound2)
        if n.step is not None or n.relation1 not in ('<', '<=') or n.relation2 not in ('<', '<='):
            raise NotKnown('for ... from')
        one = ast.Constant(1)
        if n.relation1 == '<':
            lo = ast.BinOp(lo, ast.Add(), one)
        if n.relation2 == '<=':
            hi = ast.BinOp(hi, ast.Add(), one)
        return self.callf('range', lo, hi)

    def s_ForFromStatNode(self, n):
        return ast.For(self.store(n.target), self.rng(n), self.block(n.body), self.stmts(n.else_clause))

    def seq(self, n):
        return self.e(n.iterator.sequence)

    def s_ForInStatNode(self, n):
        return ast.For(self.store(n.target), self.seq(n), self.block(n.body), self.stmts(n.else_clause))

    def s_DelStatNode(self, n):
        return [ast.Expr(self.callf('__delete__', self.e(a))) for a in n.args]

    def s_RaiseStatNode(self, n):
        return ast.Raise(self.e(n.exc_type) if n.exc_type is not None else None, None)

    def s_BreakStatNode(self, n):
        return ast.Break()

    def s_ContinueStatNode(self, n):
        return ast.Continue()

    def s_TryFinallyStatNode(self, n):
        return ast.Try(self.block(n.body), [], [], self.block(n.finally_clause))

    def s_TryExceptStatNode(self, n):
        hs = []
        for c in n.except_clauses:
            ty = self.e(c.pattern[0]) if c.pattern and len(c.pattern) == 1 else ast.Tuple([self.e(x) for x in c.pattern], ast.Load()) if c.pattern else None
            if c.target is not None and type(c.target).__name__ != 'NameNode':
                raise NotKnown('except')
            hs.append(self.at(c, ast.ExceptHandler(ty, c.target.name if c.target is not None else None, self.block(c.body))))
        return ast.Try(self.block(n.body), hs, self.stmts(n.else_clause), [])

    def s_GlobalNode(self, n):
        return ast.Global(list(n.names))

    # ---- expressions
    def op(self, o):
        if o not in BIN:
            raise NotKnown('operator ' + str(o))
        return BIN[o]()

    def e(self, n):
        m = getattr(self, 'e_' + type(n).__name__, None)
        if m is None:
            if hasattr(n, 'operator') and hasattr(n, 'operand1') and n.operator in BIN:
                m = self.binary
            else:
                raise NotKnown(type(n).__name__)
        return self.at(n, m(n))

    def binary(self, n):
        return ast.BinOp(self.e(n.operand1), self.op(n.operator), self.e(n.operand2))

    def e_NameNode(self, n):
        return ast.Name(str(n.name), ast.Load())

    def e_AttributeNode(self, n):
        return ast.Attribute(self.e(n.obj), str(n.attribute), ast.Load())

    def e_IndexNode(self, n):
        return ast.Subscript(self.e(n.base), self.e(n.index), ast.Load())

    def e_SliceIndexNode(self, n):
        return ast.Subscript(self.e(n.base), ast.Slice(self.e(n.start) if n.start is not None else None, self.e(n.stop) if n.stop is not None else None, None), ast.Load())

    def e_SliceNode(self, n):
        f = lambda x: None if x is None or type(x).__name__ == 'NoneNode' else self.e(x)
        return ast.Slice(f(n.start), f(n.stop), f(n.step))

    def e_SimpleCallNode(self, n):
        if type(n.function).__name__ == 'NewExprNode':
            return self.callf('__new__', ast.Constant(self.type_(n.function.cppclass)), *[self.e(a) for a in n.args])
        return ast.Call(self.e(n.function), [self.e(a) for a in n.args], [])

    def e_GeneralCallNode(self, n):
        if type(n.positional_args).__name__ != 'TupleNode':
            raise NotKnown('starred call')
        kw = []
        if n.keyword_args is not None:
            if type(n.keyword_args).__name__ != 'DictNode':
                raise NotKnown('starred call')
            kw = [ast.keyword(str(k.key.value), self.e(k.value)) for k in n.keyword_args.key_value_pairs]
        return ast.Call(self.e(n.function), [self.e(a) for a in n.positional_args.args], kw)

    def e_TypecastNode(self, n):
        return self.e(n.operand)

    def e_AmpersandNode(self, n):
        return self.callf('__addr__', self.e(n.operand))

    def e_PrimaryCmpNode(self, n):
        ops, right = [], []
        first, c = self.e(n.operand1), n
        while c is not None:
            if c.operator not in CMP:
                raise NotKnown('comparison')
            ops.append(CMP[c.operator]())
            right.append(self.e(c.operand2))
            c = c.cascade
        return ast.Compare(first, ops, right)

    def e_BoolBinopNode(self, n):
        return ast.BoolOp(ast.And() if n.operator == 'and' else ast.Or(), [self.e(n.operand1), self.e(n.operand2)])

    def e_NotNode(self, n):
        return ast.UnaryOp(ast.Not(), self.e(n.operand))

    def e_UnaryMinusNode(self, n):
        return ast.UnaryOp(ast.USub(), self.e(n.operand))

    def e_CondExprNode(self, n):
        return ast.IfExp(self.e(getattr(n, 'condition', None) or n.test), self.e(n.true_val), self.e(n.false_val))

    def e_IntNode(self, n):
        return ast.Constant(int(str(n.value), 0))

    def e_FloatNode(self, n):
        return ast.Constant(float(n.value))

    def e_BoolNode(self, n):
        return ast.Constant(bool(n.value))

    def e_NoneNode(self, n):
        return ast.Constant(None)

    def e_NullNode(self, n):
        return self.name('__null__')

    def text(self, n):
        return ast.Constant(str(n.value))
    e_UnicodeNode = e_StringNode = e_IdentifierStringNode = text

    def e_BytesNode(self, n):
        return ast.Constant(str(n.value))

    def elts(self, n, c):
        return c([self.e(x) for x in n.args], ast.Load())

    def e_TupleNode(self, n):
        return self.elts(n, ast.Tuple)

    def e_ListNode(self, n):
        return self.elts(n, ast.List)

    def e_SetNode(self, n):
        return ast.Set([self.e(x) for x in n.args])

    def e_DictNode(self, n):
        return ast.Dict([self.e(x.key) for x in n.key_value_pairs], [self.e(x.value) for x in n.key_value_pairs])

    def e_JoinedStrNode(self, n):
        out = []
        for v in n.values:
            t = type(v).__name__
            if t == 'FormattedValueNode':
                conv = getattr(v, 'conversion_char', None)
                if getattr(v, 'format_spec', None) is not None:
                    raise NotKnown('format')
                out.append(ast.FormattedValue(self.e(v.value), 114 if conv == 'r' else -1, None))
            else:
                out.append(self.e(v))
        return ast.JoinedStr(out)

    def e_YieldExprNode(self, n):
        return ast.Yield(self.e(n.arg) if n.arg is not None else None)

    def chain(self, n):
        """generators and element of a comprehension"""
        t = type(n).__name__
        if t in ('ForInStatNode', 'ForFromStatNode'):
            it = self.seq(n) if t == 'ForInStatNode' else self.rng(n)
            gens, el = self.chain(n.body)
            return [ast.comprehension(self.store(n.target), it, [], 0)] + gens, el
        if t == 'IfStatNode':
            gens, el = self.chain(n.if_clauses[0].body)
            return [('if', self.e(n.if_clauses[0].condition))] + gens, el
        if t == 'StatListNode' and len(n.stats) == 1:
            return self.chain(n.stats[0])
        if t == 'ExprStatNode':
            return self.chain(n.expr)
        if t == 'YieldExprNode':
            return [], self.e(n.arg)
        if t == 'ComprehensionAppendNode':
            return [], self.e(n.expr)
        raise NotKnown(t)

    def fold(self, gens):
        out = []
        for g in gens:
            if isinstance(g, tuple):
                out[-1].ifs.append(g[1])
            else:
                out.append(g)
        return out

    def e_GeneratorExpressionNode(self, n):
        gens, el = self.chain(n.loop)
        return ast.GeneratorExp(el, self.fold(gens))

    def e_ComprehensionNode(self, n):
        gens, el = self.chain(n.loop)
        return ast.ListComp(el, self.fold(gens))

    def e_LambdaNode(self, n):
        ar, pre = self.args(n.args)
        return ast.Lambda(ar, self.e(n.result_expr))
