"""Turns functions of a C file into Python syntax trees for the interpreter.

Pointers become object references, NULL the name ``NULL``, ``==`` on pointers
identity; calls stay calls of ``capi.<name>``.  What has no counterpart raises
Undecided.
"""
import ast
import json
import os
import subprocess

from .engine import Undecided

STUB = os.path.join(os.path.dirname(os.path.abspath(__file__)), 'cstub')


def parse(path):
    """{function name: (Python FunctionDef, line)} of a C file."""
    try:
        p = subprocess.run(
            ['clang', '-Xclang', '-ast-dump=json', '-fsyntax-only', '-I',
             STUB, '-nostdinc', '-std=gnu99', '-Wno-everything', path],
            stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=60)
    except (OSError, subprocess.TimeoutExpired) as e:
        raise Undecided('clang: %s' % e)
    try:
        tree = json.loads(p.stdout.decode('utf-8'))
    except ValueError:
        raise Undecided('clang gave no syntax tree')
    if p.returncode:
        raise Undecided('clang: %s' % p.stderr.decode()[:300])
    out, methods = {}, {}
    for n in tree.get('inner', ()):
        if n.get('kind') == 'FunctionDecl' and any(
                c.get('kind') == 'CompoundStmt' for c in n.get('inner', ())):
            try:
                out[n['name']] = (Conv().function(n), line_of(n))
            except Undecided as e:
                out[n['name']] = (None, str(e))
        elif n.get('kind') == 'VarDecl' and 'PyMethodDef' in \
                n.get('type', {}).get('qualType', ''):
            # {"name", function, flags, doc}
            for row in walk_json(n):
                if row.get('kind') == 'InitListExpr' and 'PyMethodDef' == \
                        row.get('type', {}).get('qualType', ''):
                    items = row.get('inner', [])
                    strs = [x for x in walk_json(items[0])
                            if x.get('kind') == 'StringLiteral'] \
                        if items else []
                    refs = [x for x in walk_json(items[1])
                            if x.get('kind') == 'DeclRefExpr'] \
                        if len(items) > 1 else []
                    if strs and refs:
                        methods[json.loads(strs[0]['value'])] = \
                            refs[0]['referencedDecl']['name']
    return out, methods


def walk_json(n):
    yield n
    for c in n.get('inner', ()):
        for x in walk_json(c):
            yield x


def line_of(n):
    loc = n.get('loc', {})
    return loc.get('line') or loc.get('expansionLoc', {}).get('line') or 0


def name(n, ctx=None):
    return ast.Name(id=n, ctx=ctx or ast.Load())


class Conv(object):

    def function(self, n):
        params, body = [], []
        for c in n.get('inner', ()):
            if c['kind'] == 'ParmVarDecl':
                params.append(c.get('name', '_%d' % len(params)))
            elif c['kind'] == 'CompoundStmt':
                body = self.block(c)
        f = ast.FunctionDef(
            name=n['name'], args=ast.arguments(
                posonlyargs=[], args=[ast.arg(arg=p) for p in params],
                kwonlyargs=[], kw_defaults=[], defaults=[]),
            body=body or [ast.Pass()], decorator_list=[])
        m = ast.Module(body=[f], type_ignores=[])
        ast.fix_missing_locations(m)
        return m

    def block(self, n):
        stmts = []
        inner = n.get('inner', [])
        for i, c in enumerate(inner):
            if c['kind'] == 'LabelStmt':
                label = c.get('declId', c['name'])
                rest = self.block({'inner': c.get('inner', []) +
                                   inner[i + 1:]})
                handler = ast.ExceptHandler(
                    type=name('goto_' + label), name=None,
                    body=[ast.Pass()])
                if stmts:
                    stmts = [ast.Try(body=stmts, handlers=[handler],
                                     orelse=[], finalbody=[])]
                return stmts + rest
            stmts.extend(self.stmt(c))
        return stmts

    def stmt(self, n):
        k = n['kind']
        inner = n.get('inner', [])
        if k == 'CompoundStmt':
            return self.block(n)
        if k == 'DeclStmt':
            out = []
            for d in inner:
                if d['kind'] != 'VarDecl':
                    continue
                init = d.get('inner')
                if init and d.get('init'):
                    pre, v = self.expr(init[-1])
                    out += pre + [ast.Assign(
                        targets=[name(d['name'], ast.Store())], value=v)]
            return out
        if k == 'NullStmt':
            return []
        if k == 'ReturnStmt':
            if not inner:
                return [ast.Return(value=None)]
            pre, v = self.expr(inner[0])
            return pre + [ast.Return(value=v)]
        if k == 'BreakStmt':
            return [ast.Break()]
        if k == 'ContinueStmt':
            return [ast.Continue()]
        if k == 'GotoStmt':
            return [ast.Raise(exc=name('goto_' + n['targetLabelDeclId']),
                              cause=None)]
        if k == 'IfStmt':
            pre, c = self.expr(inner[0])
            return pre + [ast.If(
                test=c, body=self.stmt(inner[1]) or [ast.Pass()],
                orelse=self.stmt(inner[2]) if len(inner) > 2 else [])]
        if k == 'WhileStmt':
            pre, c = self.expr(inner[0])
            body = self.stmt(inner[1])
            if pre:
                body = pre + [ast.If(test=c, body=body or [ast.Pass()],
                                     orelse=[ast.Break()])]
                c = ast.Constant(value=True)
            return [ast.While(test=c, body=body or [ast.Pass()], orelse=[])]
        if k == 'DoStmt':
            pre, c = self.expr(inner[1])
            return [ast.While(test=ast.Constant(value=True),
                              body=self.stmt(inner[0]) + pre + [
                                  ast.If(test=c, body=[ast.Pass()],
                                         orelse=[ast.Break()])], orelse=[])]
        if k == 'ForStmt':
            # init, (condition variable), condition, increment, body
            init, __, cond, inc, body = inner
            out = self.stmt(init) if init.get('kind') else []
            if cond.get('kind'):
                pre, c = self.expr(cond)
            else:
                pre, c = [], ast.Constant(value=True)
            if pre:
                raise Undecided('for with effects in its condition')
            step = self.stmt(inc) if inc.get('kind') else []
            b = self.stmt(body)
            for x in b:
                for y in ast.walk(x):
                    if isinstance(y, ast.Continue):
                        # runs the increment first.
                        b = Cont(step).body(b)
                        break
            out.append(ast.While(test=c, body=(b + step) or [ast.Pass()],
                                 orelse=[]))
            return out
        # an expression for its effect.
        pre, v = self.expr(n)
        if isinstance(v, (ast.Name, ast.Constant)):
            return pre
        return pre + [ast.Expr(value=v)]

    def expr(self, n):
        """-> (statements to run before, expression)"""
        k = n['kind']
        inner = n.get('inner', [])
        if k in ('ImplicitCastExpr', 'CStyleCastExpr', 'ParenExpr',
                 'ConstantExpr'):
            if n.get('castKind') == 'NullToPointer':
                return [], name('NULL')
            return self.expr(inner[0])
        if k == 'DeclRefExpr':
            return [], name(n['referencedDecl']['name'])
        if k == 'IntegerLiteral':
            return [], ast.Constant(value=int(n['value']))
        if k == 'StringLiteral':
            return [], ast.Constant(value=json.loads(n['value']))
        if k == 'MemberExpr':
            pre, v = self.expr(inner[0])
            return pre, ast.Attribute(value=v, attr=n['name'],
                                      ctx=ast.Load())
        if k == 'CallExpr':
            fn = inner[0]
            pre, f = self.expr(fn)
            args = []
            for a in inner[1:]:
                p, v = self.expr(a)
                pre = pre + p
                args.append(v)
            if isinstance(f, ast.Name) and f.id == 'PyArg_ParseTuple':
                return self.parse_tuple(pre, args)
            return pre, ast.Call(func=f, args=args, keywords=[])
        if k == 'UnaryOperator':
            op = n['opcode']
            pre, v = self.expr(inner[0])
            if op == '!':
                if self.pointer(inner[0]):
                    return pre, self.is_null(v)
                return pre, ast.UnaryOp(op=ast.Not(), operand=v)
            if op == '-':
                return pre, ast.UnaryOp(op=ast.USub(), operand=v)
            if op == '&':
                return pre, v
            if op in ('++', '--') and isinstance(v, ast.Name):
                st = ast.AugAssign(
                    target=name(v.id, ast.Store()),
                    op=ast.Add() if op == '++' else ast.Sub(),
                    value=ast.Constant(value=1))
                return pre + [st], v
            raise Undecided('operator ' + op)
        if k == 'BinaryOperator':
            op = n['opcode']
            if op == '=':
                pre, v = self.expr(inner[1])
                p2, t = self.expr(inner[0])
                if isinstance(t, ast.Name):
                    t2 = name(t.id, ast.Store())
                elif isinstance(t, ast.Attribute):
                    t2 = ast.Attribute(value=t.value, attr=t.attr,
                                       ctx=ast.Store())
                else:
                    raise Undecided('assignment')
                return pre + p2 + [ast.Assign(targets=[t2], value=v)], t
            pa, a = self.expr(inner[0])
            pb, b = self.expr(inner[1])
            if op in ('&&', '||'):
                a = self.truth(inner[0], a)
                b = self.truth(inner[1], b)
                if pb:
                    raise Undecided('effects behind ' + op)
                return pa, ast.BoolOp(
                    op=ast.And() if op == '&&' else ast.Or(),
                    values=[a, b])
            cmp_ = {'==': ast.Eq, '!=': ast.NotEq, '<': ast.Lt,
                    '>': ast.Gt, '<=': ast.LtE, '>=': ast.GtE}
            if op in cmp_:
                if self.pointer(inner[0]) and op in ('==', '!='):
                    o = ast.Is() if op == '==' else ast.IsNot()
                else:
                    o = cmp_[op]()
                return pa + pb, ast.Compare(left=a, ops=[o],
                                            comparators=[b])
            ar = {'+': ast.Add, '-': ast.Sub, '*': ast.Mult}
            if op in ar:
                return pa + pb, ast.BinOp(left=a, op=ar[op](), right=b)
            raise Undecided('operator ' + op)
        if k == 'ConditionalOperator':
            pc, c = self.expr(inner[0])
            pa, a = self.expr(inner[1])
            pb, b = self.expr(inner[2])
            if pa or pb:
                raise Undecided('effects in ?:')
            return pc, ast.IfExp(test=self.truth(inner[0], c), body=a,
                                 orelse=b)
        raise Undecided('C construct ' + k)

    def pointer(self, n):
        return '*' in n.get('type', {}).get('qualType', '') or \
            'PYOBJ' in n.get('type', {}).get('qualType', '') or \
            '*' in n.get('type', {}).get('desugaredQualType', '')

    def is_null(self, v):
        return ast.Compare(left=v, ops=[ast.Is()],
                           comparators=[name('NULL')])

    def truth(self, n, v):
        m = n
        while m['kind'] in ('ImplicitCastExpr', 'ParenExpr') and \
                m.get('castKind') not in ('PointerToBoolean',):
            m = m['inner'][0]
        if self.pointer(n) or self.pointer(m) and not isinstance(
                v, (ast.Compare, ast.BoolOp)):
            return ast.Compare(left=v, ops=[ast.IsNot()],
                               comparators=[name('NULL')])
        return v

    def parse_tuple(self, pre, args):
        """PyArg_ParseTuple(args, "O..", &a, ..): the call binds names."""
        fmt = args[1].value if isinstance(args[1], ast.Constant) else None
        if fmt is None:
            raise Undecided('format of PyArg_ParseTuple')
        fmt = fmt.partition(':')[0].partition(';')[0]
        if '|' in fmt or any(c != 'O' for c in fmt):
            raise Undecided('format ' + fmt)
        names = args[2:]
        if not all(isinstance(a, ast.Name) for a in names):
            raise Undecided('targets of PyArg_ParseTuple')
        tmp = '_parsed'
        call = ast.Call(func=name('PyArg_ParseTuple'), args=[
            args[0], ast.Constant(value=len(fmt)),
            ast.Constant(value=len(names))], keywords=[])
        st = [ast.Assign(targets=[name(tmp, ast.Store())], value=call)]
        body = [ast.Assign(targets=[name(a.id, ast.Store())],
                           value=ast.Subscript(
                               value=args[0], slice=ast.Constant(value=i),
                               ctx=ast.Load()))
                for i, a in enumerate(names)]
        st.append(ast.If(test=name(tmp), body=body or [ast.Pass()],
                         orelse=[]))
        return pre + st, name(tmp)


class Cont(ast.NodeTransformer):
    """Puts statements before each continue of a loop body."""

    def __init__(self, step):
        self.step = step

    def body(self, stmts):
        out = []
        for s in stmts:
            r = self.visit(s)
            out.extend(r if isinstance(r, list) else [r])
        return out

    def visit_While(self, n):
        return n

    def visit_Continue(self, n):
        return list(self.step) + [n]
