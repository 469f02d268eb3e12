"""Loops with breaks and continues, rewritten into the forms the evaluator summarises.

The rewriting is purely syntactic and preserves the meaning of the program:

    while True:                while not C:
        if C:                      REST
            break        =>    
        REST                   

    if C:                      if C:
        A                          A
        continue         =>    else:
    REST                           REST
"""

import ast


def own_jumps(stmts, kind):
    """Jumps of a kind that belong to the loop these statements are the body of."""
    for s in stmts:
        if isinstance(s, kind):
            return True
        if isinstance(s, (ast.FunctionDef, ast.ClassDef, ast.AsyncFunctionDef)):
            continue
        if isinstance(s, (ast.For, ast.While)):
            if own_jumps(s.orelse, kind):
                return True
            continue
        for f in ("body", "orelse", "finalbody"):
            if own_jumps(getattr(s, f, []) or [], kind):
                return True
        for h in getattr(s, "handlers", []) or []:
            if own_jumps(h.body, kind):
                return True
    return False


def negate(e):
    if isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.Not):
        return e.operand
    return ast.copy_location(ast.UnaryOp(ast.Not(), e), e)


def without_continue(stmts):
    """The statements of a loop body with trailing-position continues turned into branches."""
    out = []
    for k, s in enumerate(stmts):
        if isinstance(s, ast.Continue):
            break
        if isinstance(s, ast.If) and own_jumps([s], ast.Continue):
            rest = stmts[k + 1:]
            a, b = s.body, s.orelse
            ends = lambda x: bool(x) and isinstance(x[-1], (ast.Continue, ast.Break, ast.Return, ast.Raise))
            if ends(a) and not own_jumps(a[:-1], ast.Continue):
                a = a[:-1] if isinstance(a[-1], ast.Continue) else a
                b = without_continue(b + rest)
            elif ends(b) and not own_jumps(b[:-1], ast.Continue):
                b = b[:-1] if isinstance(b[-1], ast.Continue) else b
                a = without_continue(a + rest)
            else:
                return out + stmts[k:]
            if not a and b:
                s = ast.copy_location(ast.If(negate(s.test), b, []), s)
            else:
                s = ast.copy_location(ast.If(s.test, a or [ast.copy_location(ast.Pass(), s)], b), s)
            out.append(s)
            return out
        out.append(s)
    return out or [ast.Pass(lineno=stmts[0].lineno, col_offset=0)]


class Loops(ast.NodeTransformer):

    def visit_For(self, n):
        self.generic_visit(n)
        if own_jumps(n.body, ast.Continue):
            n.body = without_continue(n.body)
        return n

    def visit_While(self, n):
        self.generic_visit(n)
        if own_jumps(n.body, ast.Continue):
            n.body = without_continue(n.body)
        always = isinstance(n.test, ast.Constant) and bool(n.test.value)
        if always and not n.orelse and n.body and isinstance(n.body[0], ast.If):
            i = n.body[0]
            rest = n.body[1:]
            if len(i.body) == 1 and isinstance(i.body[0], ast.Break):
                test, body = negate(i.test), i.orelse + rest
            elif len(i.orelse) == 1 and isinstance(i.orelse[0], ast.Break):
                test, body = i.test, i.body + rest
            else:
                return n
            if not own_jumps(body, ast.Break):
                n = ast.copy_location(ast.While(test, body or [ast.copy_location(ast.Pass(), n)], []), n)
        return n


def desugar(tree):
    return ast.fix_missing_locations(Loops().visit(tree))
