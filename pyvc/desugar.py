"""Source rewriting before interpretation: `match` statements whose patterns are constants, alternatives, captures, wildcards and
fixed-length sequences over a tuple display become the if/elif chain the language reference defines for them.  Any other pattern is
left in place (and reported as outside the verified subset when reached)."""
import ast


class NotPlain(Exception):
    pass


def test_of(p, subj):
    """(condition or None for always, [(name, value expression)])"""
    if isinstance(p, ast.MatchValue):
        return ast.Compare(left=subj, ops=[ast.Eq()], comparators=[p.value]), []
    if isinstance(p, ast.MatchSingleton):
        return ast.Compare(left=subj, ops=[ast.Is()], comparators=[ast.Constant(p.value)]), []
    if isinstance(p, ast.MatchAs):
        c, b = test_of(p.pattern, subj) if p.pattern else (None, [])
        return c, b + ([(p.name, subj)] if p.name else [])
    if isinstance(p, ast.MatchOr):
        cs = [test_of(q, subj) for q in p.patterns]
        if any(b for _, b in cs):
            raise NotPlain
        if any(c is None for c, _ in cs):
            return None, []
        return ast.BoolOp(op=ast.Or(), values=[c for c, _ in cs]), []
    if isinstance(p, ast.MatchSequence) and isinstance(subj, ast.Tuple):
        if any(isinstance(q, ast.MatchStar) for q in p.patterns):
            raise NotPlain
        if len(p.patterns) != len(subj.elts):
            return ast.Constant(False), []
        cs, bs = [], []
        for q, e in zip(p.patterns, subj.elts):
            c, b = test_of(q, e)
            cs += [c] if c is not None else []
            bs += b
        return (ast.BoolOp(op=ast.And(), values=cs) if len(cs) > 1 else cs[0] if cs else None), bs
    raise NotPlain


class Rewrite(ast.NodeTransformer):
    n = 0

    def visit_Match(self, s):
        self.generic_visit(s)
        try:
            pre = []

            def held(e):
                if isinstance(e, ast.Tuple):
                    return ast.Tuple(elts=[held(x) for x in e.elts], ctx=ast.Load())
                if isinstance(e, (ast.Name, ast.Constant)):
                    return e
                Rewrite.n += 1
                nm = '_matched_%d' % Rewrite.n
                pre.append(ast.Assign(targets=[ast.Name(id=nm, ctx=ast.Store())], value=e))
                return ast.Name(id=nm, ctx=ast.Load())
            subj = held(s.subject)
            rest = []
            for case in reversed(s.cases):
                c, b = test_of(case.pattern, subj)
                bind = [ast.Assign(targets=[ast.Name(id=k, ctx=ast.Store())], value=v) for k, v in b]
                if case.guard is not None:
                    if bind and c is not None:
                        raise NotPlain
                    cond = case.guard if c is None else ast.BoolOp(op=ast.And(), values=[c, case.guard])
                    rest = bind + [ast.If(test=cond, body=case.body, orelse=rest)]
                elif c is None:
                    rest = bind + case.body
                else:
                    rest = [ast.If(test=c, body=bind + case.body, orelse=rest)]
            out = pre + (rest or [ast.Pass()])
        except NotPlain:
            return s
        for o in out:
            ast.copy_location(o, s)
            ast.fix_missing_locations(o)
        return out


def plain(tree):
    if any(isinstance(n, ast.Match) for n in ast.walk(tree)):
        tree = Rewrite().visit(tree)
    return tree
