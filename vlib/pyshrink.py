"""Shrinking Python sources: delete statements, unwrap blocks, simplify expressions."""
import ast
import copy


def _bodies(tree):
    for node in ast.walk(tree):
        for field in ("body", "orelse", "finalbody", "handlers", "cases"):
            val = getattr(node, field, None)
            if isinstance(val, list) and val and isinstance(val[0], ast.AST):
                yield node, field


def _index_bodies(tree):
    return list(_bodies(tree))


def variants(src):
    """Smaller programs, biggest cuts first."""
    try:
        tree = ast.parse(src)
    except SyntaxError:
        lines = src.split("\n")
        for i in range(len(lines)):
            yield "\n".join(lines[:i] + lines[i + 1:])
        return

    def emit(t):
        try:
            ast.fix_missing_locations(t)
            s = ast.unparse(t) + "\n"
            compile(s, "<shrink>", "exec")
        except Exception:  # noqa
            return None
        return s if s != src else None

    spots = _index_bodies(tree)
    seen = set()
    size = len(ast.unparse(tree)) if spots else 0

    def out(t):
        s = emit(t)
        if s is not None and s not in seen and len(s) < len(src) + 5:
            seen.add(s)
            return s
        return None

    # delete chunks of statements
    for bi in range(len(spots)):
        node, field = spots[bi]
        n = len(getattr(node, field))
        chunk = n
        while chunk >= 1:
            for start in range(0, n, chunk):
                t = copy.deepcopy(tree)
                nd, f = _index_bodies(t)[bi]
                lst = getattr(nd, f)
                del lst[start:start + chunk]
                if not lst and f == "body" and not isinstance(nd, ast.Module):
                    lst.append(ast.Pass())
                s = out(t)
                if s:
                    yield s
            chunk //= 2
    # replace compound statements by their bodies
    for bi in range(len(spots)):
        node, field = spots[bi]
        for i, st in enumerate(getattr(node, field)):
            for f2 in ("body", "orelse", "finalbody"):
                if isinstance(getattr(st, f2, None), list) and getattr(st, f2) and not isinstance(st, ast.Lambda):
                    t = copy.deepcopy(tree)
                    nd, f = _index_bodies(t)[bi]
                    lst = getattr(nd, f)
                    lst[i:i + 1] = getattr(lst[i], f2)
                    s = out(t)
                    if s:
                        yield s
    # replace expressions by sub-expressions
    nodes = [n for n in ast.walk(tree)]
    for ni, node in enumerate(nodes):
        for field, val in ast.iter_fields(node):
            items = [(None, val)] if isinstance(val, ast.expr) else (
                [(i, v) for i, v in enumerate(val) if isinstance(v, ast.expr)] if isinstance(val, list) else []
            )
            for idx, v in items:
                subs = [c for c in ast.iter_child_nodes(v) if isinstance(c, ast.expr)]
                cands = list(range(len(subs)))
                for ci in cands:
                    t = copy.deepcopy(tree)
                    nd = list(ast.walk(t))[ni]
                    cur = getattr(nd, field) if idx is None else getattr(nd, field)[idx]
                    sub = [c for c in ast.iter_child_nodes(cur) if isinstance(c, ast.expr)][ci]
                    if idx is None:
                        setattr(nd, field, sub)
                    else:
                        getattr(nd, field)[idx] = sub
                    s = out(t)
                    if s:
                        yield s
            # drop list elements (boolean operands, arguments)
            if isinstance(val, list) and len(val) > (2 if isinstance(node, ast.BoolOp) else 1) and isinstance(node, (ast.BoolOp, ast.Call, ast.List, ast.Tuple)):
                for i in range(len(val)):
                    t = copy.deepcopy(tree)
                    nd = list(ast.walk(t))[ni]
                    del getattr(nd, field)[i]
                    s = out(t)
                    if s:
                        yield s
    # constants to 0 / 1
    for ni, node in enumerate(nodes):
        if isinstance(node, ast.Constant) and isinstance(node.value, int) and node.value not in (0, 1, True, False):
            for v in (0, 1):
                t = copy.deepcopy(tree)
                nd = list(ast.walk(t))[ni]
                nd.value = v
                s = out(t)
                if s:
                    yield s
