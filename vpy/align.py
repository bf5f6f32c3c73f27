"""Map the local names of the baseline version of a function onto the names of the
current version (a pure renaming must not detach the annotations)."""
import ast
import difflib


def strip_doc(body):
    if body and isinstance(body[0], ast.Expr) and isinstance(body[0].value, ast.Constant) and isinstance(body[0].value.value, str):
        return body[1:]
    return body


def shape(node):
    """structure with identifiers blanked"""
    class B(ast.NodeTransformer):
        def visit_Name(self, n):
            return ast.Name(id="_", ctx=n.ctx)

        def visit_arg(self, n):
            return ast.arg(arg="_")
    import copy
    return ast.dump(B().visit(copy.deepcopy(node)))


def flat(body):
    out = []
    for s in strip_doc(body):
        out.append(s)
        for f in ("body", "orelse", "finalbody"):
            sub = getattr(s, f, None)
            if sub:
                out.extend(flat(sub))
    return out


def head(s):
    """statement without its nested blocks"""
    import copy
    c = copy.copy(s)
    for f in ("body", "orelse", "finalbody"):
        if getattr(c, f, None) is not None and isinstance(getattr(c, f), list):
            setattr(c, f, [])
    return c


def names(node):
    return [n.id for n in ast.walk(node) if isinstance(n, ast.Name)]


def rename_map(old_src, new_node):
    try:
        old = ast.parse(old_src).body[0]
    except (SyntaxError, IndexError):
        return {}
    oa = [a.arg for a in old.args.posonlyargs + old.args.args]
    na = [a.arg for a in new_node.args.posonlyargs + new_node.args.args]
    new_names = set(names(new_node)) | set(na)
    old_names = set(names(old)) | set(oa)
    if old_names <= new_names:
        return {}
    votes = {}
    if len(oa) == len(na):
        for x, y in zip(oa, na):
            if x != y:
                votes.setdefault(x, {}).setdefault(y, 0)
                votes[x][y] += 5
    A = [head(s) for s in flat(old.body)]
    B = [head(s) for s in flat(new_node.body)]
    sa, sb = [shape(s) for s in A], [shape(s) for s in B]
    sm = difflib.SequenceMatcher(None, sa, sb, autojunk=False)
    for i, j, n in sm.get_matching_blocks():
        for d in range(n):
            for x, y in zip(names(A[i + d]), names(B[j + d])):
                votes.setdefault(x, {}).setdefault(y, 0)
                votes[x][y] += 1
    out = {}
    for x, v in votes.items():
        if x in new_names:
            continue
        y = max(v, key=lambda k: v[k])
        if y not in old_names:
            out[x] = y
    return out
