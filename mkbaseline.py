#!/usr/bin/env python3-vt
"""Record the verified tree: hash of the syntax trees, and the text of every
function under contract (used only to follow renamed local variables)."""
import ast, json, sys
sys.path.insert(0, "/verif")
import check
from vpy import engine as E
base, units = check.load_units(dict(modules=[], units=[]))
repo = E.Repo()
src = {}
for u in base.UNITS:
    if isinstance(u, E.Lemma):
        continue
    n = E.find_def(repo.mod(u.path), u.func)
    if n is not None:
        n2 = ast.parse(ast.unparse(n)).body[0]
        n2.decorator_list = []
        n2.body = [s for i, s in enumerate(n2.body) if not (i == 0 and isinstance(s, ast.Expr) and isinstance(s.value, ast.Constant))]
        src[f"{u.path}:{u.func}"] = ast.unparse(n2)
json.dump(dict(tree=check.tree_hash("/repo"), src=src), open("/verif/baseline.json", "w"), indent=0, sort_keys=True)
print(len(src), "functions")
