TRUSTED = [
    "vpy: the symbolic executor and obligation generator in /verif/vpy (reads /repo's Python text through ast on every run)",
    "vpy/numpy_model.py: the semantics of the NumPy / builtin operations used",
    "z3, cvc5",
    "numba compiles the Python text faithfully (its decorators are checked for semantics-changing options)",
    "CPython's ast parser",
]
