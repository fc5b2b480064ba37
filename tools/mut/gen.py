"""Mutants of bet/: list of {id, file, line, fn, old, new, src}."""
import ast, io, json, os, random, sys, tokenize
REPO = "/repo"
SWAP = {"_local": None}
NAMES = {"min": "max", "max": "min", "floor": "ceil", "ceil": "floor", "argmin": "argmax", "argmax": "argmin", "less": "less_equal", "less_equal": "less",
         "greater": "greater_equal", "greater_equal": "greater", "all": "any", "any": "all", "SUM": "MAX", "vstack": "hstack", "zeros": "ones", "ones": "zeros",
         "logical_and": "logical_or", "logical_or": "logical_and", "equal": "not_equal", "maximum": "minimum", "minimum": "maximum", "array_split": None,
         "is_": None}


def mutants(path):
    src = open(os.path.join(REPO, path)).read()
    tree = ast.parse(src)
    lines = src.splitlines(keepends=True)
    offs = [0]
    for l in lines:
        offs.append(offs[-1] + len(l.encode()))
    b = src.encode()

    def pos(ln, col):
        return offs[ln - 1] + col

    def seg(n):
        return pos(n.lineno, n.col_offset), pos(n.end_lineno, n.end_col_offset)
    out = []
    parents = {}
    for n in ast.walk(tree):
        for c in ast.iter_child_nodes(n):
            parents[c] = n

    def fn(n):
        names = []
        while n in parents:
            n = parents[n]
            if isinstance(n, (ast.FunctionDef, ast.ClassDef)):
                names.append(n.name)
        return ".".join(reversed(names))

    def add(n, a, e, new, kind):
        old = b[a:e].decode()
        if old == new:
            return
        out.append({"file": path, "line": n.lineno, "fn": fn(n), "kind": kind, "old": old[:80], "new": new[:80], "a": a, "e": e, "rep": new})

    def unlogged(n):
        """not within logging, raise or docstring"""
        m = n
        while m in parents:
            if isinstance(m, ast.Raise):
                return False
            if isinstance(m, ast.Call) and "logging" in ast.unparse(m.func):
                return False
            m = parents[m]
        return True
    for n in ast.walk(tree):
        if not hasattr(n, "lineno") or not fn(n) or not unlogged(n):
            continue
        if isinstance(n, ast.Compare) and len(n.ops) == 1:
            l, r = ast.unparse(n.left), ast.unparse(n.comparators[0])
            la, le = seg(n.left)
            ra, re_ = seg(n.comparators[0])
            op = b[le:ra].decode()
            for o, w in ((" < ", " <= "), (" > ", " >= "), (" <= ", " < "), (" >= ", " > "), (" == ", " != "), (" != ", " == "), (" is not ", " is "), (" is ", " is not ")):
                if op.strip() == o.strip():
                    add(n, le, ra, w, "cmp")
                    break
        elif isinstance(n, ast.BinOp):
            la, le = seg(n.left)
            ra, re_ = seg(n.right)
            op = b[le:ra].decode()
            if isinstance(n.left, ast.Constant) and isinstance(n.left.value, str):
                continue
            for o, w in (("+", "-"), ("-", "+"), ("**", "*"), ("//", "/"), ("*", "/"), ("/", "*")):
                if op.strip() == o:
                    add(n, le, ra, op.replace(o, w), "arith")
                    break
        elif isinstance(n, ast.Constant):
            a, e = seg(n)
            if n.value is True or n.value is False:
                add(n, a, e, str(not n.value), "bool")
            elif isinstance(n.value, int):
                add(n, a, e, str(n.value + 1), "const")
            elif isinstance(n.value, float):
                add(n, a, e, repr(n.value * 0.5 if n.value else 1.0), "const")
        elif isinstance(n, ast.BoolOp):
            la, le = seg(n.values[0])
            ra, _ = seg(n.values[1])
            t = b[le:ra].decode()
            if isinstance(n.op, ast.And) and "and" in t:
                add(n, le, ra, t.replace("and", "or"), "bool")
            elif "or" in t:
                add(n, le, ra, t.replace("or", "and"), "bool")
        elif isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.Not):
            a, e = seg(n)
            oa, oe = seg(n.operand)
            add(n, a, oa, "", "not")
        elif isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.USub):
            a, e = seg(n)
            oa, oe = seg(n.operand)
            add(n, a, oa, "", "neg")
        elif isinstance(n, ast.Attribute):
            a, e = seg(n)
            t = b[a:e].decode()
            nm = n.attr
            if NAMES.get(nm):
                add(n, e - len(nm), e, NAMES[nm], "name")
            elif nm.startswith("_") and nm.endswith("_local"):
                add(n, e - len(nm), e, nm[:-6], "view")
            elif nm.startswith("_") and nm + "_local" in src and not nm.endswith("_local"):
                add(n, e - len(nm), e, nm + "_local", "view")
        elif isinstance(n, ast.If):
            a, e = seg(n.test)
            add(n, a, e, "True", "if")
            add(n, a, e, "False", "if")
        elif isinstance(n, (ast.Expr, ast.Assign, ast.AugAssign)):
            if isinstance(n, ast.Expr) and not isinstance(n.value, ast.Call):
                continue
            if isinstance(n, ast.Expr) and "logging" in ast.unparse(n):
                continue
            a, e = seg(n)
            add(n, a, e, "pass", "drop")
        elif isinstance(n, ast.Call):
            f = ast.unparse(n.func)
            a, e = seg(n)
            if f.endswith(".allreduce") and n.args:
                xa, xe = seg(n.args[0])
                add(n, a, e, b[xa:xe].decode(), "call")
            elif f.endswith(".copy") or f.endswith(".flatten") or f.endswith(".transpose"):
                va, ve = seg(n.func.value)
                add(n, a, e, b[va:ve].decode(), "call")
            elif f in ("np.copy", "copy.copy", "copy.deepcopy", "np.abs", "np.sqrt", "np.sort", "np.unique", "sorted", "abs", "np.array") and n.args:
                xa, xe = seg(n.args[0])
                add(n, a, e, b[xa:xe].decode(), "call")
            if len(n.args) == 2 and f.split(".")[-1] not in ("zeros", "ones"):
                a1, e1 = seg(n.args[0])
                a2, e2 = seg(n.args[1])
                add(n, a1, e2, b[a2:e2].decode() + b[e1:a2].decode() + b[a1:e1].decode(), "swap")
        elif isinstance(n, ast.Return) and n.value is not None and isinstance(n.value, ast.Tuple) and len(n.value.elts) == 2:
            pass
    good = []
    for m in out:
        t = (b[:m["a"]] + m["rep"].encode() + b[m["e"]:]).decode()
        try:
            ast.parse(t)
        except SyntaxError:
            continue
        good.append(m)
    return good


if __name__ == "__main__":
    files = sys.argv[2:]
    allm = []
    for f in files:
        allm += mutants(f)
    for i, m in enumerate(allm):
        m["id"] = i
    json.dump(allm, open(sys.argv[1], "w"))
    print(len(allm), {f: sum(m["file"] == f for m in allm) for f in files})
