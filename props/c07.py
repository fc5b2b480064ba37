"""C07: local and global views are exact distributions of one another."""
from props.sets import *

MODELS = [{"module": "MC_Set", "quick": {"Kind": '"dist"', "Depth": 5}, "thorough": {"Kind": '"dist"', "Depth": 7}}]
RULE = ("histories of set/distribute/gather/count operations: one per maximal transition of MC_Set, plus random ones over "
        "all thirteen per-sample arrays, dimensions 1-3 (some 4-5, up to 40 samples), irregular local pieces, 1-6 processes, whole discretizations, and the gathering helper itself on reals, integers and truth values, with and without an announced shape")
ASSUMPTIONS = ["processes are simulated in one address space; collectives have MPI's semantics"]


def scenario(rng, i):
    R = rng.choice([1, 2, 3, 4, 5, 6])
    dim = rng.choice([1, 2, 3])
    n = rng.randint(0 if rng.random() < 0.1 else 1, 9)
    if i % 25 == 24:
        dim, n = rng.choice([1, 4, 5]), rng.choice([13, 25, 40])
    sizes, loc = rsizes(rng, R, n), rng.random() < 0.4
    ops = filled(rng, 1, R, dim, n, local=loc, sizes=sizes)
    ops += [{"do": rng.choice(["g2l", "l2g", "num"]), "a": 1} for _ in range(rng.randint(1, 3))]
    if rng.random() < 0.5:
        fld = rng.choice(FIELDS)
        m = n if rng.random() < 0.6 else rng.randint(1, 9)
        if rng.random() < 0.5:
            ops.append({"do": "set", "a": 1, "f": fld, "x": rarr(rng, fld, m, dim)})
        else:
            # a mismatch shows on every process, so that all of them refuse
            sz = sizes if m == n else [k + 1 for k in sizes] if loc else rsizes(rng, R, m)
            ops.append({"do": "setl", "a": 1, "f": fld, "xs": rpieces(rng, fld, sz, dim)})
    ops += [{"do": rng.choice(["g2l", "l2g", "num", "num"]), "a": 1} for _ in range(rng.randint(1, 4))]
    s = {"R": R, "ops": ops, "seed": i, "order": order(rng, R)}
    if rng.random() < 0.3:
        s["code"] = rng.choice([[1.0, 2.0 ** -40], [0.0, 2.0 ** -60], [2.0 ** 20, 2.0 ** -20]])     # in full precision
    return s


def disc_scenario(rng, i):
    R = rng.choice([1, 2, 3, 5])
    n = rng.randint(1, 7)
    m = []
    ops = []
    loc = rng.random() < 0.5
    for k in range(6):
        if k < 2 or rng.random() < 0.75:
            a = len(m) - m.count(0) + 1
            dim = 2 if k in (0, 3) else 1
            num = n if k < 2 else rng.randint(1, 6)
            ops += filled(rng, a, R, dim, num, local=loc, flds=["values"] + [x for x in FIELDS[1:] if rng.random() < 0.2])
            m.append(a)
        else:
            m.append(0)
    for _ in range(rng.randint(1, 4)):
        ops.append({"do": rng.choice(["dg2l", "dl2g"]), "a": 1, "m": m, "ptr": rng.choice([0, 1, 2])})
    return {"R": R, "ops": ops, "seed": i, "order": order(rng, R)}


def gather_scenario(rng, i):
    """the helper that makes global arrays of local parts; equal parts when the shape is announced"""
    R = rng.choice([1, 2, 3, 4, 5])
    typed = rng.random() < 0.6
    k, dim = rng.randint(0 if rng.random() < 0.1 else 1, 4), rng.choice([0, 1, 2, 3])
    sizes = [k] * R if typed else [rng.randint(1 if R == 1 else 0, 4) for _ in range(R)]
    kind = rng.choice(["float", "int", "bool"])
    den = 4 if kind == "float" else 1
    lo, hi = (0, 1) if kind == "bool" else (-30, 30)
    xs = [qarr_sh([n] + ([dim] if dim else []), [Fraction(rng.randint(lo, hi), den) for _ in range(n * max(dim, 1))]) for n in sizes]
    return {"gather": True, "R": R, "xs": xs, "kind": kind, "typed": typed, "seed": i, "order": order(rng, R),
            "strided": rng.random() < 0.3}


def run_gather(s):
    def body(rank, R):
        import bet.util as U
        a = toarr(s["xs"][rank]).astype(s["kind"])
        if s["strided"] and a.ndim == 2:
            a = np.asfortranarray(a)
        before = a.copy()
        n = sum(x["sh"][0] for x in s["xs"])
        if s["typed"]:
            r = U.get_global_values(a, shape=(n,) + a.shape[1:])
        else:
            r = U.get_global_values(a)
        return {"ret": enc.arr(r), "argok": bool(np.array_equal(a, before))}
    outs, logs = run(s, body)
    fill(outs, {"ret": enc.NONE, "argok": True})
    return {"ev": [{"op": "gather", "xs": s["xs"], "outs": outs}], "init": []}


def scenarios(tier, rng):
    n = 350 if tier == "quick" else 4000
    return [gather_scenario(rng, i) for i in range(n // 4)] + [scenario(rng, i) for i in range(n)] + [disc_scenario(rng, i) for i in range(n // 3)]


def from_model(edges, tier, rng):
    out, _ = pick_edges(edges["MC_Set"], 700 if tier == "quick" else 12000, rng)
    return out


def execute(s):
    if s.get("gather"):
        return run_gather(s)
    return run_history(s)
