"""C09: saving and loading reproduces the object."""
import builtins
import os
import shutil
import tempfile
from props.sets import *
from props.c11 import opqs

MODELS = [{"module": "MC_File", "quick": {"R": 3}, "thorough": {"R": 5}},
          {"module": "MC_File", "quick": {"AllWrite": "TRUE", "R": 2}, "violates": "Sound"},
          {"module": "MC_File", "quick": {"BarrierAfter": "FALSE"}, "violates": "Sound"},
          {"module": "MC_Set", "quick": {"Kind": '"dist"', "Depth": 4}, "thorough": {"Kind": '"dist"', "Depth": 6}}]
RULE = ("histories of building sets (all classes, any fields, not-a-number and infinite entries, probability models) and "
        "discretizations (any members, pointers), distributing, saving (global or one file per process), overwriting and loading "
        "(localised or not) under names with and without directories and with similar names, in up to two runs with different "
        "numbers of processes 1-4; every history of MC_Set followed by a save and a load")
ASSUMPTIONS = ["a globalized file loaded without localisation on several processes determines the global view only",
               "processes are simulated in one address space over one file system; collectives have MPI's semantics",
               "names beginning with 'proc_' are excluded (documented in the code as not localisable)"]
NAMES = ["a", "b_a", "d/a", "d/b_a", "x.y", "d/[1]a", "@/e", "@/d/c", "1_a", "[1]/a", "@/w*/a", "p.q/a"]


class FMachine(Machine):
    def __init__(self, rank, R, root):
        Machine.__init__(self, rank, R)
        self.discs = []
        self.root = root

    def path(self, n):
        return n.replace("@", self.root)

    def do(self, e):
        import bet.util as U
        d = e["do"]
        if d == "dnew":
            kw = {n: self.store[k - 1].copy() for n, k in zip(self.MEM, e["m"]) if k}
            D = self.S.discretization(**kw)
            for i, n in enumerate(["_io_ptr", "_emulated_ii_ptr", "_emulated_oo_ptr"]):
                if e["pg"][i]["sh"] != [-1]:
                    setattr(D, n, toarr(e["pg"][i], "region"))
                if e["pl"][self.rank][i]["sh"] != [-1]:
                    setattr(D, n + "_local", toarr(e["pl"][self.rank][i], "region"))
            self.putd(e["k"], D)
            return None
        if d == "save":
            o = (self.store if e["o"] == "s" else self.discs)[e["k"] - 1]
            if e["via"] == "obj":
                o.save(self.path(e["name"]), globalize=e["glob"])
            else:
                U.save_object(o, self.path(e["name"]), globalize=e["glob"])
            return None
        if d == "load":
            o = U.load_object(self.path(e["name"]), localize=e["loc"])
            if e["o"] == "s":
                self.put(e["k"], o)
            else:
                self.putd(e["k"], o)
            return None
        if d == "dcmp":
            r = self.discs[e["k"] - 1] == self.discs[e["k2"] - 1]
            return r if isinstance(r, (bool, np.bool_)) else "notbool"
        return Machine.do(self, e)

    def putd(self, k, d):
        while len(self.discs) < k:
            self.discs.append(None)
        self.discs[k - 1] = d

    def step(self, e):
        o = Machine.step(self, e)
        o["discs"] = [{"mem": [project(getattr(d, "_" + n)) for n in self.MEM],
                       "pg": [enc.arr(getattr(d, n)) for n in self.PTR[0::2]],
                       "pl": [enc.arr(getattr(d, n)) for n in self.PTR[1::2]]} for d in self.discs]
        return o


def execute(s):
    import bet.util as U
    from bet.Comm import comm
    root = tempfile.mkdtemp(prefix="betv_c09_")
    for d in ("d", "[1]", "w*", "wx", "p.q"):
        os.mkdir(root + "/" + d)
    cwd = os.getcwd()
    os.chdir(root)
    wrote = {}

    def spy(name, mode="r", *a, **k):
        if isinstance(mode, str) and ("w" in mode or "a" in mode or "x" in mode or "+" in mode):
            wrote.setdefault(int(comm.rank), []).append(os.path.relpath(os.path.abspath(str(name)), root))
        return builtins.open(name, mode, *a, **k)
    U.open = spy
    try:
        ev = []
        for ph in s["phases"]:
            R, ops = ph["R"], ph["ops"]
            steps = [[None] * R for _ in ops]

            def body(rank, R):
                m = FMachine(rank, R, root)
                for i, e in enumerate(ops):
                    wrote[rank] = []
                    o = m.step(e)
                    o["wr"] = list(wrote.get(rank, []))
                    steps[i][rank] = o
                return {}
            outs, logs = run({"R": R, "seed": s["seed"], "order": ph.get("order")}, body)
            ev.append({"op": "file", "do": "phase", "R": R, "outs": []})
            for e, o in zip(ops, steps):
                x = {k: v for k, v in e.items() if k != "tok"}
                x.update(op="file", R=R)
                if e["do"] == "opq":
                    x["x"] = enc.deep(opaque(e["tok"]))
                if any(v is None for v in o):
                    x["outs"] = [{"exc": z.get("exc") or "lost", "ret": enc.NONE, "argok": True, "sets": [], "discs": [], "wr": []}
                                 for z in outs]
                    ev.append(x)
                    return {"ev": ev, "init": {}}
                x["outs"] = o
                ev.append(x)
        return {"ev": ev, "init": {}}
    finally:
        del U.open
        os.chdir(cwd)
        shutil.rmtree(root, ignore_errors=True)


def build(rng, a, R, dim, n, local=False, full=False):
    cls = rng.choice(["sample_set", "sample_set", "voronoi_sample_set"])
    flds = ["values"] + [x for x in FIELDS[1:] if rng.random() < 0.3]
    ops = filled(rng, a, R, dim, n, local=local, flds=flds, cls=cls, both=0 if full else 0.4)
    if not local:
        for o in ops:
            if o["do"] == "set" and rng.random() < 0.15 and o["f"] not in ("region", "error_id", "values") and o["x"]["v"]:
                o["x"]["v"][rng.randrange(len(o["x"]["v"]))] = rng.choice([[0, 0], [1, 0], [-1, 0]])
    if rng.random() < 0.4:
        ops.append({"do": "dom", "a": a, "x": rdom(rng, dim)})
    if rng.random() < 0.3:
        ops.append({"do": "ref", "a": a, "x": {"sh": [dim], "v": [rq(rng) for _ in range(dim)]}})
    if rng.random() < 0.3:
        ops.append({"do": "p", "a": a, "x": rng.choice([[1, 1], [1, 0]])})
    if rng.random() < 0.3:
        ops.append({"do": "ptype", "a": a, "x": rng.choice(["voronoi", "rv"])})
    if rng.random() < 0.3:
        ops.append({"do": "label", "a": a, "x": "q"})
    for _ in range(rng.choice([0, 0, 1, 2])):
        ops.append(dict(opqs(rng), a=a))
    return ops


def shaped(rng, a):
    """a box or ball set"""
    dim = rng.choice([1, 2])
    p = rpart(rng, dim, rng.choice(["rect", "cart", "ball"]))
    if p["kind"] == "ball":
        return [new(a, dim, "ball_sample_set"), {"do": "bsetup", "a": a, "vals": p["vals"], "rad": p["rad"]}]
    o = {"do": "rsetup", "a": a, "left": p["left"], "right": p["right"]}
    if p.get("xi"):
        o["xi"] = p["xi"]
    return [new(a, dim, "cartesian_sample_set" if p.get("xi") else "rectangle_sample_set"), o]


def scenario(rng, i):
    R = rng.choice([1, 1, 2, 3, 4])
    n = rng.randint(1, 6)
    ops, a = [], 0
    names = rng.sample(NAMES, 3)
    saved = []          # (name, o, k, glob)
    cross = rng.random() < 0.5           # a second run with another number of processes
    kind = rng.choice(["s", "s", "d"])
    if kind == "s":
        for _ in range(rng.choice([1, 2])):
            a += 1
            if rng.random() < 0.2:
                ops += shaped(rng, a)
            else:
                ops += build(rng, a, R, rng.choice([1, 2]), rng.randint(1, 6),
                             local=R > 1 and rng.random() < 0.3, full=cross)
        k = a
        objs = list(range(1, a + 1))
        wild = set()
        for _ in range(rng.randint(2, 5)):
            u = rng.random()
            if u < 0.5 or not saved:
                o = rng.choice([x for x in objs if x not in wild])
                nm = rng.choice(names)
                prev = [x for x in saved if x[0] == nm]
                g = rng.random() < 0.5 if not prev else prev[0][3]
                saved = [x for x in saved if x[0] != nm] + [(nm, "s", o, g)]
                ops.append({"do": "save", "o": "s", "k": o, "name": nm, "glob": g, "via": rng.choice(["obj", "util"])})
            elif u < 0.9:
                nm, _, o, g = rng.choice(saved)
                loc = rng.random() < 0.5 and (g or R == 1)
                k += 1
                ops.append({"do": "load", "o": "s", "k": k, "name": nm, "loc": loc})
                if R > 1 and g and not loc:
                    wild.add(k)
                objs.append(k)
            else:
                o = rng.choice([x for x in objs if x not in wild])
                ops.append({"do": "label", "a": o, "x": rng.choice(["u", "v"])})
            if R == 1 and len(objs) > 1 and rng.random() < 0.4:
                x, y = rng.sample(objs, 2)
                ops.append({"do": "eq", "a": x, "b": y})
    else:
        m = []
        for j in range(6):
            if j < 2 or rng.random() < 0.5:
                a += 1
                if j == 2 and rng.random() < 0.5:
                    ops += shaped(rng, a)
                else:
                    ops += build(rng, a, R, rng.choice([1, 2]), n if j < 2 else rng.randint(1, 5),
                                 local=R > 1 and j > 2 and rng.random() < 0.2, full=cross)
                m.append(a)
            else:
                m.append(0)
        loc_only = {j for j in range(6) if m[j] and any(o["do"] == "setl" and o["a"] == m[j] for o in ops)}
        pg, pl = [], [[] for _ in range(R)]
        for j in (1, 3, 4):
            c = rng.choice(["none", "g", "l", "gl"]) if m[j] else "none"
            size = nrows(ops, m[j]) if m[j] else 0
            arr_ = {"sh": [size], "v": [[rng.randint(0, 4), 1] for _ in range(size)]}
            sizes = None
            if j in loc_only:
                sizes = next([x["sh"][0] for x in o["xs"]] for o in ops if o["do"] == "setl" and o["a"] == m[j])
            else:
                sizes = [len(x) for x in np.array_split(np.arange(size), R)]
            pg.append(arr_ if "g" in c and c != "l" else dict(enc.NONE))
            at = 0
            for r in range(R):
                pl[r].append({"sh": [sizes[r]], "v": arr_["v"][at:at + sizes[r]]} if c in ("l", "gl") else dict(enc.NONE))
                at += sizes[r]
        ops.append({"do": "dnew", "k": 1, "m": m, "pg": pg, "pl": pl})
        k = 1
        wild = set()
        discs = [1]
        for _ in range(rng.randint(2, 4)):
            if rng.random() < 0.5 or not saved:
                o = rng.choice([x for x in discs if x not in wild])
                nm = rng.choice(names)
                prev = [x for x in saved if x[0] == nm]
                g = rng.random() < 0.5 if not prev else prev[0][3]
                saved = [x for x in saved if x[0] != nm] + [(nm, "d", o, g)]
                ops.append({"do": "save", "o": "d", "k": o, "name": nm, "glob": g, "via": rng.choice(["obj", "util"])})
            else:
                nm, _, o, g = rng.choice(saved)
                loc = rng.random() < 0.5 and (g or R == 1)
                k += 1
                ops.append({"do": "load", "o": "d", "k": k, "name": nm, "loc": loc})
                if R > 1 and g and not loc:
                    wild.add(k)
                discs.append(k)
            if R == 1 and len(discs) > 1 and rng.random() < 0.5:
                x, y = rng.sample(discs, 2)
                ops.append({"do": "dcmp", "k": x, "k2": y})
    ph = [{"R": R, "ops": ops, "order": order(rng, R)}]
    if cross and saved:
        R2 = rng.choice([x for x in (1, 2, 3) if x != R] + [R])
        o2 = []
        localonly = any(o["do"] == "setl" for o in ops) or (kind == "d" and R == 1)
        for j in range(rng.randint(1, 3)):
            nm, o, _, g = rng.choice(saved)
            if R == 1 and not g and localonly and R2 > 1:
                continue
            # a failed load leaves a hole in the numbering: load refused files last
            o2.append({"do": "load", "o": o, "name": nm, "loc": rng.random() < 0.5 and (g or R == 1), "ref": R > 1 and not g and R2 != R})
        o2.sort(key=lambda x: x["ref"])
        for j, x in enumerate(o2):
            x["k"] = j + 1
            del x["ref"]
        if o2:
            ph.append({"R": R2, "ops": o2, "order": order(rng, R2)})
    return {"R": R, "phases": ph, "seed": i}


def nrows(ops, a):
    for o in ops:
        if o.get("a") == a and o.get("f") == "values":
            if o["do"] == "set":
                return o["x"]["sh"][0]
            return sum(x["sh"][0] for x in o["xs"])
        if o.get("a") == a and o["do"] in ("rsetup", "bsetup"):
            return len(o.get("left") or o["vals"]) + 1
    return 0


def many(rng, i):
    """more processes than one digit counts, one file per process"""
    R = rng.choice([10, 11, 12])
    nm = rng.choice(NAMES)
    ops = build(rng, 1, R, rng.choice([1, 2]), rng.choice([R, R + 5]), local=rng.random() < 0.5)
    g = rng.random() < 0.3
    ops += [{"do": "save", "o": "s", "k": 1, "name": nm, "glob": g, "via": rng.choice(["obj", "util"])},
            {"do": "load", "o": "s", "k": 2, "name": nm, "loc": False}]
    ph = [{"R": R, "ops": ops, "order": order(rng, R)}]
    if not g:
        ph.append({"R": rng.choice([1, 2, R - 1, R + 1]), "ops": [{"do": "load", "o": "s", "k": 1, "name": nm, "loc": False}]})
    return {"R": R, "phases": ph, "seed": i}


def again(rng, i):
    """one file per process, then a single file under the same name: the single file is the object saved last"""
    R = rng.choice([2, 3])
    nm = rng.choice(NAMES)
    ops = build(rng, 1, R, 1, rng.randint(1, 5)) + build(rng, 2, R, rng.choice([1, 2]), rng.randint(1, 5), local=rng.random() < 0.3)
    ops += [{"do": "label", "a": 1, "x": "first"}, {"do": "label", "a": 2, "x": "second"},
            {"do": "save", "o": "s", "k": 1, "name": nm, "glob": False, "via": rng.choice(["obj", "util"])}]
    if rng.random() < 0.5:
        ops.append({"do": "load", "o": "s", "k": 3, "name": nm, "loc": False})
    ops += [{"do": "save", "o": "s", "k": 2, "name": nm, "glob": True, "via": rng.choice(["obj", "util"])},
            {"do": "load", "o": "s", "k": len([o for o in ops if o["do"] == "load"]) + 3, "name": nm, "loc": rng.random() < 0.5}]
    ph = [{"R": R, "ops": ops, "order": order(rng, R)}]
    if rng.random() < 0.5:
        R2 = rng.choice([1, 2, 4])
        ph.append({"R": R2, "ops": [{"do": "load", "o": "s", "k": 1, "name": nm, "loc": rng.random() < 0.5}], "order": order(rng, R2)})
    return {"R": R, "phases": ph, "seed": i}


def scenarios(tier, rng):
    q = tier == "quick"
    return [many(rng, i) for i in range(12 if q else 60)] + [again(rng, i) for i in range(40 if q else 400)] + [scenario(rng, i) for i in range(500 if tier == "quick" else 5000)]


def from_model(edges, tier, rng):
    hs, _ = pick_edges(edges["MC_Set"], 250 if tier == "quick" else 4000, rng)
    out = []
    for i, h in enumerate(hs):
        ops = [o for o in h["ops"] if o["do"] != "num"]
        g = i % 2 == 0
        # saving globally gathers; what is distributed afterwards must be consistent
        out.append({"R": h["R"], "seed": i, "phases": [{"R": h["R"], "order": order(rng, h["R"]), "ops": ops + [
            {"do": "save", "o": "s", "k": 1, "name": "d/m", "glob": g, "via": "obj"},
            {"do": "load", "o": "s", "k": 2, "name": "d/m", "loc": False}]}]})
    return out
