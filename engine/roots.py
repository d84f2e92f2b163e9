"""The public operations, what each must report, and how each is analysed."""
import sys, os, time, traceback, multiprocessing
from rules import *

# what the result of an operation says about its effect (see Checker.judge); argument 0 is the map
SHAPES = {
    "get": (False, None),
    "range": (False, None),
    "is_empty": (False, None),
    "stats": (False, None),
    "insert": (True, dict(oom=True, kind="old", always=True, value=("arg", 2))),
    "remove": (True, dict(kind="old")),
    "compute_if_present": (True, dict(kind="pair")),
    "compute_or_insert": (True, dict(oom=True, kind="old", always=True, value=None)),
    "compare_exchange": (True, dict(kind="cas", expected=("arg", 2), new=("arg", 3))),
}


def roots(p):
    """exported methods of the map types that get at nodes, closed over every name they may be dumped under"""
    out = []
    seen = set()
    for l in p.local:
        if l["vis"] == "exported" and l["inputs"] and l["key"] in p.fns and "blocks" in p.fns[l["key"]]:
            f = p.fns[l["key"]]
            if not p.inter.get(l["key"]) or l["key"] in seen:
                continue
            seen.add(l["key"])
            recv = f["locals"][1]
            pt = p.pointee(recv)
            if pt is None or not p.is_local_adt(pt):
                continue
            out.append((l["key"], l["name"], f))
    return out


def config(p, key, name, f):
    mut, shape = SHAPES.get(name, (True, None))
    lite = False
    if not mut:
        for i in range(1, f["argc"] + 1):
            pt = p.pointee(f["locals"][i])
            if pt is not None and p.T[pt]["k"] == "slice":
                lite = True
    return mut, shape, lite


def run(path, key, name, max_states=400000):
    t = time.time()
    p = Prog(path)
    f = p.fns[key]
    mut, shape, lite = config(p, key, name, f)
    e = Checker(p, max_states=max_states)
    e.mutating, e.ret_shape, e.lite = mut, shape, lite
    e.hold_pays = bool(shape and shape["kind"] == "cas")
    r = dict(root=f["path"], error=None)
    try:
        e.run_root(key)
    except Abort as x:
        r["error"] = str(x)
    except Missing as x:
        r["error"] = "missing: %s" % x
        r["missing"] = True
    except Exception as x:
        r["error"] = "internal: %s" % traceback.format_exc(limit=4)
    r.update(viol=list(e.viol.values()), ev={k: sorted(map(str, v)) for k, v in e.ev.items()}, agg={k: sorted(v, key=repr) for k, v in e.agg.items()},
             states=e.nstates, steps=e.steps, returns=len(e.returns), wall=round(time.time() - t, 2), lite=lite)
    return r
