"""Which analyses decide which property, what they must at least have covered, and what they assume."""
from roots import *
import dropcheck
import nodecheck
import kinds
import treerules
import statscheck
import witness
import os
import subprocess
from collections import defaultdict

COMMON = [
    "rustc's type checker, MIR construction and monomorphised call resolution (nightly, mir-opt-level 0) are trusted",
    "the allocator and the caller's closures obey their contracts; library calls that are not modelled change nothing but what is passed to them mutably",
]
ASSUMPTIONS = {}

# public operations that must exist and be analysed (name, on how many map types at least)
OPS = {"get": 2, "insert": 2, "remove": 2, "range": 2, "compute_if_present": 1, "compute_or_insert": 1, "compare_exchange": 1, "is_empty": 1, "stats": 1}
WRITERS = ("insert", "remove", "compute_if_present", "compute_or_insert", "compare_exchange")

ENGINE1 = {"C01": None, "C02": WRITERS, "C03": None, "C04": WRITERS, "C05": None, "C06": None, "C07": ("insert", "compute_or_insert"), "C09": WRITERS,
           "C14": WRITERS, "C15": ("compare_exchange",), "C19": ("is_empty",)}
POINT = {"C17": ("get",) + WRITERS, "C08": ("get",) + WRITERS}
SCAN = ("C13", "C16", "C08")
RULES = {
    "C01": "on every path of every public operation, content read from a node without its lock carries a label until the node's version word is re-read equal to one read before the content; no labelled value (nor a branch decided by one) may reach a result, a caller's closure or the dereference of a link",
    "C02": "every write to a node that is reachable by others happens while its lock bit was set by a compare-and-swap from the very version word the decisions were made under, known to be unlocked and alive",
    "C03": "on every path (returns, restarts, unwinding from the caller's closure) each lock bit set is cleared once, to a version word greater than before, or the node is marked dead for good",
    "C04": "each node unlinked on a path is marked dead under its lock and handed to deferred reclamation exactly once; nothing else that was reachable is freed",
    "C05": "every access to a shared node happens with the caller's guard among the arguments or a pinned guard alive; reclamation is handed to such a guard",
    "C06": "no path on which a node was found locked or changed leads to a return, an error or a panic without starting over, and nothing collected before a restart flows into the result",
    "C07": "after the allocator reported exhaustion the operation returns the error, without panic, without having changed or changing the map, and everything it allocated is given back, also when an attempt is abandoned",
    "C14": "on every path that changes the map exactly one change is made; the value stored is the one supplied or computed, the value reported as old is the one replaced or removed, and no effect is claimed without one",
    "C15": "compare_exchange changes the entry only where the value read equals the expected one, stores the new state, and reports success exactly on such paths",
    "C09": "for every path of the operations, the constructors, the drop and the header's dispatch: the type tag a node has there, the kind whose code runs on it, and the size and alignment it is requested and returned with are collected and must agree everywhere; a kind's initialisation runs before children are added; children are added only where the count is known below the kind's capacity, and a node is replaced by a bigger one, of a larger kind, only where it is known to be full",
    "C10": "each node kind's own code, run abstractly from a node with any number of children in any position (difference-bound zones, array segments, ranks of the key bytes): what an insertion, replacement or removal leaves is the old content with exactly that child added, changed or gone and the count in step; a lookup finds exactly the stored child; an enumeration hands out every child in range once, in order; growing hands every child over",
    "C18": "the same analysis, for the unlocked readers under arbitrary interference: every read of the count, a key byte or an index table entry may give any value a writer stores, anew at each read; no access may leave its array and no check may fail; and no locked operation writes outside",
    "C17": "every lookup, insertion and removal is walked over a symbolic tree (each node a path of key bytes of any length that agrees with or parts from the key at any byte): a key is looked up, and an entry linked, at the node whose path is the key's own bytes before it, under the key's byte there; a new node gets the key's own bytes as its path and is linked where that path leads; a split keeps the node and its path; a miss is claimed only where path or lookup parted from the key; a changed place is the one looked at",
    "C08": "every public operation is walked over a symbolic tree with its key as eight unknown bytes, most significant first: each byte a node is asked for or a path is compared with must be the key's own byte at that depth, in that order, in every operation; the bounds of a range are taken apart the same way and keys handed out by scans are put together again from their bytes in that order",
    "C13": "both scans are walked over a symbolic tree in which every path agrees with, or parts from, either bound at any byte, recursion by summaries: every store into the caller's slice is at the number of results so far, which is known below its length; the key stored is the path the value was found at and is known not below the lower and below the upper bound; the number returned is the number stored; no panic can be reached; results handed out as numbers have all been translated back",
    "C16": "the same walk keeps, for every node reached, which of its children have not been dealt with: when the scan returns normally, each is known to hold no key in range, or the slice is known to be full; nodes and children are taken in ascending order, once; a scan that starts over starts empty",
    "C19": "the emptiness test is walked over a symbolic tree, recursion by summaries: it answers yes only on paths on which every child of every node reached was enumerated and none was an entry, and no only where an entry was seen in the same attempt; the nodes read are confirmed unchanged before the answer",
    "C20": "the traversals behind `stats` are walked for the root and any node below it, every child of every node: what is added to the visitor per node (by the type tag it has there) and per entry is collected; each kind has a category of its own, adds one node and its number of children to the counters of its own level, each entry adds one, all traversals start from nothing; every number printed, as a sum over the counters, adds each kind's own size or relates to its own capacity",
    "C11": "pairs of generic programs, one bound apart, are type-checked against the library: the one with all bounds has to be accepted, the one without the bound rejected for the lack of it",
    "C12": "every child handed out by the enumeration of a node's whole byte range is passed on exactly once: entries to the drain callback with their own key and value, sub-trees to the same traversal; nodes are freed once, after their children",
}
for k in RULES:
    ASSUMPTIONS[k] = []


def drop_run(path, key):
    t = time.time()
    p = Prog(path)
    e = dropcheck.DropChecker(p)
    r = dict(root=p.fns[key]["path"], error=None)
    try:
        e.run_root(key)
    except Exception as x:
        r["error"] = "%s: %s" % (type(x).__name__, x)
    r.update(viol=list(e.viol.values()), ev={k: sorted(map(str, v)) for k, v in e.ev.items()}, states=e.nstates, steps=e.steps, agg={k: sorted(v, key=repr) for k, v in e.agg.items()},
             returns=len(e.returns), wall=round(time.time() - t, 2), name="drop")
    return r


MEMORY = ("out-of-bounds",)


def node_run(path, name, kind, torn, prop):
    t = time.time()
    p = Prog(path)
    out = dict(viol=[], ev=defaultdict(set), error=None, states=0, name="node", node=(name, kind, torn))
    und = []
    try:
        rs = nodecheck.one(p, name, kind, torn)
    except nodecheck.Give as x:
        rs = []
        und.append(str(x))
    for r in rs:
        fn = p.fns[r["key"]]["path"]
        for rule, msg, span, tr in r["viol"]:
            if prop == "C18" and not torn and rule not in MEMORY:
                continue
            out["viol"].append(dict(prop=prop, rule=rule, fn=fn, span=span or p.fns[r["key"]].get("span", "-"), msg=msg, root=r["label"] + (" under interference" if torn else ""), trace=[str(x) for x in tr]))
        if not r["viol"]:
            und += r["undecided"]
        out["states"] += r["states"]
        for k, v in r["ev"].items():
            out["ev"][k] |= v
        out["ev"]["function"] |= r["fns"]
        out["ev"]["node-operation"].add("%s%s" % (r["label"], " torn" if torn else ""))
    if und and not out["viol"]:
        out["error"] = "; ".join(und[:3])
    out["ev"] = {k: sorted(v) for k, v in out["ev"].items()}
    return out


def overflow_dump(repo, work):
    """the same library with arithmetic checks in its MIR"""
    out = os.path.join(work, "mirov.json")
    v = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
    subprocess.run([os.path.join(v, "tools/dump.sh"), out, "-Coverflow-checks=on"], stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, check=True)
    return out


def run_named(path, key, name, op=None):
    r = run(path, key, op or name)
    r["name"] = name
    return r


def plan(prop, path, repo, work):
    p = Prog(path)
    out = []
    if prop in ENGINE1:
        names = ENGINE1[prop]
        for key, name, f in roots(p):
            if names is None or name in names or name not in SHAPES:
                out.append((f["path"], run_named, (path, key, name)))
    if prop == "C11":
        out.append(("type-level witnesses", witness.run_pairs, (repo, work)))
    if prop in POINT:
        for key, name, f in roots(p):
            if name in POINT[prop]:
                out.append((f["path"], treerules.point, (path, key, name)))
    if prop in SCAN:
        for key, name, f in roots(p):
            if name == "range":
                out.append((f["path"], treerules.scan, (path, key, name, prop)))
    if prop == "C19":
        for key, name, f in roots(p):
            if name == "is_empty":
                out.append((f["path"] + " (answers)", treerules.empty, (path, key, "answers")))
    if prop == "C20":
        for key, name, f in roots(p):
            if name == "stats":
                out.append((f["path"] + " (counted)", statscheck.stats, (path, key, "counted")))
                out.append((f["path"] + " (printed)", statscheck.printed, (path, key, "printed")))
    if prop == "C17":
        for key, name, f in roots(p):
            if name in WRITERS:
                out.append((f["path"] + " (effects)", run_named, (path, key, name + " (effects)", name)))
    if prop in ("C12", "C09"):
        for k in dropcheck.drop_roots(p):
            out.append((p.fns[k]["path"], drop_run, (path, k)))
    if prop in ("C09", "C10"):
        for k in kinds.dispatchers(p):
            out.append((p.fns[k]["path"], kinds.run_kind, (path, "dispatch", k)))
    if prop == "C09":
        for k in kinds.makers(p):
            out.append((p.fns[k]["path"], kinds.run_kind, (path, "maker", k)))
    if prop in ("C10", "C18"):
        ov = overflow_dump(repo, work)
        for n, o, torn in nodecheck.jobs(Prog(ov)):
            if prop == "C18" or not torn:
                out.append(("%s %s%s" % (n, o, " torn" if torn else ""), node_run, (ov, n, o, torn, prop)))
    # the slow ones first
    out.sort(key=lambda x: 0 if any(s in x[0] for s in ("range", "insert")) else 1)
    return out


def post(prop, res, path):
    """what can only be judged once all analyses are done"""
    if prop != "C09":
        return []
    viol, ev, std = kinds.judge(Prog(path), res)
    res.append(dict(label="agreement of the kinds", name="agreement", viol=viol, ev={"fact": ["%s %d" % x for x in ev.items()]}, std=std))
    return viol


def miss(prop, rule, what):
    return dict(prop=prop, rule=rule, fn=what, span="-", msg="%s: the analysis lost what it is anchored to" % what)


def floors(prop, res, late):
    out = []
    bad = {r["label"] for r in res if r.get("error")} | set(late)

    def total(k, rs=res):
        return len({x for r in rs for x in r.get("ev", {}).get(k, [])})
    if prop in ENGINE1:
        names = ENGINE1[prop] or tuple(OPS)
        for n in names:
            rs = [r for r in res if r.get("name") == n]
            if len(rs) + len([x for x in late if x.endswith("::" + n)]) < OPS[n]:
                out.append(miss(prop, "anchor-missing", "public operation %s" % n))
            for r in rs:
                if r["label"] in bad:
                    continue
                if not r["ev"].get("deref") or not r["ev"].get("version-load") or not r["returns"]:
                    out.append(miss(prop, "anchor-missing", "node accesses of %s" % r["label"]))
        if not bad:
            need = {"C01": ("validation", "container-lookup", "container-next"), "C02": ("lock-acquire", "node-write"), "C03": ("lock-acquire", "lock-release"),
                    "C09": ("alloc", "free", "grow", "dispatch"),
                    "C04": ("defer", "free"), "C05": ("pinned",), "C06": ("restart",), "C07": ("alloc", "free"),
                    "C14": ("effect-ins", "effect-rep", "effect-del", "result-vs-effect"), "C15": ("effect-rep", "effect-del", "result-vs-effect"), "C19": ("validation", "container-next")}[prop]
            for k in need:
                if not total(k):
                    out.append(miss(prop, "anchor-missing", "no %s seen" % k))
    if prop == "C09" and not bad:
        for what, n in (("dispatch", 4), ("maker", 1), ("drop", 1)):
            if len([r for r in res if r.get("name") == what]) < n:
                out.append(miss(prop, "anchor-missing", "%s analyses (fewer than %d)" % (what, n)))
        std = [r["std"] for r in res if "std" in r]
        if not std or len(std[0]) < 4:
            out.append(miss(prop, "anchor-missing", "node kinds in use (fewer than 4)"))
    if prop in ("C10", "C18"):
        knds = {r["node"][0] for r in res if "node" in r} | {x.split(" ")[0] for x in late}
        if len(knds) < 4:
            out.append(miss(prop, "anchor-missing", "node kinds (%d of 4)" % len(knds)))
        for n in knds:
            for r in res:
                if r.get("node", ("",))[0] == n and r["label"] not in bad and not r["ev"].get("node-operation"):
                    out.append(miss(prop, "anchor-missing", r["label"]))
        if prop == "C18":
            for n in knds:
                if len([r for r in res if r.get("node", ("",))[0] == n and r["node"][2]]) + len([x for x in late if x.startswith(n) and x.endswith("torn")]) < 2:
                    out.append(miss(prop, "anchor-missing", "readers of %s" % n))
    if prop == "C11" and not bad and total("witness-accepted") < len(witness.PAIRS) and not any(r["viol"] for r in res):
        out.append(miss(prop, "anchor-missing", "type-level witnesses (%d of %d answered)" % (total("witness-accepted"), len(witness.PAIRS))))
    if prop in POINT:
        for n in POINT[prop]:
            rs = [r for r in res if r.get("name") == n]
            if len(rs) + len([x for x in late if x.endswith("::" + n)]) < OPS[n]:
                out.append(miss(prop, "anchor-missing", "public operation %s" % n))
            for r in rs:
                if r["label"] in bad:
                    continue
                need = ["lookup", "container-lookup", "result-path"]
                if prop == "C17":
                    need += {"insert": ["link", "new-node", "container-insert", "copy"], "compute_or_insert": ["link", "new-node", "container-insert", "copy"], "remove": ["unlink"], "get": []}.get(n, ["link", "unlink"])
                for k in need:
                    if not r["ev"].get(k):
                        out.append(miss(prop, "anchor-missing", "no %s seen in %s" % (k, r["label"])))
    if prop == "C19":
        for r in res:
            if r.get("name") == "answers" and r["label"] not in bad and not r["viol"]:
                for k in ("answer-true", "answer-false", "entry-seen", "child-seen"):
                    if not r["ev"].get(k):
                        out.append(miss(prop, "anchor-missing", "no %s seen in %s" % (k, r["label"])))
        if not any(r.get("name") == "answers" for r in res) and not any(x.endswith("(answers)") for x in late):
            out.append(miss(prop, "anchor-missing", "the emptiness test"))
    if prop == "C20":
        for r in res:
            if r["label"] not in bad and not r["viol"]:
                for k in {"counted": ("traversal", "counted", "enumeration", "handed-on", "category", "entry-amount"), "printed": ("printed", "total", "load-factor")}[r["name"]]:
                    if not r["ev"].get(k):
                        out.append(miss(prop, "anchor-missing", "no %s seen in %s" % (k, r["label"])))
        if len({r.get("name") for r in res} | set(late)) < 2:
            out.append(miss(prop, "anchor-missing", "public operation stats"))
    if prop in SCAN:
        rs = [r for r in res if r.get("name") == "range"]
        if len(rs) + len([x for x in late if x.endswith("::range")]) < OPS["range"]:
            out.append(miss(prop, "anchor-missing", "public operation range"))
        for r in rs:
            if r["label"] in bad or any(v["prop"] == prop for v in r["viol"]):
                continue
            for k in ("result-stored", "container-iter", "visit", "count-returned") + (("passed-over",) if prop == "C16" else ()):
                if not r["ev"].get(k):
                    out.append(miss(prop, "anchor-missing", "no %s seen in %s" % (k, r["label"])))
    if prop == "C12":
        if not res and not late:
            out.append(miss(prop, "anchor-missing", "drop of the tree"))
        if not bad:
            for k in ("drain", "free-in-drop", "enumeration", "child-obligation", "obligation-checked"):
                if not total(k):
                    out.append(miss(prop, "anchor-missing", "no %s seen in drop" % k))
    return out


def coverage(prop, res):
    ev = {}
    for r in res:
        for k, v in r.get("ev", {}).items():
            ev.setdefault(k, set()).update(v)
    c = dict(explanation=RULES.get(prop, ""), analysed=sorted(r["label"] for r in res))
    c["sites"] = {k: len(v) for k, v in sorted(ev.items())}
    if any("states" in r for r in res):
        c["abstract_states"] = sum(r.get("states", 0) for r in res)
        c["paths_to_return"] = sum(r.get("returns", 0) for r in res)
        c["steps"] = sum(r.get("steps", 0) for r in res)
    c["samples"] = ["%s: %s" % (k, x) for k, v in sorted(ev.items()) for x in sorted(v)[:4]]
    c["summary"] = "%d analyses, %d abstract states, %d kinds of sites" % (len(res), c.get("abstract_states", 0), len(ev))
    return c
