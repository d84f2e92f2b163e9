"""Kind agreement (C09): type tags, layouts, capacities and code of the node kinds are used consistently.

Facts (tag, kind, layout, place) are collected by running the abstract interpreter over the public
operations, the drop of the tree, the constructors and the operations of the common header that pass
on to a kind's own code; what they say must fit together.
"""
from rules import *
from collections import Counter
import time


class Dispatch(Checker):
    """one operation of the common header, run on a node of unknown kind"""

    def __init__(self, p, key, **kw):
        ops = {k for k, o in p.cops.items() if o["nodes"] and o["nodes"][0][2] == p.base_ty}
        super().__init__(p, inline_ops=ops, exclusive=True, **kw)
        self.own = p.cops[key]
        self.bad = {}

    def container(self, st, t, op, args, key):
        own = self.own
        if op["nodes"] and op["nodes"][0][2] in self.p.kinds:
            nid = [r for r in (args[op["nodes"][0][0]],) if r is not None and r[0] == "P" and r[1][0] == "N"]
            site = self.site(st, t[6])
            if op["kind"] != own["kind"]:
                if op["kind"] != "read":
                    self.bad[("dispatch-other", site)] = (t[6], "a node's %s runs its kind's %s" % (own["kind"], op["kind"]))
            else:
                for what in ("u8s", "nps"):
                    for a, b in zip(op[what], own[what]):
                        tm = self.term(args[a], st)
                        others = [("arg", x) for x in own[what] if x != b]
                        if tm is not None and (tm in others or tm[0] == "c"):
                            self.bad[("dispatch-args", site)] = (t[6], "a node's %s hands its kind's code other arguments than it was given" % own["kind"])
                self.count("dispatch", "%s -> %s" % (self.root, self.T[op["nodes"][0][2]]["s"]))
        return super().container(st, t, op, args, key)


class Maker(Checker):
    """a constructor of the tree: makes the root"""

    def exit(self, st, v, span):
        self.count("exit", self.root)
        self.returns.append(1)
        tid = self.p.fns[st.frames[-1].fn]["locals"][0]
        for i, ft in enumerate(self.p.fields(tid)):
            if not self.p.is_node_ptr_ty(ft) or v is None or v[0] != "A":
                continue
            x = v[2][i]
            nid = self.as_nid(x)
            if nid is None:
                continue
            n = st.nodes[nid]
            kt = [k for k in self.p.kinds if self.mentions(ft, k)]
            self.agg["root"].add((self.tag_of(st, nid), self.T[kt[0]]["s"] if kt else None, self.lay(st, n.layout), self.root, span))
            if n.freed:
                self.report("C09", "root-freed", st, span, "the root is given back to the allocator when the map is made")
            for k in kt:
                self.check_init(st, nid, k, span)

    def as_nid(self, x):
        d = 0
        while x is not None and x[0] == "A" and len(x[2]) == 1 and d < 4:
            x = x[2][0]
            d += 1
        if x is not None and x[0] == "P" and x[1][0] == "N":
            return x[1][1]
        return None

    def mentions(self, t, k, d=0):
        if t == k:
            return True
        x = self.T[t]
        if d > 4:
            return False
        return any(self.mentions(a, k, d + 1) for a in [x.get("to")] + list(x.get("args") or []) if isinstance(a, int))


def makers(p):
    from dropcheck import owns_root
    out = []
    for k, f in p.fns.items():
        if f["local"] and "blocks" in f and p.is_local_adt(f["locals"][0]) and owns_root(p, f["locals"][0]) and p.inter.get(k):
            # the one that allocates, not its wrappers
            if not any(c in p.fns and "blocks" in p.fns[c] and p.is_local_adt(p.fns[c]["locals"][0]) and owns_root(p, p.fns[c]["locals"][0]) for c in p.calls.get(k, ())):
                out.append(k)
    return out


def dispatchers(p):
    return sorted(k for k, o in p.cops.items() if o["nodes"] and o["nodes"][0][2] == p.base_ty)


def judge(p, res):
    """res: results of the runs, each with agg; -> violations, evidence"""
    T = p.T
    by_name = {T[k]["s"]: k for k in p.kinds}
    size = {T[k]["s"]: (T[k]["size"], T[k]["align"]) for k in p.kinds}
    tagname = {}
    tk = None
    for t in p.base_tys:
        for ft in p.fields(t):
            if T[ft]["k"] == "adt" and T[ft].get("adt") == "enum" and T[ft].get("local"):
                tk = ft
    if tk is not None:
        for i, v in enumerate(T[tk]["variants"]):
            tagname[i] = v.get("n", str(i))
    use, made, free, viol = [], [], [], []
    for r in res:
        a = r.get("agg", {})
        use += [x for x in a.get("use", ())]
        use += [(t, k, l, "maker", s, sp) for (t, k, l, s, sp) in a.get("root", ())]
        made += list(a.get("made", ()))
        free += list(a.get("free", ()))
    ev = dict(uses=len(use), made=len(made), freed=len(free))

    def nm(t):
        return "tag %s" % tagname.get(t, t)

    def add(rule, site, span, msg):
        viol.append(dict(prop="C09", rule=rule, fn=site.split(" ")[0] if site else "-", span=span or "-", msg=msg, root=site))
    # which kind a tag stands for: what most places say
    votes = {}
    for t, k, l, how, site, sp in set(use):
        if t is not None:
            votes.setdefault(t, Counter())[k] += 1
    std = {}
    for t, c in votes.items():
        best = c.most_common()
        std[t] = best[0][0]
    for t, k, l, how, site, sp in sorted(set(use), key=repr):
        if t is None:
            if how != "root":
                add("kind-unknown", site, sp, "code of %s runs on a node whose kind is not known" % k)
            continue
        tie = votes[t].most_common()
        tied = len(tie) > 1 and tie[0][1] == tie[1][1]
        if k != std[t] or tied:
            add("kind-mismatch", site, sp, "code of %s runs on a node whose %s elsewhere stands for %s" % (k, nm(t), std[t] if k != std[t] else [x[0] for x in tie if x[0] != k]))
        elif std.get(t) == k and len([x for x in std if std[x] == k]) > 1:
            add("tag-shared", site, sp, "%s is used under more than one tag" % k)
    # layouts
    alloc = {}
    for t, l, site, sp in set([(t, l, s, sp) for t, k, l, how, s, sp in use if l is not None]) | set(made):
        if t is None or l is None or l[0] is None or l[0][0] != "c" or l[1] is None or l[1][0] != "c":
            continue
        alloc.setdefault(t, {}).setdefault((l[0][1], l[1][1]), []).append((site, sp))
    for t, ls in alloc.items():
        if t not in std:
            continue
        need = size[std[t]]
        for (s, al), sites in ls.items():
            if s < need[0] or al % need[1]:
                add("layout-too-small", sites[0][0], sites[0][1], "a %s is requested with size %d and alignment %d but has %d and %d" % (std[t], s, al, *need))
    for t, l, site, sp in sorted(set(free), key=repr):
        if l is None or l[0] is None:
            continue
        if t is None:
            if l[0][0] == "c":
                add("free-kind-unknown", site, sp, "a node is returned to the allocator with a fixed size although its kind is not known")
            continue
        if l[0][0] != "c" or l[1][0] != "c" or t not in std:
            continue
        have = (l[0][1], l[1][1])
        want = set(alloc.get(t, {})) or {size[std[t]]}
        if want != {have}:
            add("free-layout", site, sp, "a %s is returned to the allocator with size %d and alignment %d but was requested with %s" % (std[t], have[0], have[1], sorted(want)))
    return viol, ev, std


def run_kind(path, what, key):
    t0 = time.time()
    p = Prog(path)
    e = Dispatch(p, key) if what == "dispatch" else Maker(p)
    r = dict(root=p.fns[key]["path"], error=None, name=what)
    try:
        e.run_root(key)
    except Abort as x:
        r["error"] = str(x)
    viol = [v for v in e.viol.values() if v["prop"] == "C09"]
    if what == "dispatch":
        for (rule, site), (span, msg) in e.bad.items():
            for pr in ("C09", "C10"):
                viol.append(dict(prop=pr, rule=rule, fn=r["root"], span=span, msg=msg, root=r["root"]))
    r.update(viol=viol, ev={k: sorted(map(str, v)) for k, v in e.ev.items()}, agg={k: sorted(v, key=repr) for k, v in e.agg.items()},
             states=e.nstates, steps=e.steps, returns=len(e.returns), wall=round(time.time() - t0, 2))
    return r
