"""Loads the MIR dump and finds the roles the rules talk about (node types, lock
word, child words, container operations) from types and effects, not from names."""
import json
from collections import defaultdict

ATOMIC = "core::sync::atomic::Atomic"
FMT = ("core::fmt",)


class Missing(Exception):
    """an anchor the rules need was not found: the check must fail, not pass"""


class Prog:
    def __init__(self, path):
        d = json.load(open(path))
        self.T = d["types"]
        self.fns = d["fns"]
        self.local = d["local"]
        self.impls = d["impls"]
        self.crate = d["crate"]
        self._roles()
        self._summaries()
        self._cfg_cache = {}
        self._arrlen = {}

    # ---- types -----------------------------------------------------------
    def ts(self, t):
        return self.T[t]["s"]

    def is_local_adt(self, t):
        x = self.T[t]
        return x["k"] == "adt" and x.get("local")

    def fields(self, t, variant=0):
        x = self.T[t]
        if x["k"] == "adt":
            vs = x.get("variants") or []
            if variant < len(vs):
                return [f["t"] for f in vs[variant]["f"]]
            return []
        if x["k"] in ("tuple", "closure"):
            return x.get("f", [])
        return []

    def pointee(self, t):
        x = self.T[t]
        if x["k"] in ("ref", "ptr"):
            return x["to"]
        if x["k"] == "adt" and x["path"].endswith("non_null::NonNull"):
            return x["args"][0]
        return None

    def _roles(self):
        T = self.T
        self.base = None          # type id -> struct with the lock word
        bases = []
        for i, x in enumerate(T):
            if x["k"] == "adt" and x.get("local") and x["adt"] == "struct":
                for j, f in enumerate(x["variants"][0]["f"]):
                    if T[f["t"]]["s"].startswith(ATOMIC):
                        bases.append((i, j))
        if len(bases) != 1:
            raise Missing("expected one local struct holding an atomic lock word, found %d" % len(bases))
        self.base_ty, self.lock_idx = bases[0]
        self.base_path = T[self.base_ty]["path"]
        # child word: a local union
        unions = [i for i, x in enumerate(T) if x["k"] == "adt" and x.get("local") and x["adt"] == "union"]
        if len(unions) != 1:
            raise Missing("expected one local union (child word), found %d" % len(unions))
        self.np_ty = unions[0]
        # node kinds: local structs whose first field (offset 0) is the base and with an array of child words
        self.kinds = {}
        for i, x in enumerate(T):
            if x["k"] == "adt" and x.get("local") and x["adt"] == "struct":
                fs = x["variants"][0]["f"]
                b = [j for j, f in enumerate(fs) if f["t"] == self.base_ty]
                c = [j for j, f in enumerate(fs) if T[f["t"]]["k"] == "array" and T[f["t"]]["to"] == self.np_ty]
                if b and c:
                    if len(c) != 1 or x["offsets"][b[0]] != 0:
                        raise Missing("node kind %s: base not at offset 0 or several child arrays" % x["s"])
                    self.kinds[i] = dict(base=b[0], children=c[0], cap=T[fs[c[0]]["t"]]["len"], name=x["s"],
                                         size=x["size"], align=x["align"])
        if len(self.kinds) < 2:
            raise Missing("node kinds not found")
        self.kind_paths = {T[i]["path"]: i for i in self.kinds}
        # structs nested inside base (meta)
        self.meta_tys = set()

        def walk(t):
            for f in self.fields(t):
                if T[f]["k"] == "adt" and T[f].get("local") and T[f]["adt"] == "struct" and f not in self.meta_tys:
                    self.meta_tys.add(f)
                    walk(f)
        walk(self.base_ty)
        self.base_tys = {self.base_ty} | self.meta_tys
        # iterators: local ADTs implementing Iterator that contain (refs to) a kind or another such
        iterimpl = {im["self"].split("<")[0] for im in self.impls if im["trait"].endswith("iterator::Iterator")}
        self.iter_tys = set()
        for i, x in enumerate(T):
            if x["k"] == "adt" and x.get("local") and x["path"] in iterimpl:
                self.iter_tys.add(i)

    def is_node_ty(self, t):
        return t == self.base_ty or t in self.kinds

    def is_node_ptr_ty(self, t):
        p = self.pointee(t)
        return p is not None and self.is_node_ty(p)

    # ---- function summaries ------------------------------------------------
    def callee(self, op):
        if op[0] == "const":
            return op[1]["const"].get("fn")
        return None

    def array_len(self, key, local):
        """length of the array that this local, a slice reference, always stands for"""
        c = self._arrlen.get(key)
        if c is None:
            defs = {}
            for b in self.fns[key]["blocks"]:
                for s in b["s"]:
                    if s[0] == "=" and not s[1][1]:
                        defs.setdefault(s[1][0], []).append(s[2])
                t = b["t"]
                if t[0] == "call" and not t[3][1]:
                    defs.setdefault(t[3][0], []).append(None)
            c = self._arrlen[key] = {}
            def go(l, d):
                if d > 6:
                    return None
                out = set()
                for r in defs.get(l, [None]):
                    n = None
                    if r is not None and r[0] == "cast" and "Unsize" in r[1] and r[2][0] in ("copy", "move"):
                        pt = self.pointee(r[2][1][2])
                        if pt is not None and self.T[pt]["k"] == "array":
                            n = self.T[pt].get("len")
                    elif r is not None and r[0] == "use" and r[1][0] in ("copy", "move") and not r[1][1][1]:
                        n = go(r[1][1][0], d + 1)
                    elif r is not None and r[0] == "ref" and r[2][1] == [["deref"]]:
                        n = go(r[2][0], d + 1)
                    out.add(n)
                return out.pop() if len(out) == 1 else None
            for l in defs:
                n = go(l, 0)
                if n is not None:
                    c[l] = n
        return c.get(local)

    def _places(self, f):
        """yields (kind, place) with kind in r,w,b (borrow shared), m (borrow mut)"""
        def ops(o):
            if o[0] in ("copy", "move"):
                yield ("r", o[1])

        for b in f["blocks"]:
            for s in b["s"]:
                if s[0] == "=":
                    yield ("w", s[1])
                    r = s[2]
                    if r[0] == "use":
                        yield from ops(r[1])
                    elif r[0] == "repeat":
                        yield from ops(r[1])
                    elif r[0] == "ref":
                        yield ("m" if r[1] else "b", r[2])
                    elif r[0] == "cast":
                        yield from ops(r[2])
                    elif r[0] == "bin":
                        yield from ops(r[2]); yield from ops(r[3])
                    elif r[0] == "un":
                        yield from ops(r[2])
                    elif r[0] == "discr":
                        yield ("r", r[1])
                    elif r[0] == "agg":
                        for o in r[2]:
                            yield from ops(o)
            t = b["t"]
            if t[0] == "call":
                for o in t[2]:
                    yield from ops(o)
                yield from ops(t[1])
                yield ("w", t[3])
            elif t[0] == "switch":
                yield from ops(t[1])
            elif t[0] == "assert":
                yield from ops(t[1])

    def place_tys(self, f, pl):
        """type ids of every prefix of a place: list of (elem, container type)"""
        cur = f["locals"][pl[0]]
        out = []
        for e in pl[1]:
            out.append((e, cur))
            if e[0] == "deref":
                cur = self.pointee(cur)
            elif e[0] == "f":
                cur = e[2]
            elif e[0] in ("i", "ci"):
                cur = self.T[cur]["to"] if cur is not None else None
            if cur is None:
                break
        return out

    def _summaries(self):
        T = self.T
        eff0 = {}
        self.calls = {}
        self.field_reads = {}
        self.field_writes = {}
        self.field_wsites = defaultdict(set)
        self.count_delta = {}
        for k, f in self.fns.items():
            if "blocks" not in f:
                continue
            cs = set()
            e = False
            for b in f["blocks"]:
                t = b["t"]
                if t[0] == "call":
                    c = self.callee(t[1])
                    if c is None:
                        e = True
                        continue
                    if "key" in c:
                        cs.add(c["key"])
                    p = c["path"]
                    if p.startswith(ATOMIC) or p.startswith("crossbeam_epoch") or c.get("virtual"):
                        e = True
                    if c.get("unresolved") and ("ops::function::Fn" in p):
                        e = True
                    if self.alloc_call(c, len(t[2])):
                        e = True
                    if p in ("core::mem::forget",):
                        e = True
                elif t[0] == "drop":
                    for dk in self.drop_keys(t[1][2]):
                        cs.add(dk)
                        e = True
                # closures created here may be called by external code
                for s in b["s"]:
                    if s[0] == "=" and s[2][0] == "agg" and s[2][1][0] == "closure":
                        ck = T[s[1][2]].get("call")
                        if ck:
                            cs.add(ck)
            fr, fw = set(), set()
            for kind, pl in self._places(f):
                tys = self.place_tys(f, pl)
                fl = None
                for (el, ct) in tys:
                    if el[0] == "f" and (ct in self.base_tys or ct in self.kinds):
                        nxt = el[2]
                        if nxt in self.base_tys:
                            continue
                        fl = (T[ct]["path"], el[1])
                if fl:
                    if kind in ("w", "m"):
                        # moving out of / writing to a stack copy of a node does not touch shared memory
                        if any(el[0] == "deref" for el, _ in tys):
                            fw.add(fl)
                            if f["local"]:
                                self.field_wsites[fl].add(k)
                    else:
                        fr.add(fl)
            self.field_reads[k] = fr
            self.field_writes[k] = fw
            eff0[k] = e
            self.calls[k] = cs
        # closure over calls
        self.eff = self._close_bool(eff0)
        self.reads_t = self._close_set(self.field_reads)
        self.writes_t = self._close_set(self.field_writes)
        # immutable base fields
        self.mut_fields = set()
        for fl in self.field_wsites:
            self.mut_fields.add(fl)
        self.lock_field = (self.base_path, self.lock_idx)
        # count field: an integer base/meta field stepped by one through a pointer
        delta = defaultdict(set)
        for k, f in self.fns.items():
            if "blocks" not in f or not f["local"]:
                continue
            defs = {}
            for b in f["blocks"]:
                for s in b["s"]:
                    if s[0] != "=":
                        continue
                    if s[2][0] == "bin" and s[2][1] in ("Add", "Sub", "AddUnchecked", "SubUnchecked", "AddWithOverflow", "SubWithOverflow") and not s[1][1]:
                        defs[s[1][0]] = s[2]
                    r = s[2]
                    if r[0] == "use" and r[1][0] in ("move", "copy") and r[1][1][0] in defs:
                        r = defs[r[1][1][0]]
                    if r[0] == "bin" and (r[1].startswith("Add") or r[1].startswith("Sub")) and s[1][1] and s[1][1][-1][0] == "f":
                        tys = self.place_tys(f, s[1])
                        el, ct = tys[-1]
                        if ct in self.base_tys and r[3][0] == "const" and r[3][1]["const"].get("v") == 1:
                            delta[(T[ct]["path"], el[1])].add((k, 1 if r[1].startswith("Add") else -1))
        if len(delta) != 1:
            raise Missing("expected one child counter stepped by one, found %r" % (list(delta),))
        self.count_field = list(delta)[0]
        d0 = defaultdict(set)
        for (k, s) in delta[self.count_field]:
            d0[k].add(s)
        self.delta_t = self._close_set({k: d0.get(k, set()) for k in self.calls})
        # effects of node-field access make a core function worth inlining too
        self._containers()
        inter0 = {k: (self.eff.get(k, False) or k in self.cops) for k in self.calls}
        self.inter = self._close_bool(inter0)

    def recursive(self):
        """local functions that may call themselves, directly or through others"""
        if not hasattr(self, "_recset"):
            g = {}
            for k, f in self.fns.items():
                if f.get("local") and "blocks" in f:
                    out = set()
                    for b in f["blocks"]:
                        t = b["t"]
                        if t[0] == "call":
                            c = self.callee(t[1])
                            if c and c.get("key") in self.fns and self.fns[c["key"]].get("local"):
                                out.add(c["key"])
                    g[k] = out
            self._recset = set()
            for k in g:
                seen, todo = set(), list(g[k])
                while todo:
                    x = todo.pop()
                    if x not in seen:
                        seen.add(x)
                        todo += g.get(x, ())
                if k in seen:
                    self._recset.add(k)
            # of every cycle one function is enough: the rest is followed into from there
            left, heads = set(self._recset), set()
            outer = {y for k in g if k not in self._recset for y in g[k]}
            while True:
                cyc = []
                for k in left:
                    seen, todo = set(), [x for x in g[k] if x in left]
                    while todo:
                        x = todo.pop()
                        if x not in seen:
                            seen.add(x)
                            todo += [y for y in g.get(x, ()) if y in left]
                    if k in seen:
                        cyc.append(k)
                if not cyc:
                    break
                own = [k for k in cyc if k in g[k]]
                pick = own or [min(cyc, key=lambda k: (k not in outer, k))]
                heads |= set(pick)
                left -= set(pick)
            self._recset = heads
        return self._recset

    def mods(self):
        """fields of local structs that a function (or what it calls) may assign through a reference"""
        if hasattr(self, "_mods"):
            return self._mods
        m0 = {}
        for k, f in self.fns.items():
            if "blocks" not in f:
                continue
            m = set()
            for kind, pl in self._places(f):
                if kind not in ("w", "m"):
                    continue
                tys = self.place_tys(f, pl)
                last = max([i for i, (el, _) in enumerate(tys) if el[0] == "deref"] + [-1])
                if last < 0:
                    continue
                tail = tys[last + 1:]
                if tail:
                    el, ct = tail[0]
                    if el[0] == "f" and self.is_local_adt(ct):
                        m.add((self.T[ct]["path"], el[1]))
                elif kind == "w":
                    el, ct = tys[last]
                    to = self.pointee(ct)
                    if to is not None and self.is_local_adt(to):
                        m.add((self.T[to]["path"], None))
            for b in f["blocks"]:
                t = b["t"]
                if t[0] == "call":
                    c = self.callee(t[1])
                    if c is not None and c.get("key") in self.fns and "blocks" in self.fns[c["key"]]:
                        continue
                    for o in t[2]:
                        if o[0] in ("copy", "move"):
                            ty = o[1][2] if len(o[1]) > 2 else None
                            if ty is None:
                                tys = self.place_tys(f, o[1])
                                ty = f["locals"][o[1][0]] if not tys else None
                            if ty is not None and self.T[ty]["k"] in ("ref", "ptr") and self.T[ty].get("mut"):
                                to = self.T[ty]["to"]
                                if self.is_local_adt(to):
                                    m.add((self.T[to]["path"], None))
            m0[k] = m
        self._mods = self._close_set({k: m0.get(k, set()) for k in self.calls})
        return self._mods

    def _close_bool(self, d0):
        d = dict(d0)
        ch = True
        while ch:
            ch = False
            for k, cs in self.calls.items():
                if not d[k] and any(d.get(c) for c in cs):
                    d[k] = True
                    ch = True
        return d

    def _close_set(self, d0):
        d = {k: set(v) for k, v in d0.items()}
        ch = True
        while ch:
            ch = False
            for k, cs in self.calls.items():
                n = len(d[k])
                for c in cs:
                    if c in d:
                        d[k] |= d[c]
                if len(d[k]) != n:
                    ch = True
        return d

    def alloc_call(self, c, nargs):
        """'alloc' / 'zalloc' / 'free' if c calls the crate's allocator trait"""
        if not c.get("trait") or c.get("crate") != self.crate:
            return None
        name = c["path"].rsplit("::", 1)[-1]
        if not c["path"].startswith("Allocator::") and "::Allocator::" not in c["path"]:
            return None
        if nargs == 2:
            return "zalloc" if "zero" in name else "alloc"
        if nargs == 3:
            return "free"
        return None

    def drop_keys(self, t, seen=None):
        seen = seen if seen is not None else set()
        if t in seen:
            return []
        seen.add(t)
        x = self.T[t]
        out = []
        if not x.get("needs_drop"):
            return out
        if x["k"] == "adt":
            if x.get("path") == "crossbeam_epoch::guard::Guard":
                return ["#unpin"]
            if "drop" in x:
                out.append(x["drop"])
            if not x.get("local") and not (x["path"].startswith("core::option") or x["path"].startswith("core::result") or x["path"].startswith("core::ops")):
                return out
            for v in x.get("variants", []):
                for f in v["f"]:
                    out += self.drop_keys(f["t"], seen)
        elif x["k"] in ("tuple", "closure"):
            for f in x.get("f", []):
                out += self.drop_keys(f, seen)
        elif x["k"] == "array":
            out += self.drop_keys(x["to"], seen)
        return out

    # ---- container operations ------------------------------------------------
    def _containers(self):
        T = self.T
        self.cops = {}
        child_fields = set()
        for i, kd in self.kinds.items():
            child_fields.add((T[i]["path"], kd["children"]))
        self.child_fields = child_fields
        kind_fields = set()
        for i in self.kinds:
            for j, f in enumerate(T[i]["variants"][0]["f"]):
                if f["t"] != self.base_ty:
                    kind_fields.add((T[i]["path"], j))
        self.kind_fields = kind_fields
        for k, f in self.fns.items():
            if not f["local"] or "blocks" not in f or self.eff.get(k):
                continue
            if "drop::Drop" in k or "fmt::" in k:
                continue
            nodes, u8s, nps, ok, iters = [], [], [], True, []
            for i in range(1, f["argc"] + 1):
                t = f["locals"][i]
                x = T[t]
                if x["k"] == "ref" and (self.is_node_ty(x["to"]) or T[x["to"]]["k"] == "param"):
                    nodes.append((i - 1, x["mut"], x["to"]))
                elif x["k"] == "ref" and x["to"] in self.iter_tys:
                    iters.append(i - 1)
                elif x["k"] == "uint" and x.get("size") == 1:
                    u8s.append(i - 1)
                elif t == self.np_ty:
                    nps.append(i - 1)
                else:
                    ok = False
            if not ok or not (nodes or iters) or f["path"].find("{closure") >= 0:
                continue
            rt = f["locals"][0]
            touched = self.reads_t[k] | self.writes_t[k]
            ret_iter = rt in self.iter_tys
            if not (touched & kind_fields) and not ret_iter:
                continue
            if self.T[rt]["k"] in ("ref", "ptr"):
                continue
            w = self.writes_t[k]
            dl = self.delta_t[k]
            op = dict(nodes=nodes, u8s=u8s, nps=nps, iters=iters, ret=rt)
            if iters:
                op["kind"] = "next"
            elif ret_iter:
                op["kind"] = "iter"
            elif any(m for _, m, _ in nodes):
                if len(nodes) == 2:
                    op["kind"] = "copy"
                elif nps and rt == self.np_ty:
                    op["kind"] = "change"
                elif nps and (1 in dl or -1 not in dl and T[rt]["k"] == "tuple" and k.rsplit("::", 1)[-1] == "insert"):
                    op["kind"] = "insert"
                elif nps:
                    op["kind"] = "change"
                elif u8s:
                    op["kind"] = "remove"
                elif 1 not in dl:
                    op["kind"] = "init"
                else:
                    op["kind"] = "rawwrite"
            elif T[rt]["s"].startswith("core::option::Option<") and self.np_ty in [T[f2]["s"] and f2 for f2 in (T[rt].get("args") or [])] and len(u8s) == 1:
                op["kind"] = "lookup"
            else:
                op["kind"] = "read"
            self.cops[k] = op

    # ---- per function CFG facts ------------------------------------------------
    def cfg(self, k):
        if k in self._cfg_cache:
            return self._cfg_cache[k]
        f = self.fns[k]
        bl = f["blocks"]
        n = len(bl)
        succ = []
        for b in bl:
            t = b["t"]
            s = []
            if t[0] == "goto":
                s = [t[1]]
            elif t[0] == "switch":
                s = [x[1] for x in t[2]] + [t[3]]
            elif t[0] == "drop":
                s = [t[2]] + ([t[3]] if isinstance(t[3], int) else [])
            elif t[0] == "call":
                s = ([t[4]] if t[4] is not None else []) + ([t[5]] if isinstance(t[5], int) else [])
            elif t[0] == "assert":
                s = [t[4]] + ([t[5]] if isinstance(t[5], int) else [])
            succ.append(s)
        pred = [0] * n
        for s in succ:
            for x in s:
                pred[x] += 1
        # loop heads: targets of back edges in DFS
        heads = set()
        state = [0] * n
        stack = [(0, iter(succ[0]))]
        state[0] = 1
        while stack:
            b, it = stack[-1]
            for x in it:
                if state[x] == 0:
                    state[x] = 1
                    stack.append((x, iter(succ[x])))
                    break
                elif state[x] == 1:
                    heads.add(x)
            else:
                state[b] = 2
                stack.pop()
        # liveness of never-borrowed locals
        borrowed = set()
        use = [set() for _ in range(n)]
        deff = [set() for _ in range(n)]

        def opl(o):
            return [o[1]] if o[0] in ("copy", "move") else []

        for i, b in enumerate(bl):
            def u(pl, i=i):
                if pl[0] not in deff[i]:
                    use[i].add(pl[0])
                for e in pl[1]:
                    if e[0] == "i" and e[1] not in deff[i]:
                        use[i].add(e[1])

            def d(pl, i=i):
                if pl[1]:
                    u(pl)
                elif pl[0] not in use[i]:
                    deff[i].add(pl[0])
                else:
                    pass
            for s in b["s"]:
                if s[0] == "=":
                    r = s[2]
                    if r[0] in ("use", "repeat"):
                        for p in opl(r[1]): u(p)
                    elif r[0] == "ref":
                        u(r[2])
                        if not any(e[0] == "deref" for e in r[2][1]):
                            borrowed.add(r[2][0])
                    elif r[0] == "cast":
                        for p in opl(r[2]): u(p)
                    elif r[0] == "bin":
                        for p in opl(r[2]) + opl(r[3]): u(p)
                    elif r[0] == "un":
                        for p in opl(r[2]): u(p)
                    elif r[0] == "discr":
                        u(r[1])
                    elif r[0] == "agg":
                        for o in r[2]:
                            for p in opl(o): u(p)
                    d(s[1])
                elif s[0] == "setd":
                    u(s[1])
                elif s[0] == "copy_nonoverlapping":
                    for o in s[1:4]:
                        for p in opl(o): u(p)
            t = b["t"]
            if t[0] == "call":
                for p in opl(t[1]): u(p)
                for o in t[2]:
                    for p in opl(o): u(p)
                d(t[3])
            elif t[0] == "switch":
                for p in opl(t[1]): u(p)
            elif t[0] == "assert":
                for p in opl(t[1]): u(p)
                for m in t[3][1:]:
                    if isinstance(m, list):
                        for p in opl(m): u(p)
            elif t[0] == "drop":
                u(t[1])
            elif t[0] == "return":
                use[i].add(0)
        live = [set() for _ in range(n)]
        ch = True
        while ch:
            ch = False
            for i in range(n - 1, -1, -1):
                out = set()
                for x in succ[i]:
                    out |= live[x]
                new = use[i] | (out - deff[i])
                if new != live[i]:
                    live[i] = new
                    ch = True
        r = dict(succ=succ, join=[p >= 2 for p in pred], heads=heads, live=[frozenset(x) for x in live], borrowed=borrowed)
        self._cfg_cache[k] = r
        return r
