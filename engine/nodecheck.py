"""What the code of one node must do (properties C10, C18, parts of C09), checked with zone.py."""
import time
from zone import *


class NodeEngine(Lib):
    def __init__(self, prog, kt, mode="prove", torn=False, marker=None):
        super().__init__(prog, mode, torn)
        self.kt = kt
        self.fns_seen = set()
        self.max_states = 60000
        self.cut = False
        self.start_const = None
        self.definite = set()
        self.span = ""
        self.roles(kt, marker)

    def roles(self, kt, marker):
        p, T = self.p, self.T
        kd = p.kinds[kt]
        fs = T[kt]["variants"][0]["f"]
        k = dict(cap=kd["cap"], marker=marker, name=kd["name"].split("::")[-1], children=kd["children"], base=kd["base"], free_field=None)
        arrs = [(j, T[f["t"]]["len"]) for j, f in enumerate(fs) if T[f["t"]]["k"] == "array" and j != kd["children"] and T[T[f["t"]]["to"]]["k"] == "uint"]
        if len(arrs) != 1:
            raise Missing("%s: the array next to the children" % k["name"])
        j, n = arrs[0]
        k["idx_field"], k["idx_len"] = j, n
        k["shape"] = "list" if n == kd["cap"] else "table" if n == 256 else "direct" if n == 32 and kd["cap"] == 256 else None
        if k["shape"] is None:
            raise Missing("%s: how children are found" % k["name"])
        if k["shape"] == "table":
            sc = [i for i, f in enumerate(fs) if T[f["t"]]["k"] == "uint"]
            if len(sc) != 1:
                raise Missing("%s: the free list" % k["name"])
            k["free_field"] = sc[0]
        # the count: the scalar of the common header that insertions write
        cands = set()
        for key, op in p.cops.items():
            if op["kind"] == "insert":
                cands |= {x for x in p.writes_t[key] if isinstance(x, tuple) and x[0] in [T[b]["path"] for b in p.base_tys]}
        k["count_path"] = None
        for bt in p.base_tys:
            for i, f in enumerate(T[bt]["variants"][0]["f"]):
                if (T[bt]["path"], i) in cands and T[f["t"]]["k"] == "uint":
                    if bt == p.base_ty:
                        k["count_path"] = (("f", kd["base"]), ("f", i))
                    else:
                        b = [a for a, g in enumerate(T[p.base_ty]["variants"][0]["f"]) if g["t"] == bt]
                        if b:
                            k["count_path"] = (("f", kd["base"]), ("f", b[0]), ("f", i))
        if k["count_path"] is None:
            raise Missing("%s: the number of children" % k["name"])
        self.kind = k

    # ------------------------------------------------------------ states
    def header(self, st, cnt):
        """value of the common header with the count in place"""
        p, T, k = self.p, self.T, self.kind
        cp = k["count_path"][1:]

        def mk(t, path):
            n = len(T[t]["variants"][0]["f"])
            fs = [None] * n
            i = path[0][1]
            fs[i] = cnt if len(path) == 1 else mk(T[t]["variants"][0]["f"][i]["t"], path[1:])
            # the kind tag is fixed
            for j, f in enumerate(T[t]["variants"][0]["f"]):
                if T[f["t"]]["k"] == "adt" and T[f["t"]].get("adt") == "enum" and T[f["t"]].get("local") and fs[j] is None:
                    tag = self.tag()
                    if tag is not None:
                        fs[j] = ("A", tag, ())
            return ("A", None, tuple(fs))
        return mk(p.base_ty, cp)

    def tag(self):
        return None

    def start(self, probes, pres, cnt_lo=0, cnt_hi=None):
        st = St()
        k = self.kind
        cap = k["cap"]
        base = ["n", ("slot",), ("nextslot",)]
        st.z.add("n", Z, cap if cnt_hi is None else cnt_hi)
        st.z.add(Z, "n", -cnt_lo)
        st.gh["n"] = I("n")
        for q in probes:
            st.z.add(q, Z, 255)
            st.z.add(Z, q, 0)
            if q == "start" and self.start_const is not None:
                st.z.add(q, Z, self.start_const)
                st.z.add(Z, q, -self.start_const)
            base.append(q)
            if k["shape"] == "list":
                st.z.add("rk_" + q, "n", -int(pres[q]))
                st.z.add(Z, "rk_" + q, 0)
                base.append("rk_" + q)
                st.pres[q] = pres[q]
        self.BASE = tuple(base)
        for q in probes:
            if k["shape"] != "list" and pres.get(q) is not None:
                if not self.presence(st, I(q), pres[q]):
                    raise Infeasible()
                if pres[q]:
                    st.z.add(Z, "n", -1)
        self.node(st)
        return st

    def node(self, st, cell=("N",)):
        k, cap = self.kind, self.kind["cap"]
        fs = [None] * len(self.T[self.kt]["variants"][0]["f"])
        if self.torn:
            fs[k["base"]] = self.header(st, ("TORN", 0, cap))
            nm = {"list": "keys", "table": "idx", "direct": "mask"}[k["shape"]]
            fs[k["idx_field"]] = ("HAV", nm, k["idx_len"])
            fs[k["children"]] = ("HAV", "children", cap)
            if k["free_field"] is not None:
                fs[k["free_field"]] = ("TORN", 0, cap)
        else:
            fs[k["base"]] = self.header(st, I("n"))
            nm = {"list": "keys", "table": "idx", "direct": "mask"}[k["shape"]]
            fs[k["idx_field"]] = ("ARR", k["idx_len"], ((K(k["idx_len"]), ("old", nm, 0)),))
            if k["shape"] == "table":
                fs[k["children"]] = ("SLOTS", (), None)
                fs[k["free_field"]] = self.mksym(st, ("slot",))
                self.mksym(st, ("nextslot",))
                if st.z.ub("n", Z) < cap:
                    st.z.add(("slot",), Z, cap - 1)
            else:
                fs[k["children"]] = ("ARR", cap, ((K(cap), ("old", "children", 0)),))
        st.mem[cell] = ("A", None, tuple(fs))

    def final(self, st):
        k = self.kind
        v = st.mem[("N",)]
        cnt = self.rd(st, v, k["count_path"], None)
        return cnt, v[2][k["idx_field"]], v[2][k["children"]], (v[2][k["free_field"]] if k["free_field"] is not None else None)

    # ------------------------------------------------------------ requirements
    def req(self, st, ok, rule, msg):
        self.count("requirement", rule)
        if ok is None:
            self.unknown.add("%s: %s" % (rule, msg))
        elif not ok:
            self.fail(st, rule, msg)

    def same(self, st, a, b):
        """a equals b: True/False/None (unknown)"""
        if a is None or b is None:
            return None
        if a[0] == b[0] == "I":
            if self.eq(st, a, b):
                return True
            return False
        if a[0] == "P" and b[0] == "P":
            x, y = a[1], b[1]
            if "u" in (x[0], y[0]):
                return None
            if x[0] == y[0] and len(x) == len(y) == 3 and x[0] in ("child", "pay", "slot", "atslot"):
                return self.eq(st, I(x[1], x[2]), I(y[1], y[2]))
            return x == y
        if a[0] == "W":
            a = ("P", a[1])
        if b[0] == "W":
            b = ("P", b[1])
        return a == b

    def req_eq(self, st, a, b, rule, msg):
        self.req(st, self.same(st, a, b), rule, msg)

    def req_array(self, st, arr, spec, rule, msg):
        """spec: [(lo, hi, desc)]"""
        if arr is None or arr[0] != "ARR":
            self.req(st, None, rule, msg)
            return

        def go(s):
            for lo, hi, want in spec:
                prev = K(0)
                for h, d in arr[2]:
                    a, b = prev, h
                    prev = h
                    if self.need(s, b, a) or self.need(s, hi, lo) or self.need(s, b, lo) or self.need(s, hi, a):
                        continue
                    # they overlap
                    if d == want:
                        continue
                    if d is None:
                        self.req(s, None, rule, msg)
                        continue
                    if d[0] == "val" and want[0] == "val":
                        self.req_eq(s, d[1], want[1], rule, msg)
                        continue
                    if want[0] == "val" or d[0] == "val":
                        # one cell: compare the values
                        e = lo if want[0] == "val" else a
                        x, y = self.cellval(s, d, e), self.cellval(s, want, e)
                        self.req_eq(s, x, y, rule, msg)
                        continue
                    self.req(s, False, rule, msg)
            return []
        self.count("requirement", rule)
        self.forked(st, go)

    # ------------------------------------------------------------ operations
    def op(self, kind):
        r = [key for key, o in self.p.cops.items() if o["kind"] == kind and o["nodes"] and o["nodes"][0][2] == self.kt and "blocks" in self.p.fns[key]]
        if kind == "copy":
            r = [x for x in r if self.T[self.p.cops[x]["nodes"][1][2]]["k"] != "param"] or r
        return r

    def args_for(self, key, st):
        """argument values by type: node, bytes in order, child word"""
        f = self.p.fns[key]
        out, bytes_ = [], list(self.probes)
        for i in range(1, f["argc"] + 1):
            t = f["locals"][i]
            x = self.T[t]
            if x["k"] == "ref" and x["to"] == self.kt and i == 1:
                out.append(("R", ("N",), ()))
            elif x["k"] == "ref":
                out.append(("R", ("DST",), ()))
            elif x["k"] == "uint":
                out.append(I(bytes_.pop(0)))
            elif t == self.p.np_ty:
                out.append(("P", ("new",)))
            else:
                raise Give("argument of %s" % key)
        return out

    def cases(self, probes, pres_sets, **kw):
        import itertools
        self.probes = probes
        for ps in itertools.product(*pres_sets):
            try:
                yield dict(zip(probes, ps)), self.start(probes, dict(zip(probes, ps)), **kw)
            except Infeasible:
                pass

    def check_op(self, kind, key):
        k = self.kind
        cap = k["cap"]
        if kind == "lookup":
            for ps, st in self.cases(["key"], [(True, False)]):
                for s, v in self.run_fn(st, key, self.args_for(key, st)):
                    self.count("lookup", k["name"])
                    if self.torn:
                        continue        # only that every access stays inside
                    self.unchanged(s, "lookup-writes")
                    if ps["key"]:
                        want = some(("P", ("child",) + (("rk_key", 0) if k["shape"] == "list" else ("key", 0))))
                        ok = None if v is None or v[0] != "A" or v[1] is None else False if v[1] != 1 else self.same(s, v[2][0], want[2][0])
                        self.req(s, ok, "lookup-found", "a stored child is not what the lookup of its byte returns")
                    else:
                        self.req(s, None if v is None or v[0] != "A" or v[1] is None else v[1] == 0, "lookup-absent", "a lookup returns a child for a byte that is not stored")
        elif kind == "insert":
            hi = cap - 1
            for ps, st in self.cases(["key"], [(False,)], cnt_hi=hi):
                for s, v in self.run_fn(st, key, self.args_for(key, st)):
                    self.after_insert(s)
        elif kind == "remove":
            for ps, st in self.cases(["key"], [(True,)], cnt_lo=1):
                for s, v in self.run_fn(st, key, self.args_for(key, st)):
                    self.after_remove(s)
        elif kind == "change":
            for ps, st in self.cases(["key"], [(True,)], cnt_lo=1):
                for s, v in self.run_fn(st, key, self.args_for(key, st)):
                    self.after_change(s, v)
        elif kind == "iter":
            self.check_iter(key)
        elif kind == "copy":
            self.check_copy(key)

    def unchanged(self, s, rule):
        cnt, idx, ch, fr = self.final(s)
        k = self.kind
        nm = {"list": "keys", "table": "idx", "direct": "mask"}[k["shape"]]
        same = self.eq(s, cnt, I("n")) if cnt is not None and cnt[0] == "I" else None
        self.req(s, same, rule, "the number of children changes")
        self.req_array(s, idx, [(K(0), K(k["idx_len"]), ("old", nm, 0))], rule, "the index of children changes")

    def after_insert(self, s):
        k = self.kind
        cnt, idx, ch, fr = self.final(s)
        n = I("n")
        self.req_eq(s, cnt, I("n", 1), "insert-count", "an insertion does not add one to the number of children")
        if k["shape"] == "list":
            r = I("rk_key")
            spec = [(K(0), r, ("old", "keys", 0)), (r, I("rk_key", 1), ("val", I("key"))), (I("rk_key", 1), I("n", 1), ("old", "keys", -1))]
            self.req_array(s, idx, spec, "insert-keys", "after an insertion the key bytes are not the old ones and the new one in order")
            spec = [(K(0), r, ("old", "children", 0)), (r, I("rk_key", 1), ("val", ("P", ("new",)))), (I("rk_key", 1), I("n", 1), ("old", "children", -1))]
            self.req_array(s, ch, spec, "insert-children", "after an insertion the children do not belong to their key bytes")
        elif k["shape"] == "direct":
            self.mask(s, idx, "set", "insert-mask")
            key = I("key")
            self.req_array(s, ch, [(K(0), key, ("old", "children", 0)), (key, I("key", 1), ("val", ("P", ("new",)))), (I("key", 1), K(256), ("old", "children", 0))],
                           "insert-children", "an insertion does not store exactly the new child at its byte")
        else:
            slot = I(("slot",))
            self.req_eq(s, fr, I(("nextslot",)), "insert-free-list", "an insertion does not take exactly the first free slot off the free list")
            key = I("key")
            if ch[0] != "SLOTS" or ch[2] is not None:
                self.req(s, None, "insert-children", "slots")
                return
            self.req(s, len(ch[1]) == 1, "insert-children", "an insertion does not write exactly one slot")
            if len(ch[1]) == 1:
                sl, w = ch[1][0]
                self.req_eq(s, sl, slot, "insert-children", "an insertion puts the child into a slot that is not the free one")
                self.req_eq(s, w, ("P", ("new",)), "insert-children", "an insertion does not store the new child")
                self.req_array(s, idx, [(K(0), key, ("old", "idx", 0)), (key, I("key", 1), ("val", sl)), (I("key", 1), K(256), ("old", "idx", 0))],
                               "insert-index", "an insertion does not point exactly the new byte at the child's slot")

    def mask(self, s, idx, how, rule):
        d = self.mksym(s, ("div8", "key", 0))
        key = I("key")

        def fits(t):
            """whether the new mask byte is the old one with exactly the key's bit set or cleared"""
            if t[0] not in ("BitOr", "BitAnd"):
                return False
            x, y = t[1], t[2]
            if x[0] != "M":
                x, y = y, x
            if x[0] != "M" or not self.eq(s, I(x[1], x[2]), d):
                return False
            if how == "clear":
                y = y[1] if y[0] == "not" else ("cst", ~y[1] & 255) if y[0] == "cst" else ("no",)
            if t[0] != {"set": "BitOr", "clear": "BitAnd"}[how]:
                return False
            e = self.bit_of(s, I(x[1], x[2]), y)
            return e is not None and self.eq(s, e, key)

        if idx is None or idx[0] != "ARR":
            self.req(s, None, rule, "mask")
            return
        cells = []
        prev = K(0)
        for h, ds in idx[2]:
            a = prev
            prev = h
            if ds is None:
                self.req(s, None, rule, "mask")
            elif ds[0] == "val":
                cells.append((a, h, ds[1]))
            elif ds != ("old", "mask", 0):
                self.req(s, False, rule, "presence bits of other bytes change")
        if how is None:
            self.req(s, not cells, rule, "presence bits change")
            return
        ok = len(cells) == 1 and self.eq(s, cells[0][0], d) and self.eq(s, cells[0][1], I(d[1], d[2] + 1))
        v = cells[0][2] if cells else None
        if ok and v is not None and v[0] == "T8":
            ok = fits(v[1])
            if not ok and not self.known_t8(v[1]):
                ok = None
        elif ok:
            ok = None
        self.req(s, ok, rule, "the presence bit of exactly this byte is not %s" % {"set": "set", "clear": "cleared"}[how])

    def known_t8(self, t):
        if t[0] in ("BitOr", "BitAnd"):
            return self.known_t8(t[1]) and self.known_t8(t[2])
        if t[0] == "not":
            return self.known_t8(t[1])
        return t[0] in ("M", "pow", "cst")

    def after_remove(self, s):
        k = self.kind
        cnt, idx, ch, fr = self.final(s)
        self.req_eq(s, cnt, I("n", -1), "remove-count", "a removal does not take one off the number of children")
        if k["shape"] == "list":
            r, e = I("rk_key"), I("n", -1)
            self.req_array(s, idx, [(K(0), r, ("old", "keys", 0)), (r, e, ("old", "keys", 1))], "remove-keys", "after a removal the key bytes are not the remaining ones in order")
            self.req_array(s, ch, [(K(0), r, ("old", "children", 0)), (r, e, ("old", "children", 1))], "remove-children", "after a removal the children do not belong to their key bytes")
        elif k["shape"] == "direct":
            self.mask(s, idx, "clear", "remove-mask")
            key = I("key")
            self.req_array(s, ch, [(K(0), key, ("old", "children", 0)), (I("key", 1), K(256), ("old", "children", 0))], "remove-children", "a removal changes other children")
        else:
            key = I("key")
            own = self.mksym(s, ("X", "key", 0))
            self.req_array(s, idx, [(K(0), key, ("old", "idx", 0)), (key, I("key", 1), ("val", K(k["marker"]))), (I("key", 1), K(256), ("old", "idx", 0))],
                           "remove-index", "a removal does not mark exactly this byte as absent")
            self.req_eq(s, fr, own, "remove-free-list", "a removal does not put the freed slot on the free list")
            ok = ch[0] == "SLOTS" and len(ch[1]) == 1
            self.req(s, ok if ch[0] == "SLOTS" else None, "remove-children", "a removal does not write exactly the freed slot")
            if ok:
                self.req_eq(s, ch[1][0][0], own, "remove-children", "a removal writes a slot other than the freed one")
                self.req_eq(s, ch[1][0][1], ("P", ("pay", ("slot",), 0)), "remove-free-list", "a removal does not link the freed slot to the free list")

    def after_change(self, s, v):
        k = self.kind
        cnt, idx, ch, fr = self.final(s)
        pos = ("rk_key", 0) if k["shape"] == "list" else ("key", 0)
        self.req_eq(s, cnt, I("n"), "change-count", "a replacement changes the number of children")
        self.req_eq(s, v, ("P", ("child",) + pos), "change-old", "a replacement does not return the child it replaced")
        nm = {"list": "keys", "table": "idx", "direct": "mask"}[k["shape"]]
        self.req_array(s, idx, [(K(0), I("n") if k["shape"] == "list" else K(k["idx_len"]), ("old", nm, 0))], "change-index", "a replacement changes which bytes are stored")
        if k["shape"] == "table":
            own = self.mksym(s, ("X", "key", 0))
            self.req_eq(s, fr, I(("slot",)), "change-free-list", "a replacement changes the free list")
            ok = ch[0] == "SLOTS" and len(ch[1]) == 1
            self.req(s, ok if ch[0] == "SLOTS" else None, "change-children", "a replacement does not write exactly the child's slot")
            if ok:
                self.req_eq(s, ch[1][0][0], own, "change-children", "a replacement writes another child's slot")
                self.req_eq(s, ch[1][0][1], ("P", ("new",)), "change-children", "a replacement does not store the new child")
        else:
            p = I(*pos)
            hi = I("n") if k["shape"] == "list" else K(256)
            self.req_array(s, ch, [(K(0), p, ("old", "children", 0)), (p, I(p[1], 1), ("val", ("P", ("new",)))), (I(p[1], 1), hi, ("old", "children", 0))],
                           "change-children", "a replacement does not change exactly the child of its byte")

    # ------------------------------------------------------------ enumeration
    def frontier(self, st, rng):
        k = self.kind
        st.gh["b"] = K(0)               # everything below was handed out or need not be
        st.gh["r"] = K(0)               # one past the last one handed out
        top = I("n") if k["shape"] == "list" else K(256)
        if rng:
            if k["shape"] == "list":
                st.gh["lo"], st.gh["hi"] = I("rk_start"), I("rk_end", int(st.pres["end"]))
            else:
                st.gh["lo"], st.gh["hi"] = I("start"), I("end", 1)
                st.gh["b"] = st.gh["lo"]
        else:
            st.gh["h"] = top
        return top

    def where(self, st, key):
        """position a key byte stands for"""
        if key is None or key[0] != "I":
            return None
        if self.kind["shape"] == "list":
            if is_struct(key[1]) and key[1][0] == "elt" and key[2] == 0:
                return I(key[1][1], key[1][2])
            return None
        return key

    def reported(self, st, key, child, rule):
        """an entry handed on; -> requirement and frontier"""
        e = self.where(st, key)
        g = st.gh
        if e is None or child is None or child[0] != "P" or child[1][0] == "u":
            self.req(st, None, rule, "an entry that is not tracked")
            st.unk = True
            return
        ok = child[1][0] == "child" and self.eq(st, I(child[1][1], child[1][2]), e)
        self.req(st, ok, rule + "-pair", "a child is handed out with another child's byte")
        if self.kind["shape"] == "list":
            self.req(st, self.lt(st, e, I("n")), rule + "-pair", "an entry past the last child is handed out")
        else:
            self.req(st, self.known_presence(st, e) is True, rule + "-pair", "an entry that is not present is handed out")
        if not self.need(st, g["r"], e):
            # handed out before, or a later one was
            if not ("h" in g and self.eq(st, g["h"], I(e[1], e[2] + 1))):
                self.req(st, False, rule + "-complete", "a child is handed out twice or out of order")
                st.dead = True
                return
            g["h"] = I(e[1], e[2])
        elif not self.need(st, g["b"], e):
            g["r"] = I(e[1], e[2] + 1)
        elif self.gap(st, g["b"], e):
            g["b"] = g["r"] = I(e[1], e[2] + 1)
        elif "h" in g and self.eq(st, g["h"], I(e[1], e[2] + 1)):
            g["h"] = I(e[1], e[2])
        else:
            self.req(st, False, rule + "-complete", "a child is skipped or handed out twice or out of order")
            st.dead = True

    def check_iter(self, key):
        k = self.kind
        nx = [x for x, o in self.p.cops.items() if o["kind"] == "next"]
        rt = self.p.cops[key]["ret"]
        probes = ["start", "end"]
        pres = [(True, False)] * 2 if k["shape"] == "list" and not self.torn else [(None,)] * 2
        if self.torn:
            pres = [(False,)] * 2
        for ps, st in self.cases(probes, pres):
            if not self.torn:
                top = self.frontier(st, True)
                if k["shape"] == "list":
                    # equal bytes have equal rank
                    pass
            for s, v in self.run_fn(st, key, self.args_for(key, st)):
                self.drive(s, v, rt, None if self.torn else top)

    def drive(self, st, it, rt, top):
        """call next until it returns nothing"""
        nxt = [x for x, o in self.p.cops.items() if o["kind"] == "next" and self.p.pointee(self.p.fns[x]["locals"][1]) == rt]
        if len(nxt) != 1:
            raise Missing("the enumeration's next")
        cell = ("ITER",)
        st.mem[cell] = it
        work, table = [(st, 0)], {}
        while work:
            s, n = work.pop()
            if self.mode == "prove":
                s.pf = {}
                s.gh.pop("diffs", None)
                s.gh.pop("sums", None)
                s.z.keep(self.used_syms(s))
                s = self.head(table, "drive", s)
                if s is None:
                    continue
            elif n > self.UNROLL:
                self.cut = True
                continue
            for s2, v in self.run_fn(s, nxt[0], [("R", cell, ())]):
                if v is None or v[0] != "A" or v[1] is None:
                    self.unknown.add("enumeration: result not tracked")
                    continue
                if v[1] == 0:
                    if top is not None:
                        self.count("requirement", "iter-complete")
                        g = s2.gh
                        self.req(s2, self.gap(s2, g["b"], top), "iter-complete", "the enumeration ends before every child in range was handed out")
                    continue
                if top is not None:
                    pr = v[2][0]
                    if pr is None or pr[0] != "A":
                        self.unknown.add("enumeration: item not tracked")
                        continue

                    def rep(x, pr=pr):
                        self.reported(x, pr[2][0], pr[2][1], "iter")
                        return [] if x.dead else [x]
                    work += [(x, n + 1) for x in self.forked(s2, rep)]
                    continue
                work.append((s2, n + 1))

    def check_copy(self, key):
        for ps, st in self.cases([], []):
            top = self.frontier(st, False)
            for s, v in self.run_fn(st, key, self.args_for(key, st)):
                self.unchanged(s, "copy-writes")
                self.req(s, self.le(s, s.gh["h"], s.gh["b"]), "copy-complete", "growing a node does not move every child")

    def hook(self, st, c, args, atys, rt):
        if args and args[0] == ("R", ("DST",), ()):
            if len(args) == 3 and not self.torn:
                self.reported(st, args[1], args[2], "copy")
                if st.dead:
                    return []
                return [(st, ("A", None, ()))]
            raise Give("call on the destination")
        return None

    # ------------------------------------------------------------ fullness, initialisation
    def check_full(self, key):
        k = self.kind
        for ps, st in self.cases([], []):
            for s0, v in self.run_fn(st, key, [("R", ("N",), ())]):
                if v is None or v[0] != "B" or v[1][0] == "u":
                    self.req(s0, None, "full", "fullness not tracked")
                    continue
                for val in (True, False):
                    for s in self.assume(s0.copy(), v[1], val):
                        if val:
                            self.req(s, self.le(s, K(k["cap"]), I("n")), "full-early", "a node is considered full although it has a free slot")
                        elif k["cap"] < 256:
                            self.req(s, self.lt(s, I("n"), K(k["cap"])), "full-late", "a node with no free slot is not considered full")

    def check_init(self, key):
        """empty table node; finds the marker for absent bytes"""
        k = self.kind
        self.probes = []
        st = self.start([], {})
        fs = list(st.mem[("N",)][2])
        zero = ("val", K(0))
        fs[k["idx_field"]] = ("ARR", 256, ((K(256), zero),))
        fs[k["children"]] = ("SLOTS", (), ("ARR", k["cap"], ((K(k["cap"]), ("val", ("P", ("pay", Z, 0)))),)))
        fs[k["free_field"]] = K(0)
        st.mem[("N",)] = ("A", None, tuple(fs))
        marks = set()
        every = None
        for s, v in self.run_fn(st, key, [("R", ("N",), ())]):
            before = len(self.fails)
            cnt, idx, ch, fr = self.final(s)
            if idx is None or idx[0] != "ARR" or any(d is None for h, d in idx[2]):
                self.req(s, None, "init-index", "index table")
                continue
            vals = {d[1] for h, d in idx[2] if d[0] == "val"} if all(d[0] == "val" for h, d in idx[2]) else set()
            self.req(s, len(vals) == 1, "init-index", "a new node's index table does not mark every byte absent")
            if len(vals) == 1:
                marks.add(self.const(s, list(vals)[0]))
            if ch[2] is None:
                self.req(s, None, "init-free-list", "free list")
                continue

            def chain(s1, fr=fr, ch=ch):
                c = self.const(s1, fr) if fr is not None else None
                self.req(s1, c == 0 if c is not None else None, "init-free-list", "a new node's free list does not start at its first slot")
                self.req_array(s1, ch[2], [(K(0), K(k["cap"] - 1), ("cnt", 1))], "init-free-list", "a new node's free slots are not all linked")
                return []
            self.forked(s, chain)
            bad = {f[0] for f in self.fails[before:]}
            every = bad if every is None else every & bad
        # it takes no input: what is wrong in every state it can end in is wrong
        self.definite = every or set()
        return marks


def mk(prog, kt, mode, torn, marker):
    return NodeEngine(prog, kt, mode, torn, marker)


SECONDS = 30


def two_phase(prog, kt, marker, torn, what, run, fixed=False):
    """prove (fixed: once for every constant first bound, exhaustively, where that is needed);
    where it fails, refute"""
    res = dict(label=what, viol=[], undecided=[], ev=defaultdict(set), states=0, fns=set())

    def attempt(mode, vals, secs=SECONDS, unroll=5):
        fails, unknown = [], set()
        end = time.time() + secs
        for c in vals:
            e = mk(prog, kt, mode, torn, marker)
            e.start_const = c
            e.UNROLL = unroll
            e.deadline = end
            try:
                run(e)
            except Give as x:
                if mode == "prove":
                    e.fails = e.fails or [("give", str(x), e.span, [], True)]
                else:
                    e.unknown.add(str(x))
            except Infeasible:
                e.unknown.add("contradiction")
            fails += e.fails
            if e.definite:
                res["viol"] += [f[:4] for f in e.fails if f[0] in e.definite]
            unknown |= e.unknown
            res["states"] += e.states
            res["fns"] |= e.fns_seen
            for k, v in e.ev.items():
                res["ev"][k] |= v
            if mode == "prove" and (fails or unknown):
                break
        return fails, unknown
    fails, unknown = attempt("prove", [None])
    if (fails or unknown) and fixed:
        f2, u2 = attempt("prove", range(256), 2 * SECONDS)
        if not f2 and not u2:
            return res
    if not fails and not unknown:
        return res
    ru = set()
    for unroll in (1, 2, 5):
        if res["viol"]:
            break
        rf, u = attempt("refute", [None] if not fixed else [None, 0, 1, 254, 255], unroll=unroll)
        ru |= u
        for rule, msg, span, tr, wid in rf:
            if wid:
                ru.add("%s: %s" % (rule, msg))
            else:
                res["viol"].append((rule, msg, span, tr))
    if not res["viol"]:
        res["undecided"] = sorted({"%s: %s" % (f[0], f[1]) for f in fails} | unknown | ru)
    return res


OPS_ = ("lookup", "insert", "remove", "change", "iter", "copy")


def jobs(prog):
    """[(kind name, operation, torn)]"""
    out = []
    for kt in sorted(prog.kinds):
        e = mk(prog, kt, "prove", False, None)
        n = prog.kinds[kt]["name"]
        ops = OPS_ + (("init",) if e.kind["shape"] == "table" else ())
        out += [(n, o, False) for o in ops] + [(n, o, True) for o in ("lookup", "iter")]
    return out


def one(prog, name, kind, torn):
    kt = [k for k in prog.kinds if prog.kinds[k]["name"] == name]
    if len(kt) != 1:
        raise Missing("node kind %s" % name)
    kt = kt[0]
    e = mk(prog, kt, "prove", False, None)
    k = e.kind
    marker = None
    ini = None
    if k["shape"] == "table":
        ks = e.op("init")
        if len(ks) != 1:
            raise Missing("%s: initialisation" % k["name"])
        box = set()

        def run_init(en):
            box.update(en.check_init(ks[0]))
        ini = two_phase(prog, kt, None, False, "%s init" % k["name"], run_init)
        ini["key"] = ks[0]
        if len(box) == 1:
            marker = box.pop()
        if kind == "init":
            return [ini]
        if marker is None:
            ini["undecided"] = ["the mark of absent bytes is not recognised"]
            ini["viol"] = []
            ini["label"] = "%s %s" % (k["name"], kind)
            return [ini]
    ks = e.op(kind)
    if not ks:
        raise Missing("%s: operation %s" % (k["name"], kind))
    out = []
    for key in ks:
        r = two_phase(prog, kt, marker, torn, "%s %s" % (k["name"], kind), lambda en: en.check_op(kind, key),
                      kind == "iter" and k["shape"] != "list" and not torn)
        r["key"] = key
        out.append(r)
    return out


if __name__ == "__main__":
    import sys
    from mir import Prog
    p = Prog(sys.argv[1])
    for n, o, torn in jobs(p):
        for r in one(p, n, o, torn):
            print("%s %-18s states %5d  viol %d  undecided %s" % ("torn " if torn else "exact", r["label"], r["states"], len(r["viol"]), r["undecided"][:3]))
            for v in r["viol"][:4]:
                print("     VIOL", v[:3])
