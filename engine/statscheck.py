"""Statistics (C20): what the traversals behind `stats` add up, per node and per entry, and what is printed of it.

The traversal is walked for the root and for any node below it (the recursion beyond that stands for
itself); stores into the visitor are additions to counters, collected per node and per entry.
"""
from treerules import *
from fractions import Fraction

HMAP = "std::collections::hash::map::"
ZEROC = N(0)


class Stats(Walk):
    panic_prop = "C20"

    def __init__(self, prog, **kw):
        super().__init__(prog, **kw)
        self.node_obs = {}        # (visitor, map) -> {(tag, counters)}
        self.acc_pay = {}         # (visitor, counter) -> amounts per entry
        self.acc_node = {}
        self.results = []
        self.map_ty = {}
        self.tag_ty = None
        self.sets = {}            # counters that are set instead of added to
        self.carried = {}         # counters that do not start at zero

    def begin(self, st):
        self.root_node(st)
        st.gh["err"] = False

    def panic(self, st, why):
        pass

    def fail(self, st):
        st.gh["err"] = True
        for k in ("evs", "kid", "enum"):
            st.gh.pop(k, None)

    def keep_nodes(self, st):
        kid = st.gh.get("kid")
        return {i[0][1] for i in st.gh.get("nest", ())} | ({kid[1]} if kid else set()) | {e[0][1] for e in st.gh.get("evs", ())}

    def blank_gh(self, k, v, stale):
        if k == "evs":
            out = tuple(x for x in v if not has(x, stale))
            if len(out) != len(v):
                self.und.append("counters of a child that is no longer looked at")
            return out
        return super().blank_gh(k, v, stale)

    # ------------------------------------------------------------ values
    def load(self, st, cell, path, tid):
        v = super().load(st, cell, path, tid)
        if cell[0] == "N" and tid is not None and path and (v is None or v == ANY) and self.is_tag(tid):
            self.tag_ty = tid
            return ("X", ("tag", cell[1]))
        return v

    def is_tag(self, t):
        x = self.T[t]
        return x["k"] == "adt" and x.get("adt") == "enum" and x.get("local") and len(x["variants"]) > 1 and all(not v["f"] for v in x["variants"])

    def discr(self, st, v, t):
        if v is not None and v[0] == "X" and v[1][0] == "tag" and self.is_tag(t):
            k = ("tag", v[1][1])
            if k not in st.gh:
                out = []
                for i in range(len(self.T[t]["variants"])):
                    s = st.copy()
                    s.gh[k] = i
                    out.append(s)
                raise Fork(out)
            return N(self.T[t]["variants"][st.gh[k]]["d"])
        return super().discr(st, v, t)

    # ------------------------------------------------------------ maps and defaults
    def model(self, st, c, p, args, atys, rt):
        name = p.rsplit("::", 1)[-1]
        a0 = args[0] if args else None
        x = self.T[rt]
        if p == "core::default::Default::default" and not (c.get("key") in self.p.fns and "blocks" in self.p.fns[c["key"]]):
            if x.get("path", "").startswith(HMAP):
                return [(st, ("X", ("emptymap",)))]
            if x["k"] == "uint":
                return [(st, ZEROC)]
        if p.startswith(HMAP) or (x.get("path") or "").startswith(HMAP) and name in ("new", "with_capacity", "default"):
            return self.hash(st, c, name, args, atys, rt)
        if p.startswith("core::result::Result::<T, E>::") and name in ("is_ok", "is_err") and a0 is not None:
            v = self.deref_all(st, a0)
            if v is not None and v[0] == "A":
                return [(st, TRUE if (v[1] == 0) == (name == "is_ok") else FALSE)]
        return super().model(st, c, p, args, atys, rt)

    def hash(self, st, c, name, args, atys, rt):
        a0 = args[0] if args else None
        if name in ("new", "with_capacity", "default", "with_hasher"):
            return [(st, ("X", ("emptymap",)))]
        if a0 is None:
            return [(st, None)]
        if a0[0] == "A" and a0[1] == "ENT":
            _, _, (m, k) = a0
            if name in ("or_insert_with", "or_default", "or_insert", "or_insert_with_key"):
                return self.ensure(st, m, k, name, args, atys, rt)
            if name == "and_modify":
                return [(st, None)]
            return [(st, None)]
        m = self.deref_all(st, a0)
        if m is None or m[0] != "X" or m[1][0] != "map":
            self.und.append("HashMap::%s" % name)
            return [(st, None)]
        if name == "entry":
            return [(st, ("A", "ENT", (m, args[1])))]
        if name in ("get_mut", "get", "contains_key"):
            k = self.deref_all(st, args[1])
            g = ("in", m, k)
            out = []
            for yes in ([st.gh[g]] if g in st.gh else [True, False]):
                s = st.copy()
                s.gh[g] = yes
                if name == "contains_key":
                    out.append((s, TRUE if yes else FALSE))
                else:
                    pt = self.p.pointee(self.p.fields(rt, 1)[0])
                    out.append((s, some(self.slot(m, k, pt)) if yes else NONE))
            return out
        if name == "insert":
            if st.gh.get(("in", m, args[1])) is not False:
                self.report("C20", "not-added", st, "the counters of a level are replaced by new ones")
            self.fresh_entry(st, args[1], args[2])
            st.gh[("in", m, args[1])] = True
            return [(st, None)]
        self.und.append("HashMap::%s" % name)
        return [(st, None)]

    def slot(self, m, k, pt):
        cell = ("D", ("M", m, k))
        self.cell_ty[cell] = pt
        self.map_ty[m] = pt
        return ("R", cell, ())

    def ensure(self, st, m, k, name, args, atys, rt):
        pt = self.p.pointee(rt)
        g = ("in", m, k)
        out = []
        if st.gh.get(g) is not False:
            s = st.copy()
            s.gh[g] = True
            out.append((s, self.slot(m, k, pt)))
        if st.gh.get(g) is not True:
            s = st.copy()
            s.gh[g] = True
            if name == "or_insert":
                vs = [(s, args[1])]
            elif name == "or_insert_with":
                vs = self.callv(s, args[1], [])
            elif name == "or_insert_with_key":
                s.mem[("KEY",)] = k
                vs = self.callv(s, args[1], [("R", ("KEY",), ())])
            else:
                key = next((l["key"] for l in self.p.local if (l.get("trait") or "").endswith("Default") and self.T[self.p.fns[l["key"]]["locals"][0]] is self.T[pt]), None) if False else None
                vs = [(s, None)]
            for s2, v in vs:
                self.fresh_entry(s2, k, v)
                out.append((s2, self.slot(m, k, pt)))
        return out

    def fresh_entry(self, st, k, v):
        """a new level starts with nothing counted"""
        if v is None:
            self.und.append("what a new level starts with at %s" % self.span)
            return

        def leaves(v):
            if v is not None and v[0] == "A":
                for x in v[2]:
                    yield from leaves(x)
            else:
                yield v
        for x in leaves(v):
            if x is None:
                self.und.append("what a new level starts with at %s" % self.span)
            elif x == ZEROC or k is not None and self.lin(x) and self.lin(k) and self.ent_eq(st, x, k):
                continue
            elif x[0] == "I":
                self.report("C20", "starts-counted", st, "the counters of a new level do not start at zero")
            elif self.lin(x) and k is not None and self.lin(k):
                self.report("C20", "other-level", st, "the counters of a level are marked with another level")
            else:
                self.und.append("what a new level starts with at %s" % self.span)

    # ------------------------------------------------------------ counters
    def store(self, st, cell, path, v):
        vc = st.gh.get("vc")
        ism = cell[0] == "D" and isinstance(cell[1], tuple) and cell[1][0] == "M"
        if not ism and cell != vc:
            return super().store(st, cell, path, v)
        old = self.rd(st, cell, path, None)
        if v == old and v is not None:
            return
        d = None
        if v is not None and v[0] == "X" and v[1][0] == "op" and v[1][1] == "Add" and old is not None:
            d = v[1][3] if v[1][2] == old else v[1][2] if v[1][3] == old else None
        if old is not None and old[0] == "X" and old[1][0] == "map":
            self.und.append("a map of counters is replaced")
            return
        if d is None and (v is None or v[0] == "A" or old is None):
            self.und.append("a counter changed in a way that is not followed at %s" % self.span)
            d = ("?",)
        self.count("counted", self.site())
        nest = st.gh.get("nest", ())
        if st.gh.get("err"):
            return
        if not nest:
            self.und.append("a counter changed outside the traversal at %s" % self.span)
            return
        item = nest[-1][0]
        if ism:
            what = ("M", cell[1][1][1][1], path)
            lvl = cell[1][2]
            okl = self.lin(lvl) is not None and self.ent_eq(st, lvl, nest[-1][1])
            if not okl:
                if self.lin(lvl) is not None and self.decide(st, ("eq", lvl, nest[-1][1])) is False:
                    self.report("C20", "wrong-level", st, "a node is counted for another level than its own")
                else:
                    self.und.append("the level a node is counted for at %s" % self.span)
        else:
            what = ("ACC", st.gh["vt"], path)
            kid = st.gh.get("kid")
            if kid is not None and item[0] == "node" and kid[0] == item[1] and len(st.nodes[kid[1]]["up"]) >= KEY:
                item = ("pay", kid[1])
        if d is None:
            if not (ism and self.lin(v) is not None and self.lin(cell[1][2]) is not None and self.ent_eq(st, v, cell[1][2])):
                self.sets.setdefault(what, (self.span, st.copy()))
            return
        st.note("%s: counted" % self.span)
        st.gh["evs"] = tuple(sorted(st.gh.get("evs", ()) + ((item, what, d),), key=repr))
        if len(st.gh["evs"]) > 40:
            self.give("too many counters changed")

    def gather(self, st, item):
        ev = [e[1:] for e in st.gh.get("evs", ()) if e[0] == item]
        st.gh["evs"] = tuple(e for e in st.gh.get("evs", ()) if e[0] != item)
        out = {}
        for w, d in ev:
            if d[0] == "X" and d[1] == ("count", item[1]):
                d = "count"
            elif d[0] == "I":
                d = d[1]
            else:
                d = "?"
            o = out.get(w)
            out[w] = d if o is None else (o + d if isinstance(o, int) and isinstance(d, int) else (o, d))
        return out

    def obs(self, table, k, v, st):
        table.setdefault(k, {}).setdefault(v, (self.local_span, st.tr))

    # ------------------------------------------------------------ the traversal
    def visitor(self, st, args, atys):
        for a, t in zip(args, atys):
            x = self.T[t] if t is not None else None
            if x is not None and x["k"] == "ref" and x.get("mut") and self.p.is_local_adt(x["to"]) and not self.p.is_node_ty(x["to"]) and a is not None and a[0] == "R" and not a[2]:
                return a[1], x["to"]
        return None, None

    def blanked(self, st, v, t, at, vt, acc):
        """what the visitor holds when a traversal begins"""
        x = self.T[t]
        if x["k"] == "adt" and x.get("adt") == "struct" and (x.get("path") or "").startswith(HMAP + "HashMap"):
            if v is None:
                self.und.append("what a traversal begins with")
            elif v != ("X", ("emptymap",)):
                self.carried[("map", (vt, at))] = (self.lspan(), st.copy())
            return ("X", ("map", (vt, at)))
        if x["k"] == "uint":
            if v is None:
                self.und.append("what a traversal begins with")
            elif v != ZEROC:
                self.carried[("acc", (vt, at))] = (self.lspan(), st.copy())
            acc.append(at)
            return ("X", ("acc", vt, at))
        if x["k"] == "adt" and x.get("adt") == "struct" and x.get("local"):
            fs = self.p.fields(t)
            vs = v[2] if v is not None and v[0] == "A" and len(v[2]) == len(fs) else (None,) * len(fs)
            return ("A", 0, tuple(self.blanked(st, y, f, at + (("f", i),), vt, acc) for i, (y, f) in enumerate(zip(vs, fs))))
        if x.get("size") == 0:
            return v
        self.und.append("a visitor that keeps %s" % x["s"])
        return None

    def item_of(self, st, args):
        cells, nodes = self.reach(st, args)
        return nodes

    def modular(self, st, key, args, atys):
        f = self.p.fns[key]
        vcell, vt = self.visitor(st, args, atys)
        nest = st.gh.get("nest", ())
        if vcell is None:
            self.give("a recursion without a visitor")
        top = not nest
        lv = [i for i, (a, t) in enumerate(zip(args, atys)) if self.T[t]["k"] == "uint"]
        plain = [a for a in args if not (a is not None and a[0] == "R" and a[1] == vcell)]
        nodes = [n for n in self.item_of(st, plain)]
        if top:
            for k in [k for k in st.gh if k not in ("err",)]:
                del st.gh[k]
            st.gh["err"] = False
            acc = []
            st.mem[vcell] = self.blanked(st, self.rd(st, vcell, (), None), vt, (), vt, acc)
            st.gh["vc"], st.gh["vt"], st.gh["accs"] = vcell, vt, tuple(acc)
            item, depth = ("node", ("root",)), N(0)
            if nodes and nodes != [("root",)]:
                self.give("the traversal does not begin at the root")
            self.count("traversal", f["path"] + " " + self.T[vt]["s"])
        else:
            pitem, pdepth = nest[-1]
            if pitem[0] == "pay":
                self.give("recursion from an entry")
            depth = self.plus(pdepth, N(1))
            kid = st.gh.get("kid")
            mine = [n for n in nodes if kid is not None and n == kid[1]]
            if not mine:
                self.give("a recursion into something that is not a child just met")
            c = mine[0]
            if kid[2]:
                self.report("C20", "counted-twice", st, "a child is visited twice by the traversal behind the statistics")
            st.gh["kid"] = kid[:2] + (True,)
            item = ("pay" if len(st.nodes[c]["up"]) >= KEY else "node", c)
            self.count("handed-on", self.site())
        rt = self.T[f["locals"][0]]
        if len(nest) >= 2 and item[0] == "node":
            res = rt.get("path") == "core::result::Result"
            bad = st.copy()
            self.fail(bad)
            return [(st, ("A", 0, (UNIT,)) if res else UNIT)] + ([(bad, ("A", 1, (None,)))] if res else [])
        # the level handed on, for any depth below the root
        if len(lv) == 1 and len(nest) == 2 and nest[-1][1] == ("Y", "depth", 0) and self.lin(args[lv[0]]) is not None and not self.ent_eq(st, args[lv[0]], depth) and not st.unk:
            self.report("C20", "wrong-level", st, "a sub-tree is visited with a level that is not one more than its parent's")
        if len(nest) == 1 and item[0] == "node":
            return self.below(st, key, args, item, depth, lv)
        outer = {k: st.gh[k] for k in ("kid", "enum") if k in st.gh}
        st.gh.pop("kid", None)
        st.gh["nest"] = nest + ((item, depth),)
        out = []
        for s, v in self.run_fn(st, key, args):
            if not s.gh.get("err"):
                self.leave_item(s, item)
            s.gh["nest"] = nest
            for k in ("kid", "enum"):
                s.gh.pop(k, None)
            if not s.gh.get("err"):
                s.gh.update(outer)
            if top:
                s.gh = {"err": s.gh.get("err")}
            out.append((s, v))
        return out

    def below(self, st, key, args, item, depth, lv):
        """any node below the root: walked once, what it does to the counters is collected; the caller sees only how it ends"""
        mk = (key, tuple(args), frozenset(st.z.d.items()), st.ne, tuple(sorted(st.nodes[item[1]].items(), key=repr)))
        if mk not in self.memo:
            s0 = st.copy()
            s0.gh = {k: st.gh[k] for k in ("err", "vc", "vt", "accs", "nest") if k in st.gh}
            args = list(args)
            if len(lv) == 1 and args[lv[0]] == depth:
                self.num(s0, "depth")
                s0.z.add(Z, "depth", -1)
                depth = args[lv[0]] = ("Y", "depth", 0)
            s0.gh["nest"] += ((item, depth),)
            ends = set()
            for s, v in self.run_fn(s0, key, args):
                if not s.gh.get("err"):
                    self.leave_item(s, item)
                ends.add((bool(s.gh.get("err")), ("A", v[1], (UNIT if v[1] == 0 else None,)) if v is not None and v[0] == "A" else v if v == UNIT else None))
            self.memo[mk] = ends
        out = []
        for err, v in sorted(self.memo[mk], key=repr):
            s = st.copy()
            if err:
                self.fail(s)
            out.append((s, v))
        return out

    def leave_item(self, st, item):
        if item[0] == "pay":
            return
        nid = item[1]
        got = self.gather(st, item)
        vt = st.gh["vt"]
        sp = getattr(self, "local_span", "-")
        en = st.gh.get("enum")
        if en != ("done", nid):
            if any(d == "count" or isinstance(d, tuple) or d == "?" for d in got.values()) and any(w[0] == "ACC" for w in got):
                self.und.append("a node whose children are not enumerated")
            elif not st.unk:
                self.report("C20", "children-not-visited", st, "the traversal behind the statistics leaves a node without having visited all of its children")
        maps = {w[1] for w in got if w[0] == "M"} | {k[1] for k in self.node_obs if k[0] == vt}
        tag = st.gh.get(("tag", nid))
        for m in maps:
            c = tuple(sorted(((w[2], d) for w, d in got.items() if w[0] == "M" and w[1] == m), key=repr))
            self.node_obs.setdefault((vt, m), {}).setdefault((tag, c), (sp, st.copy()))
        if not maps:
            self.node_obs.setdefault((vt, None), {}).setdefault((tag, ()), (sp, st.copy()))
        for a in st.gh["accs"]:
            self.acc_node.setdefault((vt, a), {}).setdefault(got.get(("ACC", vt, a), 0), (sp, st.copy()))
        self.count("node-settled", "%s %s" % (self.T[vt]["s"], tag))

    def on_enum(self, st, nid, lo, hi):
        if not st.gh.get("nest"):
            return
        if lo is None or hi is None:
            self.und.append("an enumeration between bounds that are not known")
            return
        if not (self.ent_le(st, lo, N(0)) and self.ent_le(st, N(255), hi)):
            self.report("C20", "children-not-visited", st, "the traversal behind the statistics enumerates only some of a node's children")
        self.count("enumeration", self.site())
        st.gh["enum"] = ("open", nid)

    def on_empty(self, st, nid):
        if st.gh.get("nest") and st.gh["nest"][-1][0] == ("node", nid):
            st.gh["enum"] = ("done", nid)

    def on_enum_end(self, st, nid, lo, hi):
        if st.gh.get("nest") and st.gh.get("enum") == ("open", nid):
            st.gh["enum"] = ("done", nid)

    def on_kid(self, st, nid, c):
        if st.gh.get("nest") and not st.gh.get("err"):
            st.gh.pop(("tag", c), None)
            st.gh["kid"] = (nid, c, False)
            self.count("child", self.site())

    def on_kid_done(self, st, nid, lo):
        kid = st.gh.pop("kid", None)
        if kid is None or st.gh.get("err") or kid[0] != nid:
            return
        c = kid[1]
        n = st.nodes.get(c)
        if n is None:
            self.und.append("a child that is no longer tracked")
            return
        if len(n["up"]) < KEY:
            if not kid[2] and not st.unk:
                self.report("C20", "children-not-visited", st, "a sub-tree is passed over by the traversal behind the statistics")
            return
        got = self.gather(st, ("pay", c))
        vt = st.gh["vt"]
        self.count("entry-settled", self.T[vt]["s"])
        for a in st.gh["accs"]:
            self.acc_pay.setdefault((vt, a), {}).setdefault(got.get(("ACC", vt, a), 0), (getattr(self, "local_span", "-"), st.copy()))
        if any(w[0] == "M" for w in got):
            self.und.append("entries counted by level")

    # ------------------------------------------------------------ the result
    def result(self, st, v, key):
        self.count("result", self.p.fns[key]["path"])
        if st.gh.get("err"):
            self.und.append("a result after an abandoned traversal")

        def leaves(v, t, at):
            x = self.T[t]
            if x["k"] == "adt" and x.get("adt") == "struct" and x.get("local"):
                fs = self.p.fields(t)
                vs = v[2] if v is not None and v[0] == "A" and len(v[2]) == len(fs) else (None,) * len(fs)
                for i, (y, f) in enumerate(zip(vs, fs)):
                    yield from leaves(y, f, at + (i,))
            else:
                yield v, x, at
        for y, x, at in leaves(v, self.p.fns[key]["locals"][0], ()):
            if x["k"] == "uint":
                if y is not None and y[0] == "I" and not st.unk and not self.und:
                    self.report("C20", "not-counted", st, "the number of entries reported is a constant")
                elif y is not None and y[0] == "X" and y[1][0] == "acc":
                    self.results.append(("acc", y[1][1:], st.copy()))
                else:
                    self.und.append("where the number of entries comes from")
            elif (x.get("path") or "").startswith(HMAP + "HashMap"):
                if y == ("X", ("emptymap",)) and not self.und:
                    self.report("C20", "not-counted", st, "the statistics by level reported are empty")
                elif y is not None and y[0] == "X" and y[1][0] == "map":
                    self.results.append(("map", y[1][1], st.copy()))
                else:
                    self.und.append("where the statistics by level come from")
            else:
                self.und.append("a part of the result that is not understood: %s" % x["s"])

    def judge(self):
        self.classes = {}
        done = set()
        for kind, what, st in self.results:
            if (kind, what) in done:
                continue
            done.add((kind, what))
            if (kind, what) in self.carried:
                self.span, s = self.carried[(kind, what)]
                self.local_span = self.span
                self.report("C20", "carried-over", s, "a traversal begins with what an earlier one counted")
            if kind == "acc":
                if ("ACC",) + what in self.sets:
                    self.span, s = self.sets[("ACC",) + what]
                    self.local_span = self.span
                    self.report("C20", "not-added", s, "a counter is set to something that does not build on what was counted before")
                    continue
                pay, node = self.acc_pay.get(what, {}), self.acc_node.get(what, {})
                if not pay or not node:
                    self.und.append("entries met by the traversal")
                    continue
                if any(d != 0 for d in node):
                    self.und.append("a number of entries that is not counted entry by entry")
                    continue
                for d, (sp, s) in pay.items():
                    if s.unk:
                        self.und.append("counting that depends on what is not tracked")
                        continue
                    self.count("entry-amount", str(d))
                    if d == "?" or isinstance(d, tuple):
                        self.und.append("an amount added for an entry")
                    elif d != 1:
                        self.span = self.local_span = sp
                        self.report("C20", "entry-amount", s, "an entry is counted %s times in the number of entries" % d)
            else:
                self.judge_map(what, st)

    def judge_map(self, m, st):
        obs = self.node_obs.get((m[0], m), {})
        if not obs:
            self.und.append("nodes met by the traversal")
            return

        def bad(rule, sp, s, msg):
            self.span = self.local_span = sp
            self.report("C20", rule, s, msg)
        by = {}
        leafs = {p for (tag, c) in obs for p, d in c}
        for w, (sp, s) in self.sets.items():
            if w[0] == "M" and w[1] == m and (w[2] in leafs or any(w[2][:-1] == p[:-1] for p in leafs) and w[2][:-1]):
                bad("not-added", sp, s, "a counter is set to something that does not build on what was counted before")
                return
        for (tag, c), (sp, s) in sorted(obs.items(), key=lambda x: repr(x[0])):
            if s.unk:
                self.und.append("counting that depends on what is not tracked")
                continue
            if any(d == "?" or isinstance(d, tuple) and "?" in d for p, d in c):
                self.und.append("an amount added for a node")
                continue
            if not c:
                bad("node-not-counted", sp, s, "a node is not counted in the statistics")
                continue
            one = [p for p, d in c if d == 1]
            cnt = [p for p, d in c if d == "count"]
            if len(c) != 2 or len(one) != 1 or len(cnt) != 1:
                bad("node-amount", sp, s, "a node adds something other than one node and the number of its children to the statistics: %s" % [d for p, d in c])
                continue
            if one[0][:-1] != cnt[0][:-1]:
                bad("mixed-categories", sp, s, "a node and its children are counted in different categories")
                continue
            if tag is None:
                bad("one-category", sp, s, "nodes are counted without regard to their kind")
                continue
            by.setdefault(tag, {})[(one[0], cnt[0])] = (sp, s)
        names = [v["n"] for v in self.T[self.tag_ty]["variants"]] if self.tag_ty is not None else []
        for tag, ps in by.items():
            self.count("category", "%s: %s" % (names[tag], sorted(ps)))
            if len(ps) > 1:
                sp, s = sorted(ps.items(), key=repr)[0][1] if False else next(iter(ps.values()))
                bad("unstable-category", sp, s, "nodes of one kind are counted in different categories")
                continue
            (o, c), (sp, s) = next(iter(ps.items()))
            for t2, ps2 in by.items():
                if t2 < tag and len(ps2) == 1:
                    (o2, c2) = next(iter(ps2))
                    if o2[:-1] == o[:-1]:
                        bad("shared-category", sp, s, "nodes of kinds %s and %s are counted in the same category" % (names[t2], names[tag]))
                    elif o2[-1] != o[-1]:
                        bad("node-amount", sp, s, "for one kind the number of nodes and the number of children are swapped")
            self.classes[tag] = (m, o, c)
        if len(by) < len(names):
            self.und.append("kinds of nodes met (%d of %d)" % (len(by), len(names)))


def stats(path, key, name, max_states=400000):
    t = time.time()
    p = Prog(path)
    e = Stats(p, max_states=max_states, deadline=t + 500)
    e.opname = name
    r = dict(root=p.fns[key]["path"], error=None, name=name)
    run = e.run_root

    def both(k):
        run(k)
        e.stack = [k]
        e.judge()
        e.stack = []
    e.run_root = both
    finish(e, key, r, t)
    r["classes"] = getattr(e, "classes", {})
    r["tag_ty"] = e.tag_ty
    return r


# ---------------------------------------------------------------- what is printed

def fl(bits):
    import struct
    return Fraction(struct.unpack("<d", struct.pack("<Q", bits))[0])


class Printed(Walk):
    """the formatting of the statistics, for a map with two levels: every number printed, as a sum over the counters"""
    panic_prop = "C20"

    def __init__(self, prog, classes, **kw):
        super().__init__(prog, **kw)
        self.classes = classes
        self.printed = []
        self.whole = [("D", ("LV", 0)), ("D", ("LV", 1))]

    def panic(self, st, why):
        pass

    # numbers: ("Q", numerator, denominator), both sums of counters
    def q(self, v):
        if v is None:
            return None
        if v[0] == "Q":
            return v
        if v[0] == "I":
            return ("Q", self.poly({1: Fraction(v[1])}), self.poly({1: Fraction(1)}))
        if v[0] == "X":
            return ("Q", self.poly({v[1]: Fraction(1)}), self.poly({1: Fraction(1)}))
        return None

    def poly(self, d):
        return tuple(sorted(((k, x) for k, x in d.items() if x), key=repr))

    def times(self, a, b):
        d = {}
        for k, x in a:
            for l, y in b:
                if k != 1 and l != 1:
                    return None
                m = l if k == 1 else k
                d[m] = d.get(m, 0) + x * y
        return self.poly(d)

    def add(self, a, b, s=1):
        d = dict(a)
        for k, x in b:
            d[k] = d.get(k, 0) + s * x
        return self.poly(d)

    def konst(self, st, c):
        if self.T[c["t"]]["s"] == "f64" and "v" in c:
            return ("Q", self.poly({1: fl(c["v"])}), self.poly({1: Fraction(1)}))
        return super().konst(st, c)

    def cast(self, st, v, kind, tid, ft):
        if v is not None and v[0] in ("X", "Q", "I") and self.T[tid]["s"] in ("f64", "f32"):
            return self.q(v)
        if v is not None and v[0] == "Q":
            return v
        return super().cast(st, v, kind, tid, ft)

    def binop(self, st, op, a, b, tid, ft):
        if op.endswith("WithOverflow"):
            return ("A", 0, (self.binop(st, op[:-12], a, b, None, ft), FALSE))
        o = op.replace("Unchecked", "")
        if o in ("Add", "Sub", "Mul", "Div") and not (a is not None and b is not None and a[0] == b[0] == "I"):
            x, y = self.q(a), self.q(b)
            if x is None or y is None:
                return None
            one = self.poly({1: Fraction(1)})
            if o in ("Add", "Sub"):
                if not y[1]:
                    return x
                if not x[1] and o == "Add":
                    return y
                if x[2] == y[2]:
                    return ("Q", self.add(x[1], y[1], 1 if o == "Add" else -1), x[2])
                return None
            n, d = (self.times(x[1], y[1]), self.times(x[2], y[2])) if o == "Mul" else (self.times(x[1], y[2]), self.times(x[2], y[1]))
            if n is None or not d:
                return None
            if len(d) == 1 and d[0][0] == 1:
                return ("Q", self.times(n, self.poly({1: 1 / d[0][1]})), one)
            return ("Q", n, d)
        if o in ("Eq", "Ne", "Lt", "Le", "Gt", "Ge") and (a is not None and a[0] == "Q" or b is not None and b[0] == "Q"):
            return None
        return super().binop(st, op, a, b, tid, ft)

    def model(self, st, c, p, args, atys, rt):
        name = p.rsplit("::", 1)[-1]
        a0 = args[0] if args else None
        if p.startswith("core::fmt::rt::Argument"):
            if name.startswith("new_"):
                v = self.deref_all(st, a0)
                t = c.get("args") or [None]
                x = self.T[t[0]] if isinstance(t[0], int) else {}
                if x.get("k") in ("uint", "float") or x.get("s") in ("f64", "f32"):
                    self.count("printed", "%s %s" % (self.span, x["s"]))
                    self.printed.append((self.q(v), self.local_span if hasattr(self, "local_span") else self.span, st.copy(), x["s"]))
            return [(st, ANY)]
        if name in ("write_fmt", "write_str") and p.startswith("core::fmt::"):
            return [(st, ("A", 0, (UNIT,)))]
        if p.startswith(HMAP):
            m = self.deref_all(st, a0)
            if m is not None and m[0] == "X" and name in ("values", "into_values"):
                pt = self.p.pointee(next((self.p.fields(rt)[0],), None) if False else rt) if False else c["args"][1]
                for i, cell in enumerate(self.whole):
                    self.cell_ty[cell] = pt
                return [(st, ("IT", tuple(("R", cell, ()) for cell in self.whole)))]
            if m is not None and m[0] == "X" and name in ("iter",):
                pt = c["args"][1]
                out = []
                for i, cell in enumerate(self.whole):
                    self.cell_ty[cell] = pt
                    st.mem[("LK", i)] = ("X", ("levelkey", i))
                    out.append(("A", 0, (("R", ("LK", i), ()), ("R", cell, ()))))
                return [(st, ("IT", tuple(out)))]
            return [(st, None)]
        if name in ("iter", "iter_mut") and p.startswith("core::slice::") or name == "into_iter" and a0 is not None and a0[0] == "R":
            v = self.deref_all(st, a0)
            if v is not None and v[0] == "IT":
                if name == "into_iter" and not ((self.T[self.p.pointee(atys[0])].get("path") or "").endswith("Vec") or self.T[self.p.pointee(atys[0])]["k"] == "slice"):
                    return [(st, v)]
                for i, x in enumerate(v[1]):
                    st.mem[("VE", i)] = x
                return [(st, ("IT", tuple(("R", ("VE", i), ()) for i in range(len(v[1])))))]
        if name in ("collect", "from_iter", "into_iter", "by_ref") and a0 is not None:
            it = self.as_iter(st, a0, atys[0])
            if it is not None and it[0] == "IT" and (name != "collect" or (self.T[rt].get("path") or "").endswith("Vec")):
                return [(st, it if name != "by_ref" else a0)]
        if name == "fold" and "iterator" in p and a0 is not None:
            it = self.as_iter(st, a0, atys[0])
            outs, done, n = [(st, it, args[1])], [], 0
            while outs and n < 50:
                n += 1
                s, i, acc = outs.pop()
                for s2, j, x in self.next(s, i):
                    if x[1] == 0:
                        done.append((s2, acc))
                    else:
                        outs += [(s3, j, y) for s3, y in self.callv(s2, args[2], [acc, x[2][0]])]
            return done
        if name == "sum" and "iterator" in p and a0 is not None:
            it = self.as_iter(st, a0, atys[0])
            outs, done, n = [(st, it, N(0) if self.T[rt]["k"] == "uint" else self.q(N(0)))], [], 0
            while outs and n < 50:
                n += 1
                s, i, acc = outs.pop()
                for s2, j, x in self.next(s, i):
                    if x[1] == 0:
                        done.append((s2, acc))
                    else:
                        y = self.deref_all(s2, x[2][0])
                        outs.append((s2, j, self.binop(s2, "Add", acc, y, None, None)))
            return done
        if p.startswith("alloc::slice::") and name.startswith("sort") or p.startswith("core::slice::") and name.startswith("sort"):
            return [(st, UNIT)]
        if p in ("core::ops::deref::Deref::deref", "core::ops::deref::DerefMut::deref_mut") and a0 is not None and a0[0] == "R":
            v = self.deref_all(st, a0)
            if v is not None and v[0] == "IT":
                return [(st, a0)]
        if p == "core::mem::size_of" and isinstance(c["args"][0], int) and self.T[c["args"][0]].get("size"):
            return [(st, N(self.T[c["args"][0]]["size"]))]
        if p.startswith("core::alloc::layout::Layout::"):
            if name == "from_size_align" and args[0] is not None and args[0][0] == "I":
                return [(st, ("A", 0, (("LAY", args[0]),)))]
            if name == "from_size_align_unchecked" and args[0] is not None:
                return [(st, ("LAY", args[0]))]
            if name == "new" and isinstance((c.get("args") or [None])[0], int) and self.T[c["args"][0]].get("size"):
                return [(st, ("LAY", N(self.T[c["args"][0]]["size"])))]
            if name == "size":
                v = self.deref_all(st, a0)
                return [(st, v[1] if v is not None and v[0] == "LAY" else None)]
        if p in ("core::result::Result::<T, E>::unwrap", "core::result::Result::<T, E>::expect") and a0 is not None and a0[0] == "A" and a0[1] == 0:
            return [(st, a0[2][0])]
        return super().model(st, c, p, args, atys, rt)

    # ------------------------------------------------------------ judging
    def kinds_of(self):
        """tag -> (size, capacity): what the header asks the allocator for a node of that tag"""
        out = {}
        fns = [k for k, f in self.p.fns.items() if f.get("local") and "blocks" in f and f["argc"] == 1 and self.T[f["locals"][0]].get("path") == "core::alloc::layout::Layout"
               and (f["locals"][1] == self.tag_ty or self.p.pointee(f["locals"][1]) == self.tag_ty)]
        if len(fns) != 1:
            self.give("the layout of a node kind")
        for tag in self.classes:
            st = St()
            st.mem[("TAG",)] = ("A", tag, ())
            a = ("R", ("TAG",), ()) if self.T[self.p.fns[fns[0]]["locals"][1]]["k"] == "ref" else ("A", tag, ())
            self.stack = []
            vs = {v for s, v in self.run_fn(st, fns[0], [a])}
            v = vs.pop() if len(vs) == 1 else None
            if v is None or v[0] != "LAY" or v[1][0] != "I":
                self.give("the layout of a node kind")
            ks = [k for k in self.p.kinds.values() if k["size"] == v[1][1]]
            if len(ks) != 1:
                self.give("the node kind of a layout")
            out[tag] = (ks[0]["size"], ks[0]["cap"], ks[0]["name"])
        return out

    def judge(self):
        try:
            kinds = self.kinds_of()
        except Give as x:
            self.und.append(str(x))
            return
        where = {}
        for tag, (m, o, c) in self.classes.items():
            where[tuple(e[1] for e in o)] = (tag, "n")
            where[tuple(e[1] for e in c)] = (tag, "c")
        nlev = len(self.whole)

        def atoms(poly):
            """{(level, tag, what): coefficient} or None"""
            out = {}
            for k, x in poly:
                if isinstance(k, tuple) and k[0] == "in" and k[1] in self.whole and tuple(k[2]) in where:
                    out[(self.whole.index(k[1]),) + where[tuple(k[2])]] = x
                else:
                    return None
            return out
        full = {(l, t) for l in range(nlev) for t in kinds}

        def same(a, what, f):
            """all counters of one sort, each with the coefficient f says, up to a common factor"""
            if {k[2] for k in a} != {what} or {k[:2] for k in a} != full and {k[:2] for k in a} not in [{(l, t) for t in kinds} for l in range(nlev)]:
                return None
            r = {x / f(k[1]) for k, x in a.items()}
            return r.pop() if len(r) == 1 else None
        seen, levels = set(), {}
        for v, sp, st, ty in self.printed:
            if v is None:
                self.und.append("a number printed at %s" % sp)
                continue
            if (v, sp) in seen:
                continue
            seen.add((v, sp))
            num, den = atoms(v[1]), atoms(v[2]) if v[2] != ((1, Fraction(1)),) else {}
            if num is None or den is None or not num:
                continue
            levels.setdefault(sp, (set(), st))[0].update(k[0] for k in num)
            tags = {k[1] for k in num}
            sorts = {k[2] for k in num}

            def bad(rule, msg):
                self.span = self.local_span = sp
                self.report("C20", rule, st, msg)
            names = [kinds[t][2] for t in sorted(tags)]
            if not den:
                if len(tags) == 1:
                    continue
                self.count("total", "%s" % sp)
                if ty in ("f64", "f32"):
                    continue
                if same(num, "n", lambda t: 1) or same(num, "c", lambda t: 1) or same(num, "n", lambda t: kinds[t][0]):
                    continue
                if {k[:2] for k in num} != full and {k[:2] for k in num} not in [{(l, t) for t in kinds} for l in range(nlev)]:
                    bad("partial-total", "a total printed leaves out levels or kinds of nodes")
                elif sorts == {"n"}:
                    bad("wrong-size", "the memory printed does not add each kind's own size, nor is it the number of nodes")
                else:
                    bad("mixed-total", "a total printed mixes nodes and entries, or does not count all alike")
                continue
            self.count("load-factor", "%s" % sp)
            if sorts != {"c"}:
                self.und.append("a quotient printed at %s" % sp)
                continue
            if len(tags) == 1 and len(num) == 1 and len(den) == 1:
                (k, x), (l, y) = next(iter(num.items())), next(iter(den.items()))
                if l != (k[0], k[1], "n"):
                    bad("load-factor", "a load factor printed relates the children of %s to the nodes of another kind or level" % names[0])
                elif x / y not in (Fraction(1, kinds[k[1]][1]), Fraction(100, kinds[k[1]][1])):
                    bad("load-factor", "a load factor printed for %s is not relative to its capacity" % names[0])
                continue
            a = same(num, "c", lambda t: Fraction(1, kinds[t][1]))
            b = same(den, "n", lambda t: 1)
            if b is None and same(den, "n", lambda t: kinds[t][1]) and same(num, "c", lambda t: 1):
                continue
            if a is None:
                bad("load-factor", "the overall load factor printed does not weigh each kind by its own capacity")
            elif b is None or {k[:2] for k in num} != {k[:2] for k in den}:
                bad("load-factor", "the overall load factor printed is not relative to the number of nodes")
        for sp, (ls, st) in levels.items():
            if len(ls) < nlev:
                self.span = self.local_span = sp
                self.report("C20", "partial-total", st, "numbers are printed for some levels only")


def printed(path, key, name, max_states=200000):
    """the formatting of what `stats` returns"""
    t = time.time()
    r = stats(path, key, name)
    classes = r.get("classes")
    p = Prog(path)
    r2 = dict(root=p.fns[key]["path"] + " (printed)", error=None, name=name)
    if r["error"] or r["viol"] or not classes:
        r2.update(viol=[], ev={}, error="what is counted where is not known", states=0, returns=0, wall=0)
        return r2
    rt = p.fns[key]["locals"][0]
    ks = [l["key"] for l in p.local if l.get("trait") == "core::fmt::Display" and l["key"] in p.fns and p.pointee(p.fns[l["key"]]["locals"][1]) == rt]
    if len(ks) != 1:
        r2.update(viol=[], ev={}, error="the formatting of the statistics", states=0, returns=0)
        return r2
    e = Printed(p, classes, max_states=max_states, deadline=t + 600)
    e.opname = name
    e.tag_ty = r["tag_ty"]
    run = e.run_root

    def both(k):
        run(k)
        e.stack = [k]
        e.judge()
        e.stack = []
    e.run_root = both
    return finish(e, ks[0], r2, t)


if __name__ == "__main__":
    p = Prog(sys.argv[1])
    for k, n, f in roots(p):
        if n == "stats":
          for r in (stats(sys.argv[1], k, n), printed(sys.argv[1], k, n)):
            print(r["root"], r["error"], r["states"], r["returns"], r["wall"], {k: len(v) for k, v in r["ev"].items()})
            print(r.get("classes"), r["ev"].get("category"))
            for v in r["viol"]:
                print("   ", v["prop"], v["rule"], v["fn"], v["span"], v["msg"])
                for x in v["trace"][-12:]:
                    print("        ", x)
