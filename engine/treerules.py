"""Rules for the tree walks: which bytes lead where, what scans pass over, what emptiness and statistics see."""
from treelib import *
from roots import roots, SHAPES
import os
import sys
import time
import traceback

sys.setrecursionlimit(60000)
W = "w"            # number of entries written into the caller's buffer so far
LEN = "len"        # its length
KEEP = (W, LEN)


class Walk(Lib):
    tracking = False       # obligations: every child must be dealt with

    def __init__(self, prog, **kw):
        super().__init__(prog, **kw)
        self.memo = {}
        self.running = set()
        self.cell_ty = {}
        self.err_tys = self.error_types()
        self.counters = set()
        self.nrep = 0
        self.wbuf = None

    # ------------------------------------------------------------ anchors
    def error_types(self):
        """local enums without fields that say why an attempt was given up: error types of local functions"""
        out = set()
        for k, f in self.p.fns.items():
            if f.get("local") and "blocks" in f:
                x = self.T[f["locals"][0]]
                if x.get("path") == "core::result::Result":
                    e = self.p.fields(f["locals"][0], 1)[0]
                    y = self.T[e]
                    if y.get("adt") == "enum" and y.get("local") and all(not v["f"] for v in y["variants"]):
                        out.add(e)
        return out

    def rvalue(self, st, r, tid, d):
        v = super().rvalue(st, r, tid, d)
        if tid in self.err_tys and (r[0] == "agg" or r[0] == "use" and r[1][0] == "const"):
            self.fail(st)
        return v

    def fail(self, st):
        st.gh["err"] = True

    def operand(self, st, o, d):
        if o[0] == "const" and o[1]["const"]["t"] in self.err_tys:
            self.fail(st)
        return super().operand(st, o, d)

    # ------------------------------------------------------------ liveness
    def roots_gh(self, st):
        return [v for k, v in st.gh.items() if k != "lex"]

    def keep_nodes(self, st):
        return {o[0] for o in st.gh.get("ob", ())}

    def keep_syms(self, st):
        return set(KEEP)

    def coarse(self, st):
        """order between bytes is all that is kept"""
        z = st.z
        d = {}
        for (a, b), c in z.d.items():
            ka, kb = a == Z or a in KEEP or a[0] == "it", b == Z or b in KEEP or b[0] == "it"
            if a == LEN and b == Z:
                continue
            elif a == Z and b in KEEP:
                d[(a, b)] = 0
            elif a == W and b == LEN or a == LEN and b == W:
                if c <= 0:
                    d[(a, b)] = max(c, -1)
            elif ka and kb:
                d[(a, b)] = c
            elif (ka or kb) and a != Z and b != Z:
                continue
            elif a == Z or b == Z:
                x = a if b == Z else b
                if z.d.get((x, Z), INF) + z.d.get((Z, x), INF) == 0:
                    d[(a, b)] = c
                elif b == Z:
                    d[(a, b)] = max(c, 255)
                else:
                    d[(a, b)] = max(c, 0)
            elif c <= 0:
                d[(a, b)] = max(c, -1)
        z.d = d
        if st.ne:
            st.ne = frozenset(x for x in st.ne if not (x[2] == 0 and (d.get((x[0], x[1]), 0) < 0 or d.get((x[1], x[0]), 0) < 0)))

    def gc(self, st):
        super().gc(st)
        self.coarse(st)
        lex = st.gh.get("lex")
        if lex:
            live = set(st.z.s)
            lex2 = tuple(f for f in lex if all(x[0] == "I" or x[1] in live for x in f[0] + f[1]))
            if lex2:
                st.gh["lex"] = lex2
            else:
                del st.gh["lex"]

    def blank_gh(self, k, v, stale):
        if k in ("ob", "lex", "seen"):
            return tuple(x for x in v if not has(x, stale))
        return None

    def forget(self, st, lvl):
        self.leave(st, [o for o in st.gh.get("ob", ()) if o[0][0] == "c" and o[0][1] >= lvl])
        super().forget(st, lvl)

    def leave(self, st, obs):
        pass

    # ------------------------------------------------------------ recursion
    def reach(self, st, args):
        """cells and nodes an argument list gives access to"""
        cells, nodes, todo = [], [], list(args)
        while todo:
            v = todo.pop(0)
            if not isinstance(v, tuple):
                continue
            if v and v[0] in ("R", "SL") and len(v) >= 3 and isinstance(v[1], tuple):
                c = v[1]
                if c[0] == "N":
                    if c[1] not in nodes:
                        nodes.append(c[1])
                elif c not in cells:
                    cells.append(c)
                    if c in st.mem:
                        todo.append(st.mem[c])
                continue
            if v and v[0] in ("C", "PAY") and len(v) == 2 and isinstance(v[1], tuple):
                if v[1] not in nodes:
                    nodes.append(v[1])
                continue
            if v and v[0] == "KIDS":
                if v[1] not in nodes:
                    nodes.append(v[1])
            todo += [x for x in v if isinstance(x, tuple)]
        return cells, nodes

    def modular(self, st, key, args, atys):
        f = self.p.fns[key]
        self.before_call(st, args)
        cells, nodes = self.reach(st, args)
        cells = [c for c in cells if c[0] not in ("BUF",)]
        if any(n[0] == "f" for n in nodes):
            return self.plain_call(st, key, args)
        real, rargs, cback = st, args, {}
        st, args, cback = self.narrow(st, args, cells, nodes)
        ren = {}
        for i, c in enumerate(cells):
            if c[0] not in ("SELF", "ARG", "K"):
                ren[c] = ("P", i)
        # symbols: bytes of the paths by position, the others in order of appearance
        sym = {}

        def name(v, new):
            if isinstance(v, tuple):
                if v and v[0] == "Y" and len(v) == 3:
                    s = v[1]
                    if s not in sym and s not in KEEP and not (isinstance(s, tuple) and s[0] == "k"):
                        sym[s] = new if new is not None else ("x", len(sym))
                    return
                for x in v:
                    name(x, None)
        deep = sorted(nodes, key=lambda n: len(st.nodes[n].get("path") or st.nodes[n].get("up") or ()) if n in st.nodes else 0, reverse=True)
        for n in deep:
            if n in st.nodes:
                for i, b in enumerate(st.nodes[n].get("path") or st.nodes[n].get("up") or ()):
                    name(b, ("q", i) if ("q", i) not in sym.values() else None)
        for c in cells:
            name(st.mem.get(c), None)
        for a in args:
            name(a, None)

        def tr(v):
            if isinstance(v, tuple):
                if v and v[0] == "Y" and len(v) == 3:
                    return ("Y", sym.get(v[1], v[1]), v[2])
                if v and v[0] in ("R", "SL") and v[1] in ren:
                    v = (v[0], ren[v[1]]) + v[2:]
                return tuple(tr(x) if isinstance(x, tuple) else x for x in v)
            return v
        e = St()
        for c in cells:
            if c in st.mem:
                e.mem[ren.get(c, c)] = tr(st.mem[c])
        for n in nodes:
            if n in st.nodes:
                e.nodes[n] = {a: tr(b) if isinstance(b, tuple) else b for a, b in st.nodes[n].items()}
        keep = set(sym) | set(KEEP) | {s for s in st.z.s if isinstance(s, tuple) and s[0] == "k"}
        e.z = TZone()
        for (a, b), w in st.z.d.items():
            if (a in keep or a == Z) and (b in keep or b == Z):
                e.z.sym(sym.get(a, a))
                e.z.sym(sym.get(b, b))
                e.z.d[(sym.get(a, a), sym.get(b, b))] = w
        ne = set()
        for (a, b, c) in st.ne:
            if (a in keep or a == Z) and (b in keep or b == Z):
                a2, b2 = sym.get(a, a), sym.get(b, b)
                if repr((a2, 0)) > repr((b2, 0)):
                    a2, b2, c = b2, a2, -c
                ne.add((a2, b2, c))
        e.ne = frozenset(ne)
        e.unk = st.unk
        e.gh = {k: tr(v) if isinstance(v, tuple) else v for k, v in st.gh.items() if k not in ("ob", "lex", "merged")}
        mine = tuple(o for o in st.gh.get("ob", ()) if o[0] in nodes)
        if mine:
            e.gh["ob"] = tr(mine)
        lex = tuple(sorted({(tr(a), tr(b), s) for a, b, s in st.gh.get("lex", ()) if all(x[0] == "I" or x[1] in keep for x in a + b)}, key=repr))
        if lex:
            e.gh["lex"] = lex
        eargs = tuple(tr(a) for a in args)
        e.gh["args"] = eargs
        # roots for the collection: pretend the arguments are locals
        e.mem[("L", -1, 0)] = ("A", 0, eargs)
        self.gc(e)
        mk = (key, self.key(e))
        del e.mem[("L", -1, 0)]
        del e.gh["args"]
        if mk not in self.memo:
            if mk in self.running:
                self.report(self.panic_prop, "endless", st, "the recursion does not get any further down the tree")
                self.give("endless recursion")
            self.running.add(mk)
            save = self.stack, self.span, getattr(self, "fn", None), getattr(self, "local_span", "-")
            self.stack = []
            self.count("summary", f["path"])
            e.tr = st.tr
            e.note("%s: call of %s" % (self.span, f["path"].rsplit("::", 1)[-1]))
            try:
                outs = self.run_fn(e, key, list(eargs))
                res, seen = [], set()
                for s, v in outs:
                    self.stack = [key]
                    self.local_span = f.get("span", "-")
                    self.span = f.get("span", "-")
                    self.at_exit(s, nodes, {o[0] for o in mine if len(o) == 3})
                    cellsv = tuple(sorted(((c, x) for c, x in s.mem.items() if c[0] in ("P", "SELF", "ARG")), key=repr))
                    ws = tuple(sorted(((k, w) for k, w in s.z.d.items() if k[0] in KEEP + (Z,) and k[1] in KEEP + (Z,)), key=repr))
                    gh = {k: x for k, x in s.gh.items() if k not in ("lex", "merged")}
                    kk = (cellsv, v, ws, tuple(sorted(gh.items(), key=repr)), s.unk)
                    if kk not in seen:
                        seen.add(kk)
                        res.append((cellsv, v, ws, gh, s.unk))
                # an outcome that may have added to the results covers the same one that did not
                rest = lambda r: (r[0], r[1], r[2], tuple(sorted(((k, x) for k, x in r[3].items() if k != "wr"), key=repr)), r[4])
                wrote = {rest(r) for r in res if r[3].get("wr")}
                self.memo[mk] = [r for r in res if r[3].get("wr") or rest(r) not in wrote]
            finally:
                self.stack, self.span, self.fn, self.local_span = save
                self.running.discard(mk)
        back = {v: k for k, v in sym.items()}
        rback = {v: k for k, v in ren.items()}
        st, args = real, rargs

        def bk(v):
            if isinstance(v, tuple):
                if v and v[0] == "Y" and len(v) == 3:
                    s = v[1]
                    if s in KEEP:
                        return v
                    if not (isinstance(s, tuple) and s[0] == "k"):
                        if s not in back:
                            return None
                        s = back[s]
                    if s in cback:
                        return self.plus(cback[s], N(v[2])) if v[2] else cback[s]
                    return ("Y", s, v[2])
                if v and v[0] in ("R", "SL") and isinstance(v[1], tuple) and v[1][0] == "P":
                    v = (v[0], rback[v[1]]) + v[2:]
                if v and v[0] in ("R", "SL") and isinstance(v[1], tuple) and v[1][0] in ("L", "FA", "CLO", "PK") and v[1] not in rback.values():
                    return None
                if v and v[0] in ("C", "PAY") and v[1] not in st.nodes:
                    return None
                return tuple(bk(x) if isinstance(x, tuple) else x for x in v)
            return v
        out = []
        for cellsv, v, ws, gh, unk in self.memo[mk]:
            s = st.copy()
            same = gh.get("wr") is False
            # other copies of the counter are out of date
            for c in list(s.mem):
                if not same and s.mem[c] is not None and c not in cells and has(s.mem[c], lambda q: q[:2] == ("Y", W)):
                    s.mem[c] = self.blank(s.mem[c], lambda q: q[:2] == ("Y", W))
            for c, x in cellsv:
                c2 = rback.get(c, c)
                if c[0] == "P" or c in st.mem or True:
                    s.mem[c2] = bk(x)
            full = W in s.z.s and LEN in s.z.s and s.z.ub(LEN, W) <= 0 and not gh.get("ws") and not gh.get("err")
            if not same:
                s.z.keep([x for x in s.z.s if x != W])
            try:
                for (a, b), w in ws:
                    s.z.add(a, b, w)
                if full:
                    s.z.add(LEN, W, 0)
            except Infeasible:
                continue
            rest = tuple(o for o in st.gh.get("ob", ()) if o not in mine)
            if gh.get("err"):
                rest = ()
            lex = s.gh.get("lex")
            s.gh = {k: bk(x) if isinstance(x, tuple) else x for k, x in gh.items()}
            for k in ("wr", "ws"):
                if k in gh:
                    s.gh[k] = st.gh.get(k, False) or gh[k]
            ob = rest + s.gh.pop("ob", ())
            if any(o is None or o[1] is None for o in ob):
                self.give("what is left of a node is not known")
            for k in ("start", "end"):
                if k in st.gh:
                    s.gh[k] = st.gh[k]
            if ob:
                s.gh["ob"] = tuple(sorted(set(ob), key=repr))
            if lex:
                s.gh["lex"] = lex
            if gh.get("err") and not st.gh.get("err") and "start" in st.gh:
                # given up inside: what the caller learnt goes as well
                s.gh["err"] = False
                self.fail(s)
            s.unk = s.unk or unk
            s.note("%s: %s returns" % (self.span, f["path"].rsplit("::", 1)[-1]))
            out.append((s, bk(v)))
        return out

    def narrow(self, st, args, cells, nodes):
        return st, args, {}

    def plain_call(self, st, key, args):
        if self.stack.count(key) > KEY + 1:
            self.give("recursion")
        return self.run_fn(st, key, args)

    def before_call(self, st, args):
        pass

    def at_exit(self, st, nodes, under_way):
        pass

    # ------------------------------------------------------------ roots
    def start(self, key):
        st = St()
        f = self.p.fns[key]
        args = []
        for i, t in enumerate(f["locals"][1:1 + f["argc"]]):
            x = self.T[t]
            if i == 0 and x["k"] == "ref":
                self.cell_ty[("SELF",)] = x["to"]
                args.append(("R", ("SELF",), ()))
            elif x["k"] == "ref" and self.T[x["to"]]["k"] == "slice":
                self.num(st, LEN)
                self.num(st, W)
                st.z.add(W, Z, 0)
                args.append(("SL", ("BUF",), (), 0, ("Y", LEN, 0)))
                self.buf_ty = self.T[x["to"]]["to"]
                self.wbuf = True
            elif x["k"] == "ref":
                st.mem[("ARG", i)] = ("X", ("arg", i))
                args.append(("R", ("ARG", i), ()))
            else:
                args.append(("X", ("arg", i)))
        return st, args

    def run_root(self, key):
        self.root = self.p.fns[key]["path"]
        self.memo, self.running = {}, set()
        st, args = self.start(key)
        self.begin(st)
        self.stack = []
        n = 0
        for s, v in self.run_fn(st, key, args):
            self.stack = [key]
            self.span = self.local_span = self.p.fns[key].get("span", "-")
            self.result(s, v, key)
            n += 1
        self.stack = []
        self.returns = n

    def begin(self, st):
        pass

    def result(self, st, v, key):
        pass


# ---------------------------------------------------------------- single keys

def show(v):
    if v is None:
        return "?"
    if v[0] == "I":
        return str(v[1])
    if v[0] == "Y":
        s = v[1]
        if isinstance(s, tuple) and s[0] == "k":
            n = "byte %d of %s" % (s[2], "argument %d" % s[1] if isinstance(s[1], int) else "another number")
        else:
            n = "byte %s" % "".join(str(x) for x in s) if isinstance(s, tuple) else str(s)
        return n + ("%+d" % v[2] if v[2] else "")
    return v[0]


class Point(Walk):
    """operations on one key: argument 1"""
    panic_prop = "C17"

    def begin(self, st):
        st.gh["absent"] = False

    def kb(self, i):
        return ("Y", ("k", 1, i), 0)

    def agrees(self, st, path):
        """do these bytes begin the key: True, False, or None"""
        if path is None or any(b is None for b in path):
            return None
        for i, b in enumerate(path):
            self.byte(st, ("k", 1, i))
        return all(self.ent_eq(st, b, self.kb(i)) for i, b in enumerate(path))

    def foreign(self, path):
        """bytes of some key, all of them at another place than their own or of another number"""
        ks = [b[1][1] == 1 and b[1][2] == i for i, b in enumerate(path) if b is not None and b[0] == "Y" and isinstance(b[1], tuple) and b[1][0] == "k"]
        fixed = [b for b in path if b is not None and b[0] == "I"]
        return len(ks) > 1 and not any(ks) or len(fixed) > 1

    def wrong(self, st, rule, msg, path):
        if st.unk:
            self.und.append(msg)
            return
        self.report("C17", rule, st, msg)
        if self.foreign(path):
            self.report("C08", "key-bytes", st, msg)

    def touch_root(self, st):
        st.gh["absent"] = False

    def on_lookup(self, st, nid, b):
        if nid == ("root",):
            self.touch_root(st)
        self.count("lookup", self.site())

    def on_absent(self, st, nid, b):
        n = st.nodes[nid]
        if not n["fresh"] and self.agrees(st, tuple(n["path"]) + (b,)):
            st.gh["absent"] = True

    def on_empty(self, st, nid):
        n = st.nodes.get(nid)
        if n is not None and not n["fresh"] and n["L"] is not None and self.agrees(st, n["path"]):
            st.gh["absent"] = True

    def learn(self, st, a, b):
        for x, y in ((a, b), (b, a)):
            if y[0] == "Y" and isinstance(y[1], tuple) and y[1][0] == "k" and y[1][1] == 1 and y[2] == 0 and self.ent_ne(st, x, y):
                i = y[1][2]
                for n in st.nodes.values():
                    if not n["fresh"] and n["L"] is not None and len(n["path"]) > i and n["path"][i] == x and self.agrees(st, n["path"][:i]):
                        st.gh["absent"] = True

    def word_of(self, st, w, opnd=None):
        """what a child word is: ('node', id), ('entry', id or None) or None"""
        if w is None:
            return None
        if w[0] == "C":
            n = st.nodes.get(w[1])
            if n is None:
                return None
            return ("entry", w[1]) if len(n.get("up", ())) >= KEY else ("node", w[1])
        if w[0] == "U":
            nid = self.node_id(st, w[2])
            if nid is not None:
                return ("node", nid)
            if w[2] is not None and w[2][0] == "C":
                return self.word_of(st, w[2])
            return ("entry", None) if w[1] == "value" else None
        nid = self.node_id(st, w)
        if nid is not None:
            return ("node", nid)
        if w[0] in ("X", "PAY", "I"):
            return ("entry", w[1] if w[0] == "PAY" else None)
        return None

    def on_link(self, st, nid, b, w, how):
        self.count("link", self.site())
        n = st.nodes[nid]
        path = self.path_of(st, nid)
        kind = self.word_of(st, w)
        if path is None or b is None or kind is None or any(x is None for x in path):
            self.und.append("a child is added that is not understood at %s" % self.span)
            return
        full = tuple(path) + (b,)
        L = len(path)
        if not n["fresh"]:
            self.where(st, full, "a child is set under %s of a node with %d path bytes, which is not where the key belongs" % (show(b), L))
        if kind[0] == "entry":
            if L != KEY - 1:
                self.wrong(st, "entry-level", "a value is stored under byte %d of the key, not under the last one" % L, full)
            elif kind[1] is not None:
                up = st.nodes[kind[1]]["up"]
                if not all(self.ent_eq(st, x, y) for x, y in zip(up, full)):
                    self.wrong(st, "entry-moved", "an entry is moved to other key bytes", full)
            elif n["fresh"]:
                self.where(st, full, "a value is stored under bytes that are not the key's: %s" % ", ".join(map(show, full)))
            return
        c = kind[1]
        if c not in st.nodes:
            self.und.append("a child is added that is no longer tracked at %s" % self.span)
            return
        cp = self.path_of(st, c)
        if cp is None or any(x is None for x in cp):
            self.und.append("the path of a child is not known at %s" % self.span)
            return
        if len(cp) > KEY - 1:
            self.wrong(st, "path-length", "a node with %d path bytes is added" % len(cp), full)
        elif len(cp) <= L:
            self.wrong(st, "child-path", "a node with %d path bytes is put under a node with %d" % (len(cp), L), full)
        elif not all(self.ent_eq(st, x, y) for x, y in zip(cp, full)):
            bad = [i for i, (x, y) in enumerate(zip(cp, full)) if not self.ent_eq(st, x, y)]
            self.wrong(st, "child-path", "byte %d of the path of a node put below another one is %s, but it is put under %s" % (bad[0], show(cp[bad[0]]), show(full[bad[0]])), cp)
        if st.nodes[c]["fresh"]:
            st.nodes[c] = dict(st.nodes[c], linked=True)

    def where(self, st, full, msg):
        a = self.agrees(st, full)
        if a is None:
            self.und.append(msg)
        elif not a:
            self.wrong(st, "wrong-place", msg, full)

    def on_copy(self, st, src, dst):
        super().on_copy(st, src, dst)
        a, b = self.path_of(st, src), self.path_of(st, dst)
        self.count("copy", self.site())
        if a is None or b is None or any(x is None for x in tuple(a) + tuple(b)):
            self.und.append("a copy of children between nodes whose paths are not known")
        elif len(a) != len(b) or not all(self.ent_eq(st, x, y) for x, y in zip(a, b)):
            self.wrong(st, "copied-path", "children are copied to a node with another path (%d bytes instead of %d)" % (len(b), len(a)), b)

    def on_remove(self, st, nid, b):
        self.count("unlink", self.site())
        n = st.nodes[nid]
        path = self.path_of(st, nid)
        if path is None or b is None:
            self.und.append("a removal that is not understood")
            return
        if not n["fresh"]:
            self.where(st, tuple(path) + (b,), "the child under %s of a node with %d path bytes is removed, which is not where the key belongs" % (show(b), len(path)))

    def store(self, st, cell, path, v):
        super().store(st, cell, path, v)
        if cell[0] == "N" and cell[1] in st.nodes and not st.nodes[cell[1]]["fresh"] and st.nodes[cell[1]]["L"] is not None and not any(e[0] == "kf" for e in path):
            n = st.nodes[cell[1]]
            if getattr(self, "in_path", False):
                return
            self.in_path = True
            try:
                s = st.copy()
                save = self.stack, self.span, self.fn
                self.stack = list(self.stack)
                try:
                    vals = {tuple(self.seq(s2, w) or ("?",)) for s2, w in self.run_fn(s, self.pathfn, [("R", cell, ())])}
                finally:
                    self.stack, self.span, self.fn = save
            finally:
                self.in_path = False
            for w in vals:
                if w != tuple(n["path"]):
                    if "?" in w or None in w:
                        self.und.append("a node of the tree is written to in a way that is not understood")
                    else:
                        self.wrong(st, "path-changed", "the path recorded in a node of the tree is changed", w)

    def payload(self, st, v):
        """entries a result is made of"""
        out = []

        def scan(x):
            if isinstance(x, tuple):
                if len(x) == 2 and x[0] == "PAY" and isinstance(x[1], tuple):
                    out.append(x[1])
                for y in x:
                    scan(y)
        scan(v)
        return out

    def result(self, st, v, key):
        name = self.opname
        self.count("result", name)
        for c in self.payload(st, v):
            n = st.nodes.get(c)
            if n is None:
                self.und.append("the entry a result comes from is not known")
                continue
            a = self.agrees(st, n["up"])
            if a is None:
                self.und.append("the path of the entry a result comes from is not known")
            elif not a:
                bad = [i for i, b in enumerate(n["up"]) if not self.ent_eq(st, b, self.kb(i))]
                self.wrong(st, "other-key", "the result is the value of an entry whose byte %d is %s: it was not compared with the key" % (bad[0], show(n["up"][bad[0]])), n["up"])
            else:
                self.count("result-path", name)
        if name in ("get", "remove", "compute_if_present") and v == NONE:
            if not st.gh.get("absent"):
                if st.unk:
                    self.und.append("a miss that is not understood")
                else:
                    self.wrong(st, "false-miss", "the key is reported missing although its own path was not seen to end", tuple(st.gh.get("lastpath", ())))
            else:
                self.count("miss", name)

    def user_call(self, st, fv, args):
        st.note("%s: the caller's closure runs" % self.span)
        return [(st, ("X", ("user", self.span)))]


class Scan(Walk):
    """range scans: argument 1 is the lower bound, argument 2 the upper one, a slice takes the results"""
    panic_prop = "C13"
    key_args = (1, 2)
    track = True           # follow what is still owed to the nodes begun
    loose = False          # forget what is only half known about a path when it is passed down

    def begin(self, st):
        st.gh["start"] = tuple(self.byte(st, ("k", 1, i)) for i in range(KEY))
        st.gh["end"] = tuple(self.byte(st, ("k", 2, i)) for i in range(KEY))
        self.num(st, LEN)
        self.num(st, W)
        st.z.add(W, Z, 0)
        self.put_ob(st, ((("root",), N(0)),))
        st.gh["err"] = st.gh["wr"] = st.gh["ws"] = False
        self.root_node(st)
        self.cls = self.counter_class()
        if self.wbuf is None:
            raise Missing("a slice for the results of the scan")
        kt = self.p.fields(self.buf_ty)
        self.decode = bool(kt) and self.T[kt[0]]["k"] == "uint"

    def narrow(self, st, args, cells, nodes):
        """what a recursive call has to know about a path is how it compares with the bounds, not where it parts from them"""
        real = st, args, {}
        deep = [n for n in nodes if n in st.nodes]
        path = max((tuple(st.nodes[n].get("path") or st.nodes[n].get("up") or ()) for n in deep), key=len, default=())
        n = len(path)
        z = st.z
        st = st.copy()
        for k in ("wr", "ws"):
            st.gh[k] = False
        if (W, Z) in st.z.d or (LEN, W) in st.z.d:
            fits = st.z.ub(W, LEN)
            if fits <= 0:
                st.z.d[(W, LEN)] = fits
            st.z.d.pop((W, Z), None)
            st.z.d.pop((LEN, W), None)
        if st.gh.get("err"):
            return st, args, {}
        plain = st, args, {}
        if not n or any(b is None or b[0] != "Y" or b[2] != 0 for b in path) or len(set(path)) < n:
            return plain
        now = [tuple(st.gh["start"]), tuple(st.gh["end"])]

        def rel(b):
            b = b[:n]
            if all(x == y for x, y in zip(path, b)):
                return 0
            if self.lex_known(st, b, path, True):
                return 1
            if self.lex_known(st, path, b, True):
                return -1
            return None
        rs, re = rel(now[0]), rel(now[1])
        if self.loose and (rs is None or re is None):
            rs = re = None
        if (rs is None or re is None) and not self.loose or rs == 0 and re == 0:
            return plain
        orig = [tuple(("Y", ("k", f, i), 0) for i in range(KEY)) for f in self.key_args]
        new = orig[0][:n] if rs == 0 else orig[1][:n] if re == 0 else tuple(("Y", ("cq", i), 0) for i in range(n))
        # other values must not mention bytes of the bounds
        arrs = {("A", 0, now[0]): ("A", 0, ("start",)), ("A", 0, now[1]): ("A", 0, ("end",))}
        m = {a: b for a, b in zip(path, new)}
        marks = {}
        syms = {b[1] for a in now for b in a if b[0] == "Y"} - {b[1] for b in path}
        bad = lambda q: q[:1] == ("Y",) and len(q) == 3 and q[1] in syms
        pats = {}

        def conv(v):
            if isinstance(v, tuple):
                if v == ("A", 0, now[0]):
                    return ("A", 0, orig[0])
                if v == ("A", 0, now[1]):
                    return ("A", 0, orig[1])
                if v in m:
                    return m[v]
                if bad(v):
                    raise KeyError
                if len(v) == 3 and v[0] == "Y" and ("Y", v[1], 0) in m:
                    return self.plus(m[("Y", v[1], 0)], N(v[2]))
                return tuple(conv(x) if isinstance(x, tuple) else x for x in v)
            return v
        try:
            mem = {c: conv(st.mem[c]) for c in cells if c in st.mem}
            nargs = [conv(a) for a in args]
            nds = {x: {a: conv(b) if isinstance(b, tuple) else b for a, b in st.nodes[x].items()} for x in deep}
            gh = {k: conv(v) if isinstance(v, tuple) else v for k, v in st.gh.items() if k not in ("lex", "start", "end", "ob")}
            gh["ob"] = conv(tuple(o for o in st.gh.get("ob", ()) if o[0] in nodes))
            if not gh["ob"]:
                del gh["ob"]
        except KeyError:
            return plain
        cback = {b[1]: a for a, b in zip(path, new)}
        for a, b in zip(orig + [new], now + [path]):
            for x, y in zip(a, b):
                cback[x[1]] = y
        out = st.copy()
        out.mem, out.nodes, out.gh = mem, nds, gh
        gh["start"], gh["end"] = orig
        byts = [x for x in out.z.s if isinstance(x, tuple)]
        gone = {b[1] for a in now + [path] for b in a if b[0] == "Y"} | {b[1] for a in orig for b in a}
        out.z.keep([x for x in out.z.s if x not in gone])
        out.ne = frozenset(x for x in out.ne if x[0] not in gone and x[1] not in gone)
        for a in orig + [new]:
            for b in a:
                self.byte(out, b[1])
        lex = set()
        if rs:
            lex.add((orig[0][:n], new, True) if rs == 1 else (new, orig[0][:n], True))
        if re:
            lex.add((orig[1][:n], new, True) if re == 1 else (new, orig[1][:n], True))
        if self.lex_known(st, now[0], now[1], True):
            lex.add((orig[0], orig[1], True))
        gh["lex"] = tuple(sorted(lex, key=repr))
        self.count("canonical-entry", self.site())
        return out, nargs, cback

    # ------------------------------------------------------------ the counter
    def counter_class(self):
        """places whose value reaches an index into the results"""
        p, T = self.p, self.T
        fns = {k: f for k, f in p.fns.items() if f.get("local") and "blocks" in f}
        elem = {self.buf_ty}
        for i, x in enumerate(T):
            # the same pairs with the key still in bytes
            if x["k"] == "tuple" and len(x.get("f", [])) == 2 and T[x["f"][0]]["k"] in ("array", "uint") and T[x["f"][1]]["k"] == "uint":
                elem.add(i)
        seqs = {i for i, x in enumerate(T) if x["k"] in ("slice", "array") and x.get("to") in elem}
        cls = set()

        def isbuf(t):
            d = 0
            while t is not None and d < 4:
                if t in seqs:
                    return True
                t = T[t].get("to") if T[t]["k"] in ("ref", "ptr") else None
                d += 1
            return False

        def place(k, f, pl):
            t = f["locals"][pl[0]]
            out = ("L", k, pl[0])
            for e in pl[1]:
                if e[0] == "f":
                    out = ("F", t, e[1])
                    t = e[2]
                elif e[0] == "deref":
                    t = T[t].get("to") if T[t]["k"] in ("ref", "ptr") else p.pointee(t)
                elif e[0] in ("i", "ci"):
                    t = T[t].get("to") if t is not None else None
                    out = ("?",)
                elif e[0] == "v":
                    pass
            return out

        def opnd(k, f, o):
            return place(k, f, o[1]) if o[0] in ("copy", "move") else None
        for k, f in fns.items():
            for b in f["blocks"]:
                pls = []
                for s in b["s"]:
                    if s[0] == "=":
                        pls.append(s[1])
                        pls += [s[2][2]] if s[2][0] == "ref" else []
                        pls += [o[1] for o in s[2][1:] if isinstance(o, list) and len(o) > 1 and o[0] in ("copy", "move")]
                for pl in pls:
                    t = f["locals"][pl[0]]
                    for e in pl[1]:
                        if e[0] == "i" and isbuf(t):
                            cls.add(("L", k, e[1]))
                        if e[0] == "f":
                            t = e[2]
                        elif e[0] == "deref":
                            t = T[t].get("to") if T[t]["k"] in ("ref", "ptr") else p.pointee(t)
                        elif e[0] in ("i", "ci"):
                            t = T[t].get("to") if t is not None else None
                t = b["t"]
                if t[0] == "call" and len(t[2]) == 2:
                    c = p.callee(t[1])
                    if c and c["path"].rsplit("::", 1)[-1] in ("index_mut", "index", "get_mut", "get_unchecked_mut") and t[2][0][0] in ("copy", "move") and isbuf(t[2][0][1][2]):
                        x = opnd(k, f, t[2][1])
                        if x and T[t[2][1][1][2]]["k"] == "uint":
                            cls.add(x)
        grew = True
        while grew:
            n = len(cls)
            for k, f in fns.items():
                for b in f["blocks"]:
                    for s in b["s"]:
                        if s[0] != "=":
                            continue
                        dst, r = place(k, f, s[1]), s[2]
                        if dst not in cls:
                            continue
                        src = []
                        if r[0] == "use":
                            src = [r[1]]
                        elif r[0] == "bin" and r[1].startswith("Add"):
                            src = [r[2]]
                        elif r[0] == "ref":
                            cls.add(place(k, f, r[2]))
                        elif r[0] == "cast":
                            src = [r[2]]
                        for o in src:
                            x = opnd(k, f, o)
                            if x and x[0] != "?":
                                cls.add(x)
                    for s in b["s"]:
                        # a pair made by a checked addition
                        if s[0] == "=" and s[2][0] == "bin" and s[2][1] == "AddWithOverflow" and ("F", f["locals"][s[1][0]], 0) in cls:
                            x = opnd(k, f, s[2][2])
                            if x and x[0] != "?":
                                cls.add(x)
                    t = b["t"]
                    if t[0] == "call":
                        c = p.callee(t[1])
                        key = c.get("key") if c else None
                        if key in fns:
                            for i, o in enumerate(t[2]):
                                if ("L", key, i + 1) in cls:
                                    x = opnd(k, f, o)
                                    if x and x[0] != "?":
                                        cls.add(x)
                            if place(k, f, t[3]) in cls:
                                cls.add(("L", key, 0))
            grew = len(cls) > n
        self.place_of = place
        return cls

    def assign(self, st, pl, v, d):
        if v == N(0):
            if self.place_of(self.stack[-1], self.fn, pl) in self.cls:
                v = self.reset(st)
        super().assign(st, pl, v, d)

    def rvalue(self, st, r, tid, d):
        v = super().rvalue(st, r, tid, d)
        if r[0] == "agg" and v is not None and v[0] == "A" and any(x == N(0) for x in v[2]):
            fs = list(v[2])
            for i, x in enumerate(fs):
                if x == N(0) and ("F", tid, i) in self.cls:
                    fs[i] = self.reset(st)
            v = (v[0], v[1], tuple(fs))
        if r[0] == "use" and r[1][0] == "const" and v == N(0) and False:
            v = self.reset(st)
        return v

    def reset(self, st):
        """the number of results is set to 0"""
        if not self.ent_le(st, ("Y", W, 0), N(0)):
            if not st.gh.get("err"):
                self.say(st, "C16", "results-dropped", "the results collected so far are dropped although the attempt was not given up")
            f = lambda q: q[:2] == ("Y", W)
            for c, v in list(st.mem.items()):
                if v is not None and has(v, f):
                    st.mem[c] = self.blank(v, f)
            st.z.keep([x for x in st.z.s if x != W])
            self.num(st, W)
            st.z.add(W, Z, 0)
            st.gh["wr"] = st.gh["ws"] = True
        return ("Y", W, 0)

    def unify(self, st, a, b):
        if a in KEEP or b in KEEP:
            return
        super().unify(st, a, b)

    def say(self, st, prop, rule, msg):
        if st.unk:
            self.und.append(msg)
            return
        self.report(prop, rule, st, msg)
        for v in st.mem.values():
            if v is not None and has(v, self.mixed):
                self.report("C08", "key-bytes", st, "the bytes of a bound are used in another order than those of the keys: " + msg)
                break

    def mixed(self, q):
        """an array with the bytes of a number in another order, or of another number than the bounds"""
        if len(q) != 3 or q[0] != "A" or not isinstance(q[2], tuple) or len(q[2]) != KEY:
            return False
        ks = [b[1] for b in q[2] if isinstance(b, tuple) and b[:1] == ("Y",) and isinstance(b[1], tuple) and b[1][0] == "k"]
        return len(ks) > 1 and all(k[2] != i or k[1] not in self.key_args for i, k in enumerate(ks))

    # ------------------------------------------------------------ obligations
    def fail(self, st):
        """the attempt is given up: nothing learnt in it matters any more"""
        if st.gh.get("err"):
            return
        st.gh["err"] = st.gh["wr"] = st.gh["ws"] = True
        st.gh.pop("ob", None)
        orig = [tuple(("Y", ("k", f, i), 0) for i in range(KEY)) for f in self.key_args]
        now = [st.gh["start"], st.gh["end"]]
        if now[0] != now[1]:
            m = {("A", 0, a): ("A", 0, b) for a, b in zip(now, orig) if a != b}
            if m:
                st.mem = {c: swap(v, m) for c, v in st.mem.items()}
            st.gh["start"], st.gh["end"] = orig
            ordered = self.lex_known(st, now[0], now[1], True)
            empty = self.ent_le(st, ("Y", W, 0), N(0))
            st.z.keep(())
            self.num(st, LEN)
            self.num(st, W)
            if empty:
                st.z.add(W, Z, 0)
            st.ne = frozenset()
            st.gh.pop("lex", None)
            if ordered:
                st.gh["lex"] = ((orig[0], orig[1], True),)
            for a in orig:
                for b in a:
                    self.byte(st, b[1])
            stale = lambda q: q[:1] == ("Y",) and len(q) == 3 and isinstance(q[1], tuple) and q[1][0] not in ("k", "it")
            for c, v in list(st.mem.items()):
                if v is not None and c[0] == "L" and has(v, stale):
                    st.mem[c] = self.blank(v, stale)

    def disjoint(self, st, prefix):
        """no key that begins like this is in range"""
        n = len(prefix)
        if any(b is None for b in prefix):
            return None
        lo, hi = tuple(st.gh["start"][:n]), tuple(st.gh["end"][:n])
        for b in prefix + lo + hi:
            if b[0] == "Y" and b[1] not in st.z.s:
                self.byte(st, b[1])
        if self.lexdec(st, prefix, lo) == -1 or self.lexdec(st, prefix, hi) == 1:
            return True
        if n == KEY and (self.lex_known(st, prefix, lo, True) or self.lex_known(st, hi, prefix, False)):
            return True
        if self.lex_known(st, st.gh["end"], st.gh["start"], False):
            return True
        return False

    def settled(self, st, o):
        """all that is left below a node lies outside the bounds, or there is no room for more"""
        if st.gh.get("err") or self.ent_le(st, ("Y", LEN, 0), ("Y", W, 0)):
            return True
        nid, rem = o[:2]
        n = st.nodes.get(nid)
        if n is None:
            return None
        path = n["path"] if n["L"] is not None else n["up"]
        if len(path) >= KEY or rem == N(0):
            return self.disjoint(st, tuple(path))
        if rem[0] == "I" and rem[1] > 255:
            return True
        s = st.copy()
        b = self.byte(s, ("rest",))
        x = self.lin(rem)
        try:
            s.z.add(x[0], b[1], -x[1])
            self.tighten(s)
        except Infeasible:
            return True
        return self.disjoint(s, tuple(path) + (b,))

    def drop_settled(self, st):
        ob = tuple(o for o in st.gh.get("ob", ()) if o[1] == N(0) or self.settled(st, o) is not True)
        self.put_ob(st, ob)

    def put_ob(self, st, ob):
        if ob and self.track:
            st.gh["ob"] = tuple(sorted(set(ob), key=repr))
        else:
            st.gh.pop("ob", None)

    def leave(self, st, obs):
        for o in obs:
            r = self.settled(st, o)
            if r is None:
                self.und.append("what is left of a node is not known at %s" % self.span)
            elif not r:
                n = st.nodes[o[0]]
                what = "an entry" if len(n["up"]) >= KEY else "a child with %d path bytes" % (n["L"] if n["L"] is not None else len(n["up"])) + ("" if o[1] == N(0) else ", from byte %s on," % show(o[1]))
                self.say(st, "C16", "skipped", "%s is passed over although keys in range may be below it" % what)
            else:
                self.count("passed-over", self.site())
        if obs:
            self.put_ob(st, tuple(o for o in st.gh.get("ob", ()) if o not in obs))

    def at_exit(self, st, nodes, under_way):
        # an enumeration the function began ends with it
        self.leave(st, [o for o in st.gh.get("ob", ()) if o[0] not in nodes or len(o) == 3 and o[0] not in under_way])
        self.put_ob(st, tuple(o for o in st.gh.get("ob", ()) if self.settled(st, o) is not True))

    def restart(self, st, nid):
        if nid != ("root",):
            return
        if st.gh.get("err"):
            st.gh["err"] = False
            self.put_ob(st, ((("root",), N(0)),))
            if not self.ent_le(st, ("Y", W, 0), N(0)):
                self.say(st, "C16", "results-kept", "the scan starts again without dropping the results of the attempt it gave up")

    def visit(self, st, nid, lo, hi):
        """the children of a node from lo to hi are looked at next"""
        self.restart(st, nid)
        self.count("visit", self.site())
        if st.gh.get("err") or not self.track:
            return
        n = st.nodes[nid]
        o = next((o for o in st.gh.get("ob", ()) if o[0] == nid and len(o) == 2), None)
        if lo is None or hi is None:
            self.und.append("an enumeration between bounds that are not known at %s" % self.span)
            return
        if o is None:
            r = self.settled(st, (nid, N(0)))
            if not r:
                self.say(st, "C16", "twice", "the children of a node are looked at a second time, or out of order")
            return
        rem = o[1]
        if not self.ent_le(st, rem, lo):
            s = st.copy()
            if self.settled(s, o) is not True and not (self.ent_le(st, hi, rem, -1) and False):
                self.say(st, "C16", "order", "children are looked at from %s on, after those up to %s" % (show(lo), show(rem)))
        # those between
        s = st.copy()
        b = self.byte(s, ("gap",))
        x, y = self.lin(rem), self.lin(lo)
        gap = True
        try:
            s.z.add(x[0], b[1], -x[1])
            s.z.add(b[1], y[0], y[1] - 1)
            self.tighten(s)
            if self.ent_le(s, lo, rem):
                gap = False
        except Infeasible:
            gap = False
        if gap and not self.ent_le(st, ("Y", LEN, 0), ("Y", W, 0)):
            r = self.disjoint(s, tuple(n["path"]) + (b,))
            if r is None:
                self.und.append("the path of a node is not known at %s" % self.span)
            elif not r:
                self.say(st, "C16", "skipped", "children below %s are passed over although keys in range may be below them" % show(lo))
        new = self.plus(hi, N(1))
        self.put_ob(st, tuple(q for q in st.gh.get("ob", ()) if q != o) + ((nid, new),))
        self.drop_settled(st)

    # an enumeration under way is an obligation of its own: (node, first byte not handed out yet, "open")
    def on_enum(self, st, nid, lo, hi):
        self.visit(st, nid, lo, hi)
        if not st.gh.get("err") and lo is not None:
            self.put_ob(st, tuple(o for o in st.gh.get("ob", ()) if o[0] != nid or len(o) == 2) + ((nid, lo, "open"),))

    def reopen(self, st, nid, rem):
        ob = st.gh.get("ob", ())
        old = next((o for o in ob if o[0] == nid and len(o) == 3), None)
        if old is not None:
            self.put_ob(st, tuple(o for o in ob if o != old) + (((nid, rem, "open"),) if rem is not None else ()))

    def on_enum_end(self, st, nid, lo, hi):
        self.reopen(st, nid, None)

    def on_lookup(self, st, nid, b):
        self.visit(st, nid, b, b)

    def on_kid(self, st, nid, c):
        if not st.gh.get("err"):
            self.put_ob(st, st.gh.get("ob", ()) + ((c, N(0)),))
            self.reopen(st, nid, self.plus(st.nodes[c]["up"][-1], N(1)))

    def on_kid_done(self, st, nid, lo):
        n = st.nodes.get(nid)
        self.reopen(st, nid, lo)
        if n is not None and n["L"] is not None:
            self.leave(st, [o for o in st.gh.get("ob", ()) if o[0][0] == "c" and o[0][1] >= n["L"]])

    # ------------------------------------------------------------ results
    def sub(self, st, v, e, cell, path, tid):
        return super().sub(st, v, e, cell, path, tid)

    def load(self, st, cell, path, tid):
        if cell == ("BUF",):
            if len(path) >= 1 and path[0][0] == "x":
                return ("X", ("buf",) + tuple(path))
            return None
        return super().load(st, cell, path, tid)

    def buffer_store(self, st, path, v):
        if not path or path[0][0] != "x":
            self.give("a store to the results that is not understood")
        i = path[0][1]
        if i is None or self.lin(i) is None:
            self.give("a store to an unknown place of the results")
        w = ("Y", W, 0)
        if len(path) == 2 and path[1] == ("f", 0) and v is not None and v[0] == "X" and has(v, lambda q: q[:1] == ("buf",)):
            return self.decoded(st, i, v)
        if not self.ent_le(st, i, ("Y", LEN, 0), -1):
            self.say(st, "C13", "outside-buffer", "a result is stored at an index that is not known to be below the length of the buffer")
        if st.gh.get("err"):
            self.count("store-after-failure", self.site())
        if len(path) == 2 and path[1][0] == "f" and path[1][1] in (0, 1):
            half = st.gh.get("half") or (i, None, None)
            if not self.ent_eq(st, half[0], i):
                self.say(st, "C13", "slot", "half a result is stored")
                half = (i, None, None)
            half = (i, v, half[2]) if path[1][1] == 0 else (i, half[1], v)
            if half[1] is None or half[2] is None:
                if v is None:
                    self.give("a result that is not understood")
                st.gh["half"] = half
                return
            st.gh.pop("half", None)
            v = ("A", 0, (half[1], half[2]))
        elif len(path) != 1:
            self.give("a store to a part of a result")
        if v is None or v[0] != "A" or len(v[2]) != 2:
            self.give("a result that is not understood")
        self.count("result-stored", self.site())
        if not self.ent_eq(st, i, w):
            self.say(st, "C13", "slot", "a result is stored at index %s, not right behind the %s stored before" % (show(i), "ones"))
        key, pay = v[2]
        if key is not None and key[0] == "X":
            kb = self.be_bytes(st, key[1])
        else:
            kb = self.seq(st, key)
        if kb is None or len(kb) != KEY or any(b is None for b in kb):
            if kb is not None and len(kb) == KEY and any(b is not None for b in kb):
                pass
            self.give("a result whose key is not known")
        kb = tuple(kb)
        if pay is None or pay[0] != "PAY" or pay[1] not in st.nodes:
            if pay is not None and pay[0] in ("PAY",):
                self.give("a result whose value is no longer tracked")
            self.say(st, "C13", "value", "what is stored as the value of a result is not the value of an entry") if pay is not None else self.give("a result whose value is not known")
        else:
            up = tuple(st.nodes[pay[1]]["up"])
            if not all(self.ent_eq(st, x, y) for x, y in zip(up, kb)):
                bad = [j for j, (x, y) in enumerate(zip(up, kb)) if not self.ent_eq(st, x, y)]
                self.say(st, "C13", "other-key", "a result has byte %d of its key from elsewhere: %s instead of %s" % (bad[0], show(kb[bad[0]]), show(up[bad[0]])))
            c = pay[1]
            if not st.gh.get("err"):
                if not any(o[0] == c for o in st.gh.get("ob", ())):
                    self.say(st, "C16", "twice", "an entry is reported twice, or out of order")
                self.put_ob(st, tuple(o for o in st.gh.get("ob", ()) if o[0] != c))
        if not self.lex_known(st, st.gh["start"], kb, False):
            self.say(st, "C13", "below-start", "a result is not known to be at least the lower bound")
        if not self.lex_known(st, kb, st.gh["end"], True):
            self.say(st, "C13", "above-end", "a result is not known to be below the upper bound")
        if st.gh.get("decoded"):
            self.give("results are added after they were translated")
        self.grow(st)

    def grow(self, st):
        """one result more"""
        st.gh["wr"] = True
        def f(v):
            if isinstance(v, tuple):
                if len(v) == 3 and v[:2] == ("Y", W):
                    return ("Y", W, v[2] - 1)
                return tuple(f(x) if isinstance(x, tuple) else x for x in v)
            return v
        st.mem = {c: f(v) for c, v in st.mem.items()}
        st.gh = {k: f(v) if isinstance(v, tuple) else v for k, v in st.gh.items()}
        b = {}
        for x, y in ((W, Z), (Z, W), (W, LEN), (LEN, W)):
            b[(x, y)] = st.z.ub(x, y)
        st.z.keep([x for x in st.z.s if x != W])
        self.num(st, W)
        st.z.add(Z, W, max(-1, b[(Z, W)] - 1) if b[(Z, W)] < INF else -1)
        if b[(W, LEN)] + 1 <= 0:
            st.z.add(W, LEN, max(-1, b[(W, LEN)] + 1))
        if b[(LEN, W)] < INF and b[(LEN, W)] - 1 <= 0:
            st.z.add(LEN, W, max(-1, b[(LEN, W)] - 1))

    def decoded(self, st, i, v):
        t = v[1]
        if t == ("be", ("buf", ("x", i), ("f", 0))) or t == ("conv", ("be", ("buf", ("x", i), ("f", 0)))):
            if st.gh.get("pend") == i:
                st.gh.pop("pend")
            self.count("translated", self.site())
            return
        if t[:1] == ("be-reversed",):
            self.say(st, "C13", "translation", "the key of a result is translated back with its bytes in another order")
            self.report("C08", "key-bytes", st, "the key of a result is translated back with its bytes in another order")
            st.gh.pop("pend", None)
            return
        if has(t, lambda q: q[:1] == ("buf",) and q[1] != ("x", i)):
            self.say(st, "C13", "translation", "the key of a result is replaced by that of another one")
            st.gh.pop("pend", None)
            return
        self.give("a translation of a result that is not understood")

    def range_step(self, st, it, v):
        if st.gh.get("pend") is not None:
            st.gh["missed"] = True
        if it[2] is not None and self.ent_eq(st, it[2], ("Y", W, 0)):
            st.gh["pend"] = v

    def range_end(self, st, it):
        if st.gh.get("pend") is not None:
            st.gh["missed"] = True
            st.gh.pop("pend")
        if it[1] is not None and self.ent_le(st, it[1], N(0)) and it[2] is not None and self.ent_eq(st, it[2], ("Y", W, 0)):
            st.gh["decoded"] = True

    def result(self, st, v, key):
        self.count("result", self.p.fns[key]["path"])
        if st.gh.get("err"):
            self.und.append("a return after a failed attempt")
            return
        self.leave(st, list(st.gh.get("ob", ())))
        if v is None or self.lin(v) is None:
            self.und.append("the number of results that is returned is not known")
        elif not self.ent_eq(st, v, ("Y", W, 0)):
            self.say(st, "C13", "count", "the number returned (%s) is not the number of results stored" % show(v))
        else:
            self.count("count-returned", self.p.fns[key]["path"])
        if self.decode and not self.ent_le(st, ("Y", W, 0), N(0)):
            if st.gh.get("missed") or not st.gh.get("decoded"):
                self.say(st, "C13", "translation", "results are handed out with keys that were not translated back")
                self.report("C08", "not-translated", st, "results are handed out with keys that were not translated back")


# ---------------------------------------------------------------- emptiness

class Empty(Walk):
    """is_empty: an answer needs a look at every child (true) or at an entry (false)"""
    panic_prop = "C19"

    def begin(self, st):
        self.root_node(st)
        self.again(st)

    def again(self, st):
        st.gh["ob"] = ((("root",), N(0)),)
        st.gh["err"] = st.gh["entry"] = st.gh["gap"] = False

    def fail(self, st):
        st.gh["err"] = True
        st.gh.pop("ob", None)

    def put_ob(self, st, ob):
        if ob:
            st.gh["ob"] = tuple(sorted(set(ob), key=repr))
        else:
            st.gh.pop("ob", None)

    def begun(self, st, nid):
        if nid == ("root",) and st.gh.get("err"):
            self.again(st)
        return not st.gh.get("err")

    def on_enum(self, st, nid, lo, hi):
        if not self.begun(st, nid):
            return
        self.count("visit", self.site())
        if lo is None or hi is None:
            self.und.append("an enumeration between bounds that are not known at %s" % self.span)
            return
        if self.ent_le(st, lo, N(0)) and self.ent_le(st, N(255), hi):
            self.put_ob(st, tuple(o for o in st.gh.get("ob", ()) if o[0] != nid) + ((nid, N(0), "open"),))

    def on_enum_end(self, st, nid, lo, hi):
        self.put_ob(st, tuple(o for o in st.gh.get("ob", ()) if o[0] != nid or len(o) == 2))

    def on_kid(self, st, nid, c):
        if st.gh.get("err"):
            return
        if len(st.nodes[c]["up"]) >= KEY:
            st.gh["entry"] = True
            self.count("entry-seen", self.site())
        else:
            self.count("child-seen", self.site())
            self.put_ob(st, st.gh.get("ob", ()) + ((c, N(0)),))

    def on_empty(self, st, nid):
        if self.begun(st, nid):
            self.put_ob(st, tuple(o for o in st.gh.get("ob", ()) if o[0] != nid))

    def on_lookup(self, st, nid, b):
        self.begun(st, nid)

    def on_kid_done(self, st, nid, lo):
        n = st.nodes.get(nid)
        if n is not None and n["L"] is not None:
            self.leave(st, [o for o in st.gh.get("ob", ()) if o[0][0] == "c" and o[0][1] >= n["L"]])

    def leave(self, st, obs):
        if obs:
            st.gh["gap"] = True
            self.put_ob(st, tuple(o for o in st.gh.get("ob", ()) if o not in obs))

    def at_exit(self, st, nodes, under_way):
        self.leave(st, [o for o in st.gh.get("ob", ()) if o[0] not in nodes or len(o) == 3 and o[0] not in under_way])

    def result(self, st, v, key):
        fn = self.p.fns[key]["path"]
        self.count("result", fn)
        if st.gh.get("err"):
            self.und.append("an answer after a failed attempt")
        elif v is None or v[0] != "B":
            self.und.append("an answer that is not understood")
        elif st.unk:
            self.und.append("an answer that depends on what is not tracked")
        elif v[1]:
            self.count("answer-true", fn)
            if st.gh.get("entry"):
                self.report("C19", "not-empty", st, "the map is reported empty although an entry was seen")
            elif st.gh.get("gap") or st.gh.get("ob"):
                self.report("C19", "not-looked", st, "the map is reported empty although the children of a node were not all looked at")
        else:
            self.count("answer-false", fn)
            if not st.gh.get("entry"):
                self.report("C19", "no-entry", st, "the map is reported not to be empty although no entry was seen")


def empty(path, key, name, max_states=1200000):
    t = time.time()
    p = Prog(path)
    e = Empty(p, max_states=max_states, deadline=t + 600)
    e.opname = name
    return finish(e, key, dict(root=p.fns[key]["path"], error=None, name=name), t)


class Enough(Exception):
    """a violation of the property asked about was found"""


class Ask(Scan):
    """a scan analysed for one property: the first violation of it ends the analysis"""
    want = None

    def report(self, prop, rule, st, msg, span=None):
        super().report(prop, rule, st, msg, span)
        if prop == self.want:
            raise Enough


def scan(path, key, name, want=None, max_states=4000000):
    t = time.time()
    p = Prog(path)
    r = dict(root=p.fns[key]["path"], error=None, name=name)
    e = Ask(p, max_states=max_states, deadline=t + 700)
    e.opname, e.want, e.track = name, want, want in (None, "C16")
    finish(e, key, r, t)
    mine = [v for v in r["viol"] if want in (None, v["prop"])]
    if not r["error"] and e.und and not mine:
        # what was found is for another property: this one is not decided
        r["error"] = "; ".join(sorted(set(e.und))[:3])
    r["viol"] = mine
    return r


def point(path, key, name, max_states=1200000):
    t = time.time()
    p = Prog(path)
    e = Point(p, max_states=max_states, deadline=t + 600)
    e.opname = name
    r = dict(root=p.fns[key]["path"], error=None, name=name)
    return finish(e, key, r, t)


def finish(e, key, r, t):
    r["error"] = None
    try:
        e.run_root(key)
    except Enough:
        pass
    except Give as x:
        r["error"] = "give: %s" % x
    except Missing as x:
        r["error"] = "missing: %s" % x
        r["missing"] = True
    except RecursionError:
        r["error"] = "recursion too deep"
    except Exception:
        r["error"] = "internal: %s" % traceback.format_exc(limit=-6)
    viol = list(e.viol.values())
    if not r["error"] and e.und and not viol:
        r["error"] = "; ".join(sorted(set(e.und))[:3])
    r.update(viol=viol, ev={k: sorted(map(str, v)) for k, v in e.ev.items()}, states=e.nstates, returns=getattr(e, "returns", 0), wall=round(time.time() - t, 2))
    r["ev"]["function"] = sorted(e.fns_seen)
    return r


if __name__ == "__main__":
    p = Prog(sys.argv[1])
    import json
    for k, n, f in roots(p):
        if len(sys.argv) > 2 and n not in sys.argv[2:] and f["path"] not in sys.argv[2:]:
            continue
        if n in ("get", "insert", "remove", "compute_if_present", "compute_or_insert", "compare_exchange"):
            r = point(sys.argv[1], k, n)
        elif n == "is_empty":
            r = empty(sys.argv[1], k, n)
        elif n == "range":
            r = scan(sys.argv[1], k, n, os.environ.get("WANT"))
        else:
            continue
        if True:
            print(f["path"], r["error"], r["states"], r["returns"], r["wall"], {k: len(v) for k, v in r["ev"].items()})
            for v in r["viol"]:
                print("   ", v["prop"], v["rule"], v["fn"], v["span"], v["msg"])
                for x in v["trace"][-12:]:
                    print("        ", x)
