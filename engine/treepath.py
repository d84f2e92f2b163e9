"""Abstract interpreter for the code that walks the tree: key bytes, paths and levels.

Domain: small integers (levels, lengths, positions: never above the key length) are constants;
key and path bytes are symbols ordered by difference bounds and disequalities; nodes are known by the
length and the bytes of their path from the root (case split over the 8 possible lengths); all
else is unknown.  Branches on unknowns go both ways.  Loop heads and join points keep one state per
canonical form, recursive functions get one summary per canonical entry, so the analysis ends in a
fixpoint.  What a node is like is learnt by running its own constructor in the abstract.
"""
import sys
import time
from mir import *
from zone import Zone, Infeasible, Z, INF

FNC = ("core::ops::function::FnOnce::call_once", "core::ops::function::FnMut::call_mut", "core::ops::function::Fn::call")
TRUE, FALSE = ("B", True), ("B", False)
UNIT = ("A", 0, ())
NONE = ("A", 0, ())
KEY = 8


class Give(Exception):
    pass


class Fork(Exception):
    def __init__(self, states):
        self.states = states


def N(n):
    return ("I", n)


def Y(s):
    return ("Y", s, 0)


def some(v):
    return ("A", 1, (v,))


def has(v, f):
    """does a symbol or cell satisfying f occur in the value"""
    if isinstance(v, tuple):
        if f(v):
            return True
        return any(has(x, f) for x in v if isinstance(x, tuple))
    return False


class TZone(Zone):
    """bounds that follow from those of the two symbols alone are not stored"""
    __slots__ = ()

    def copy(self):
        z = TZone.__new__(TZone)
        z.d = dict(self.d)
        z.s = list(self.s)
        return z

    def ub(self, a, b):
        if a == b:
            return 0
        get = self.d.get
        w = get((a, b), INF)
        if a != Z and b != Z:
            v = get((a, Z), INF) + get((Z, b), INF)
            if v < w:
                return v
        return w

    def add(self, a, b, c):
        if a == b:
            if c < 0:
                raise Infeasible()
            return
        self.sym(a)
        self.sym(b)
        ub = self.ub
        if ub(a, b) <= c:
            return
        if ub(b, a) + c < 0:
            raise Infeasible()
        d = self.d
        ins, outs = [(a, 0)], [(b, 0)]
        for (x, y), v in d.items():
            if y == a:
                ins.append((x, v))
            if x == b:
                outs.append((y, v))
        for i, x in ins:
            for j, y in outs:
                if i != j:
                    w = x + c + y
                    if w < ub(i, j):
                        if w + ub(j, i) < 0:
                            raise Infeasible()
                        d[(i, j)] = w


MENTIONS = {}
NOTHING = ((), ())


def mentions(v):
    """cells and symbols a value mentions"""
    r = MENTIONS.get(v)
    if r is None:
        cells, syms = set(), set()
        if v and v[0] in ("R", "SL") and len(v) >= 3 and isinstance(v[1], tuple):
            cells.add(v[1])
        if v and v[0] in ("C", "PAY") and len(v) == 2 and isinstance(v[1], tuple):
            cells.add(("N", v[1]))
        if v and v[0] == "KIDS":
            cells.add(("N", v[1]))
        if v and v[0] == "Y" and len(v) == 3:
            syms.add(v[1])
        for x in v:
            if isinstance(x, tuple) and x:
                a, b = mentions(x)
                cells.update(a)
                syms.update(b)
        r = (tuple(cells), tuple(syms)) if cells or syms else NOTHING
        if len(MENTIONS) > 300000:
            MENTIONS.clear()
        MENTIONS[v] = r
    return r


def swap(v, m):
    """replace sub-values"""
    if isinstance(v, tuple):
        if v in m:
            return m[v]
        out = tuple(swap(x, m) if isinstance(x, tuple) else x for x in v)
        return out if out != v else v
    return v


def rename(v, drop, keep):
    """one symbol for another, or for zero"""
    if isinstance(v, tuple):
        if len(v) == 3 and v[0] == "Y":
            if v[1] != drop:
                return v
            return ("I", v[2]) if keep == Z else ("Y", keep, v[2])
        out = tuple(rename(x, drop, keep) if isinstance(x, tuple) else x for x in v)
        return out if out != v else v
    return v


class St:
    __slots__ = ("mem", "z", "ne", "nodes", "gh", "unk", "tr")

    def __init__(s):
        s.mem, s.z, s.ne, s.nodes, s.gh, s.unk, s.tr = {}, TZone(), frozenset(), {}, {}, False, None

    def copy(s):
        n = St.__new__(St)
        n.mem, n.z, n.ne, n.nodes, n.gh, n.unk, n.tr = dict(s.mem), s.z.copy(), s.ne, dict(s.nodes), dict(s.gh), s.unk, s.tr
        return n

    def note(s, x):
        s.tr = (s.tr, x)


class Tree:
    """the interpreter; the rules are in subclasses"""
    MAXDEPTH = 40

    def __init__(self, prog, max_states=400000, deadline=None):
        self.p, self.T = prog, prog.T
        self.stack = []
        self.viol = {}
        self.ev = {}
        self.und = []
        self.nstates = 0
        self.max_states = max_states
        self.deadline = deadline
        self.span = ""
        self.root = ""
        self.fns_seen = set()
        self.summ = {}
        self.entries = {}
        self.todo = []
        self.deps = {}
        self.cur_entry = None
        self.cut = set()
        self.hdr_cache = {}
        self.find_anchors()

    # ------------------------------------------------------------ anchors
    def find_anchors(self):
        """the constructor of a node's header and the accessor of its path"""
        p, T = self.p, self.T
        self.ctor = self.pathfn = None
        for k, f in p.fns.items():
            if not f.get("local") or "blocks" not in f:
                continue
            rt, argc = f["locals"][0], f["argc"]
            ins = f["locals"][1:1 + argc]
            if rt == p.base_ty and any(self.is_bytes_ref(t) for t in ins):
                self.ctor = self.ctor or k
            if argc == 1 and self.is_bytes_ref(rt) and p.pointee(ins[0]) == p.base_ty:
                self.pathfn = self.pathfn or k
        if not self.ctor or not self.pathfn:
            raise Missing("constructor of a node's header and accessor of its path")

    def is_bytes_ref(self, t):
        x = self.T[t]
        if x["k"] != "ref":
            return False
        y = self.T[x["to"]]
        return y["k"] == "slice" and self.is_u8(y.get("to"))

    def is_u8(self, t):
        return t is not None and self.T[t]["k"] == "uint" and self.T[t].get("size") == 1

    # ------------------------------------------------------------ reports
    def count(self, k, x):
        self.ev.setdefault(k, set()).add(x)

    def site(self):
        return "%s@%s" % (self.p.fns[self.stack[-1]]["path"] if self.stack else "-", self.span)

    def report(self, prop, rule, st, msg, span=None):
        fn = self.p.fns[self.stack[-1]]["path"] if self.stack else self.root
        # innermost local function
        for k in reversed(self.stack):
            if self.p.fns[k].get("local"):
                fn = self.p.fns[k]["path"]
                break
        key = (prop, rule, fn)
        if key not in self.viol:
            tr, x = [], st.tr
            while x is not None and len(tr) < 40:
                tr.append(str(x[1]))
                x = x[0]
            self.viol[key] = dict(prop=prop, rule=rule, fn=fn, span=span or self.lspan(), msg=msg, root=self.root, trace=tr[::-1])

    def lspan(self):
        return getattr(self, "local_span", self.span) if not self.span.startswith("src/") else self.span

    def give(self, why):
        raise Give("%s at %s" % (why, self.span))

    # ------------------------------------------------------------ symbols
    def byte(self, st, s):
        z = st.z
        if s not in z.s:
            z.s.append(s)
            z.d[(s, Z)] = 255
            z.d[(Z, s)] = 0
        return ("Y", s, 0)

    def num(self, st, s):
        if s not in st.z.s:
            st.z.add(Z, s, 0)
        return ("Y", s, 0)

    def lin(self, v):
        if v is None:
            return None
        if v[0] == "I":
            return (Z, v[1])
        if v[0] == "Y":
            return (v[1], v[2])
        return None

    def ent_le(self, st, a, b, c=0):
        """a <= b + c is certain"""
        x, y = self.lin(a), self.lin(b)
        if x is None or y is None:
            return a is not None and a == b and c >= 0
        return st.z.ub(x[0], y[0]) + x[1] - y[1] <= c

    def ent_eq(self, st, a, b):
        if a is not None and a == b:
            return True
        return self.lin(a) is not None and self.ent_le(st, a, b) and self.ent_le(st, b, a)

    def ent_ne(self, st, a, b):
        x, y = self.lin(a), self.lin(b)
        if x is None or y is None:
            return False
        if self.ent_le(st, a, b, -1) or self.ent_le(st, b, a, -1):
            return True
        return x[1] == y[1] and (tuple(sorted((x[0], y[0]), key=repr)) in st.ne) or (self.nekey(x, y) in st.ne)

    def nekey(self, x, y):
        a, b = sorted((x, y), key=repr)
        return (a[0], b[0], b[1] - a[1])

    FAM = {"k": 0, "end": 1, "start": 1}

    def pref(self, s):
        return (0 if s == Z else self.FAM.get(s[0], 5), repr(s))

    def unify(self, st, a, b):
        """two symbols are equal: keep one of them"""
        keep, drop = sorted((a, b), key=self.pref)
        if drop == Z:
            keep, drop = drop, keep
        st.mem = {k: rename(v, drop, keep) for k, v in st.mem.items()}
        st.nodes = {n: {k: rename(v, drop, keep) if isinstance(v, tuple) else v for k, v in x.items()} for n, x in st.nodes.items()}
        st.gh = {k: rename(v, drop, keep) if isinstance(v, tuple) else v for k, v in st.gh.items()}
        for (x, y), c in list(st.z.d.items()):
            if x == drop and y != keep:
                st.z.add(keep, y, c)
            elif y == drop and x != keep:
                st.z.add(x, keep, c)
        ne = set()
        for (x, y, c) in st.ne:
            x2, y2 = (keep if x == drop else x), (keep if y == drop else y)
            if x2 == y2:
                if c == 0:
                    raise Infeasible()
                continue
            if repr((x2, 0)) > repr((y2, 0)):
                x2, y2, c = y2, x2, -c
            ne.add((x2, y2, c))
        st.ne = frozenset(ne)
        st.z.keep([s for s in st.z.s if s != drop])

    def tighten(self, st):
        for (a, b, c) in st.ne:
            # a + ? : the pair says a - b != c
            if st.z.ub(a, b) == c:
                st.z.add(a, b, c - 1)
            if st.z.ub(b, a) == -c:
                st.z.add(b, a, -c - 1)

    def assume(self, st, c, val):
        """states in which the condition has the value"""
        if c is None:
            st.unk = True
            return [st]
        if c is True or c is False:
            return [st] if c == val else []
        if c[0] == "not":
            return self.assume(st, c[1], not val)
        if c[0] == "lt":
            return self.assume(st, ("le", c[2], c[1]), not val)
        a, b = c[1], c[2]
        x, y = self.lin(a), self.lin(b)
        if x is None or y is None:
            if c[0] == "eq" and a is not None and a == b:
                return [st] if val else []
            return self.assume_other(st, c, val)
        try:
            if c[0] == "le":
                if val:
                    st.z.add(x[0], y[0], y[1] - x[1])
                else:
                    st.z.add(y[0], x[0], x[1] - y[1] - 1)
                self.tighten(st)
                self.learn(st, a, b)
                if x[0] != y[0] and x[1] == y[1] and Z not in (x[0], y[0]) and st.z.ub(x[0], y[0]) == 0 and st.z.ub(y[0], x[0]) == 0:
                    self.unify(st, x[0], y[0])
                return [st]
            if val:
                if self.ent_ne(st, a, b):
                    return []
                st.z.add(x[0], y[0], y[1] - x[1])
                st.z.add(y[0], x[0], x[1] - y[1])
                self.tighten(st)
                if x[0] != y[0] and x[1] == y[1] and Z not in (x[0], y[0]):
                    self.unify(st, x[0], y[0])
                return [st]
            if self.ent_eq(st, a, b):
                return []
            if x[0] == y[0]:
                return [st] if x[1] != y[1] else []
            k1, k2 = sorted((x, y), key=lambda q: repr((q[0], 0)))
            # k1.sym + k1.off != k2.sym + k2.off
            st.ne = st.ne | {(k1[0], k2[0], k2[1] - k1[1])}
            self.tighten(st)
            self.learn(st, a, b)
            return [st]
        except Infeasible:
            return []

    def assume_other(self, st, c, val):
        """a comparison of values that are only known by name"""
        if c[0] not in ("eq", "le", "lt") or any(x is None or self.about_keys(x) for x in c[1:3]):
            st.unk = True
        return [st]

    def about_keys(self, v):
        return has(v, lambda q: q[:1] in (("be",), ("k",), ("Y",)) or q[:1] == ("arg",) and q[1] in self.key_args)

    key_args = (1,)

    def on_empty(self, st, nid):
        pass

    def nekey(self, x, y):
        k1, k2 = sorted((x, y), key=lambda q: repr((q[0], 0)))
        return (k1[0], k2[0], k2[1] - k1[1])

    def ent_ne(self, st, a, b):
        x, y = self.lin(a), self.lin(b)
        if x is None or y is None:
            return False
        if x[0] == y[0]:
            return x[1] != y[1]
        return self.ent_le(st, a, b, -1) or self.ent_le(st, b, a, -1) or self.nekey(x, y) in st.ne

    def learn(self, st, a, b):
        pass

    def decide(self, st, c):
        """True / False / None"""
        if c is None or c is True or c is False:
            return c
        t = self.assume(st.copy(), c, True)
        f = self.assume(st.copy(), c, False)
        if t and not f:
            return True
        if f and not t:
            return False
        return None

    # ------------------------------------------------------------ nodes
    # node record: L (length of its path or None), path (tuple of byte values), fresh, kids ((byte, word) of a fresh node), all (nid copied from)
    def header(self, st, path, nid=None):
        """what the constructor makes of a path"""
        n = len(path)
        if n not in self.hdr_cache:
            s = St()
            s.mem[("TPL",)] = ("A", 0, tuple(("Y", ("ph", i), 0) for i in range(n)))
            f = self.p.fns[self.ctor]
            args = []
            for t in f["locals"][1:1 + f["argc"]]:
                args.append(("SL", ("TPL",), (), 0, n) if self.is_bytes_ref(t) else ("X", ("any",)))
            save = self.stack, self.span, self.summ
            self.stack = []
            try:
                out = self.run_fn(s, self.ctor, args)
            finally:
                self.stack, self.span, self.summ = save
            vals = {v for _, v in out}
            if len(vals) != 1 or None in vals:
                self.give("the header of a node cannot be determined")
            self.hdr_cache[n] = self.only_path(vals.pop(), n)
        h = self.hdr_cache[n]
        m = {("Y", ("ph", i), 0): b for i, b in enumerate(path)}
        if nid is not None:
            m[("count", None)] = ("count", nid)
        return swap(h, m)

    def only_path(self, h, n):
        """all parts of a header the path does not depend on may have any value later"""
        want = [("Y", ("ph", i), 0) for i in range(n)]

        def path(v):
            s = St()
            s.nodes[("f", 0)] = dict(L=None, fresh=True, kids=(), all=None)
            s.mem[("N", ("f", 0))] = v
            try:
                return self.path_of(s, ("f", 0))
            except (Give, Fork, Infeasible):
                return None
        if path(h) != tuple(want):
            self.give("the accessor of a node's path does not give back the path it was made with")

        def leaves(v, ty, at):
            if v is not None and v[0] == "A" and v[2] and v[1] == 0:
                fs = self.p.fields(ty) if ty is not None else []
                for i, x in enumerate(v[2]):
                    yield from leaves(x, fs[i] if i < len(fs) else None, at + (("f", i),))
                    if ty is not None and self.T[ty].get("path") == self.p.count_field[0] and i == self.p.count_field[1]:
                        counts.append(at + (("f", i),))
            else:
                yield at
        counts = []
        for at in list(leaves(h, self.p.base_ty, ())):
            if at and path(self.upd(h, at, None)) == tuple(want):
                h = self.upd(h, at, ("X", ("any",)))
        for at in counts:
            h = self.upd(h, at, ("X", ("count", None)))
        return h

    def child_record(self, st, nid, b, what="sub"):
        """the child of nid under byte b, as a child word"""
        n = st.nodes[nid]
        c = ("c", n["L"])
        self.forget(st, n["L"])
        st.nodes[c] = dict(L=None, up=tuple(n["path"]) + (b,), fresh=False, res=None)
        return ("C", c)

    def forget(self, st, lvl):
        """children of nodes with a path of this length or longer are of no interest any more"""
        dead = [c for c in st.nodes if c[0] == "c" and c[1] >= lvl]
        for c in dead:
            del st.nodes[c]
            st.mem.pop(("N", c), None)

        def stale(v):
            return v[:1] == ("c",) and len(v) == 2 and isinstance(v[1], int) and v[1] >= lvl or v[:1] in (("p",), ("b",)) and len(v) >= 2 and isinstance(v[1], int) and v[1] >= lvl
        for k, v in list(st.mem.items()):
            if v is not None and has(v, stale):
                st.mem[k] = self.blank(v, stale)
        for k, v in list(st.gh.items()):
            if isinstance(v, tuple) and has(v, stale):
                st.gh[k] = self.blank_gh(k, v, stale)
        keep = [s for s in st.z.s if not stale(s)]
        st.z.keep(keep)
        st.ne = frozenset(x for x in st.ne if not stale(x[0]) and not stale(x[1]))

    def blank_gh(self, k, v, stale):
        return tuple(x for x in v if not has(x, stale)) if k in ("ob",) else None

    def blank(self, v, stale):
        if v is None:
            return None
        if v[0] == "A":
            return (v[0], v[1], tuple(self.blank(x, stale) for x in v[2]))
        return None if has(v, stale) else v

    def resolve_node(self, st, nid):
        """split over the length of the node's path, once it is looked at"""
        n = st.nodes.get(nid)
        if n is None:
            self.give("a node that is no longer tracked is used")
        if n["L"] is not None:
            if ("N", nid) not in st.mem:
                st.mem[("N", nid)] = self.header(st, n["path"], nid)
            return n
        up = n["up"]
        if len(up) >= KEY:
            self.report("C17", "value-as-node", st, "an entry at the last byte is used as a pointer to a node")
            self.give("value used as node")
        out = []
        for m in range(len(up), KEY):
            s = st.copy()
            path = up + tuple(self.byte(s, ("p", nid[1], m, i)) for i in range(len(up), m))
            s.nodes[nid] = dict(n, L=m, path=path)
            s.mem[("N", nid)] = self.header(s, path, nid)
            s.note("a node with %d path bytes" % m)
            out.append(s)
        raise Fork(out)

    def root_node(self, st):
        if ("root",) not in st.nodes:
            st.nodes[("root",)] = dict(L=0, path=(), fresh=False)
        return ("R", ("N", ("root",)), ())

    def path_of(self, st, nid):
        """the path a node's own accessor gives for it"""
        n = st.nodes[nid]
        if not n["fresh"]:
            self.resolve_node(st, nid)
            return st.nodes[nid]["path"]
        if st.mem.get(("N", nid)) is None:
            return None
        s = st.copy()
        save = self.stack, self.span
        self.stack = list(self.stack)
        try:
            out = self.run_fn(s, self.pathfn, [("R", ("N", nid), ())])
        finally:
            self.stack, self.span = save
        res = set()
        for s2, v in out:
            e = self.seq(s2, v)
            res.add(tuple(e) if e is not None else None)
        if len(res) != 1:
            return None
        return res.pop()

    # ------------------------------------------------------------ memory
    def lazy(self, st, cell, path, tid):
        """a value that was there before the operation began"""
        if tid is None:
            return None
        x = self.T[tid]
        pt = self.p.pointee(tid)
        if pt is not None and (pt == self.p.base_ty or pt in self.p.kinds):
            return self.root_node(st)
        if x["k"] == "ref" and self.T[x["to"]]["k"] != "slice":
            return ("R", ("D", cell, path), ())
        if x["k"] in ("adt",) and x.get("adt") == "struct" and x.get("local") and len(path) < 4:
            return ("A", 0, tuple(self.lazy(st, cell, path + (i,), t) for i, t in enumerate(self.p.fields(tid))))
        return ("X", ("in", cell, path))

    def rd(self, st, cell, path, tid):
        if cell[0] == "N":
            self.resolve_node(st, cell[1]) if not st.nodes.get(cell[1], {}).get("fresh") else None
        v = st.mem.get(cell)
        if cell not in st.mem and cell[0] in ("SELF", "ARG", "D"):
            v = self.lazy(st, cell, (), self.cell_ty.get(cell))
            st.mem[cell] = v
        for e in path:
            v = self.sub(st, v, e, cell, path, tid)
        return v

    cell_ty = {}

    def sub(self, st, v, e, cell, path, tid):
        if v is None:
            return None
        if e[0] == "f":
            if v[0] == "A":
                return v[2][e[1]] if e[1] < len(v[2]) else None
            if v[0] == "CL":
                return v[2][e[1]] if e[1] < len(v[2]) else None
            if v[0] in ("R", "SL", "IT", "KIDS"):
                return v
            if v[0] == "X":
                return ("X", ("fld", v[1], e[1]))
            if v[0] == "C":
                return self.word(st, v, tid)
            if v[0] == "U":
                return v[2]
            return None
        if e[0] == "x":
            if v[0] == "A" and e[1][0] == "I":
                return v[2][e[1][1]] if 0 <= e[1][1] < len(v[2]) else None
            if v[0] == "A" and e[1][0] == "Y" and len(v[2]) <= KEY:
                poss = [i for i in range(len(v[2])) if self.decide(st, ("eq", e[1], N(i))) is not False]
                if len({v[2][i] for i in poss}) == 1:
                    return v[2][poss[0]]
            return None
        return None

    def word(self, st, v, tid):
        """a child word read as a value or as a pointer"""
        x = self.T[tid] if tid is not None else None
        c = v[1]
        n = st.nodes.get(c)
        if n is None:
            return None
        last = len(n.get("up", ())) >= KEY
        if x is not None and x["k"] in ("uint", "int"):
            if not last:
                self.report("C17", "node-as-value", st, "a child that is not at the last byte is used as a value")
                return None
            return ("PAY", c)
        if last:
            self.report("C17", "value-as-node", st, "an entry at the last byte is used as a pointer to a node")
            return None
        return ("R", ("N", c), ())

    def upd(self, v, path, new, st=None):
        if not path:
            return new
        e = path[0]
        if v is None:
            return None
        if v[0] == "CL" and e[0] == "f" and e[1] < len(v[2]):
            fs = list(v[2])
            fs[e[1]] = self.upd(fs[e[1]], path[1:], new, st)
            return ("CL", v[1], tuple(fs))
        if v[0] == "A":
            fs = list(v[2])
            i = e[1] if e[0] == "f" else (e[1][1] if e[1][0] == "I" else None)
            if i is None:
                return (v[0], v[1], tuple(None for _ in fs))
            if 0 <= i < len(fs):
                fs[i] = self.upd(fs[i], path[1:], new, st)
            return (v[0], v[1], tuple(fs))
        return None

    def load(self, st, cell, path, tid):
        if path and path[-1][0] == "kf":
            return None
        return self.rd(st, cell, path, tid)

    def store(self, st, cell, path, v):
        if cell[0] == "BUF":
            return self.buffer_store(st, path, v)
        if any(e[0] == "kf" for e in path):
            return
        if cell[0] in ("SELF", "ARG", "D") or cell[0] == "N":
            if cell[0] == "N" and cell[1] not in st.nodes:
                return
            if not (cell[0] == "N" and st.nodes[cell[1]]["fresh"]):
                self.rd(st, cell, (), None)
        if cell[0] == "N" and not path:
            st.mem[cell] = v
            return
        st.mem[cell] = self.upd(st.mem.get(cell), path, v)

    def buffer_store(self, st, path, v):
        self.give("store into the caller's buffer")

    # ------------------------------------------------------------ places
    def ptr(self, v):
        """pointer value -> (cell, path, (lo, hi) or None)"""
        d = 0
        while v is not None and v[0] == "A" and len(v[2]) >= 1 and d < 4:
            v = next((x for x in v[2] if x is not None and x[0] in ("R", "SL", "A")), None)
            d += 1
        if v is None:
            return None
        if v[0] == "R":
            return v[1], v[2], None
        if v[0] == "SL":
            return v[1], v[2], (v[3], v[4])
        if v[0] == "X":
            return ("D", v[1]), (), None
        return None

    def resolve(self, st, pl, d):
        """-> (cell, path, tid, slice bounds)"""
        cell, path = ("L", d, pl[0]), ()
        tid = self.fn["locals"][pl[0]]
        sl = None
        for e in pl[1]:
            if e[0] == "deref":
                v = self.load(st, cell, path, tid)
                pt = self.p.pointee(tid)
                P = self.ptr(v)
                if P is None:
                    cell, path, sl = ("?",), (), None
                else:
                    cell, path, sl = P
                    if cell[0] == "D" and cell not in self.cell_ty:
                        self.cell_ty[cell] = pt
                tid = pt if pt is not None else (self.T[tid].get("to") if tid is not None else None)
                if tid is None:
                    tid = pl[2]
            elif e[0] == "f":
                if tid in self.p.kinds:
                    if e[1] != self.p.kinds[tid]["base"]:
                        path = path + (("kf", e[1]),)
                else:
                    v = None
                    if path == () or True:
                        v = self.load(st, cell, path, tid) if cell[0] != "N" else ("A",)
                    if not (v is not None and v[0] in ("R", "SL", "IT", "KIDS")):
                        path = path + (("f", e[1]),)
                tid = e[2]
                sl = None
            elif e[0] == "v":
                pass
            elif e[0] in ("i", "ci"):
                if e[0] == "i":
                    ix = st.mem.get(("L", d, e[1]))
                else:
                    n = (sl[1] - sl[0]) if sl and isinstance(sl[1], int) else self.T[tid].get("len")
                    ix = N(n - e[1]) if e[3] else N(e[1])
                if sl is not None and ix is not None:
                    ix = self.plus(ix, N(sl[0]) if isinstance(sl[0], int) else sl[0])
                path = path + (("x", ix),) if ix is not None else path + (("x", ("?",)),)
                tid = self.T[tid].get("to")
                sl = None
            elif e[0] == "sub":
                self.give("sub-slice pattern")
            else:
                self.give("projection %s" % e[0])
        return cell, path, tid, sl

    def plus(self, a, b, sign=1):
        if a is None or b is None:
            return None
        if a[0] == "I" and b[0] == "I":
            return N(a[1] + sign * b[1])
        if a[0] == "Y" and b[0] == "I":
            return ("Y", a[1], a[2] + sign * b[1])
        if a[0] == "I" and b[0] == "Y" and sign == 1:
            return ("Y", b[1], b[2] + a[1])
        if a[0] == "Y" and b[0] == "Y" and sign == -1 and a[1] == b[1]:
            return N(a[2] - b[2])
        return None

    # ------------------------------------------------------------ values
    def operand(self, st, o, d):
        if o[0] in ("copy", "move"):
            cell, path, tid, sl = self.resolve(st, o[1], d)
            return self.load(st, cell, path, tid)
        if o[0] == "const":
            return self.konst(st, o[1]["const"])
        return None

    def konst(self, st, c):
        if "fn" in c:
            return ("F", c["fn"].get("key") or c["fn"]["path"])
        x = self.T[c["t"]]
        if "v" in c:
            if x["k"] == "bool":
                return ("B", bool(c["v"]))
            if x["k"] in ("uint", "int", "char"):
                return N(c["v"])
            if x["k"] == "adt" and x.get("adt") == "enum":
                for i, w in enumerate(x["variants"]):
                    if w["d"] == c["v"]:
                        return ("A", i, ())
            return None
        if "ref" in c:
            cell = ("K",) + tuple(c["ref"])
            st.mem[cell] = self.konst(st, dict(t=c["ref"][0], v=c["ref"][1]))
            return ("R", cell, ())
        if x["k"] in ("tuple", "closure") and not x.get("f"):
            return UNIT
        if x["k"] == "adt" and x.get("adt") == "struct" and not x["variants"][0]["f"]:
            return UNIT
        return ("X", ("k", str(c.get("x", c.get("param", "?")))))

    def op_ty(self, o):
        if o[0] in ("copy", "move"):
            return o[1][2]
        if o[0] == "const":
            return o[1]["const"]["t"]

    def rvalue(self, st, r, tid, d):
        k = r[0]
        if k == "use":
            return self.operand(st, r[1], d)
        if k == "ref":
            cell, path, t, sl = self.resolve(st, r[2], d)
            if cell == ("?",):
                return None
            if sl is not None:
                return ("SL", cell, path, sl[0], sl[1])
            v = st.mem.get(cell) if not path else None
            return ("R", cell, path)
        if k == "cast":
            return self.cast(st, self.operand(st, r[2], d), r[1], r[3], self.op_ty(r[2]))
        if k == "bin":
            a, b = self.operand(st, r[2], d), self.operand(st, r[3], d)
            if r[1] in ("Lt", "Le", "Gt", "Ge"):
                a, b = self.signed(a, self.op_ty(r[2])), self.signed(b, self.op_ty(r[2]))
            return self.binop(st, r[1], a, b, tid, self.op_ty(r[2]))
        if k == "un":
            a = self.operand(st, r[2], d)
            if r[1] == "Not":
                if a is not None and a[0] == "B":
                    return ("B", ("not", a[1]))
                if a is not None and a[0] == "X" and not self.about_keys(a):
                    return a
                return None
            if r[1] == "PtrMetadata":
                return self.length(st, a)
            if r[1] == "Neg" and a is not None and a[0] == "I":
                return N(-a[1])
            return None
        if k == "discr":
            cell, path, t, sl = self.resolve(st, r[1], d)
            return self.discr(st, self.load(st, cell, path, t), t)
        if k == "agg":
            vs = tuple(self.operand(st, o, d) for o in r[2])
            kk = r[1]
            if kk[0] == "adt":
                if kk[3] is not None:
                    ft = self.p.fields(tid, 0)[kk[3]]
                    return ("U", "value" if self.T[ft]["k"] in ("uint", "int") else "node", vs[0])
                return ("A", kk[2], vs)
            if kk[0] == "closure":
                return ("CL", tid, vs)
            if kk[0] == "rawptr":
                if vs[1] is not None and vs[1] != UNIT and vs[0] is not None and vs[0][0] == "R":
                    return self.make_slice(st, vs[0], vs[1])
                return vs[0]
            return ("A", 0, vs)
        if k == "repeat":
            v = self.operand(st, r[1], d)
            n = self.T[tid].get("len")
            n = r[2] if n is None and len(r) > 2 and isinstance(r[2], int) else n
            if n is None or n > 64:
                return None
            return ("A", 0, (v,) * n)
        if k == "len":
            cell, path, t, sl = self.resolve(st, r[1], d)
            if sl is not None:
                return self.plus(self.iv(sl[1]), self.iv(sl[0]), -1)
            if self.T[t].get("len") is not None:
                return N(self.T[t]["len"])
        return None

    def iv(self, x):
        return N(x) if isinstance(x, int) else x

    def vi(self, v):
        return v[1] if v is not None and v[0] == "I" else v

    def make_slice(self, st, base, n):
        if base[0] == "R":
            lo = 0
            path = base[2]
            if path and path[-1][0] == "x":
                lo, path = self.vi(path[-1][1]), path[:-1]
            hi = self.plus(self.iv(lo), n)
            if hi is None:
                return None
            return ("SL", base[1], path, lo, self.vi(hi))
        return None

    def length(self, st, a):
        if a is not None and a[0] == "SL":
            return self.plus(self.iv(a[4]), self.iv(a[3]), -1)
        if a is not None and a[0] == "X":
            return ("X", ("len", a[1]))
        return None

    def discr(self, st, v, t):
        x = self.T[t]
        if v is not None and v[0] == "A" and x["k"] == "adt" and x.get("adt") == "enum":
            return N(x["variants"][v[1]]["d"])
        if v is not None and v[0] == "X":
            return ("X", ("discr", v[1]))
        return None

    def cast(self, st, v, kind, tid, ft):
        if v is None:
            return None
        x = self.T[tid]
        if v[0] in ("I", "Y"):
            if v[0] == "I" and x["k"] == "uint" and x.get("size"):
                return N(v[1] & ((1 << (8 * x["size"])) - 1))
            if v[0] == "Y" and x["k"] in ("uint", "int", "char"):
                return v
            return v if x["k"] in ("uint", "int", "char", "bool") else None
        if v[0] == "B":
            if x["k"] in ("uint", "int"):
                r = self.decide(st, v[1])
                return N(int(r)) if r is not None else None
            return v
        if v[0] == "A" and x["k"] in ("uint", "int") and ft is not None and self.T[ft].get("adt") == "enum":
            return self.discr(st, v, ft)
        if v[0] == "R" and "Unsize" in kind:
            pt = self.p.pointee(ft)
            if pt is not None and self.T[pt]["k"] == "array" and self.T[pt].get("len") is not None:
                return ("SL", v[1], v[2], 0, self.T[pt]["len"])
            return v
        if v[0] == "X" and x["k"] == "uint" and x.get("size") == 1 and v[1][0] == "shr":
            b = self.key_byte(st, v[1][1], v[1][2])
            if b is not None:
                return b
        if v[0] == "X" and x["k"] == "uint" and x.get("size") == 1:
            b = self.key_byte(st, v[1], 0)
            if b is not None:
                return b
            return ("X", ("trunc", v[1]))
        if v[0] in ("X", "PAY") and x["k"] in ("uint", "int") and x.get("size") and ft is not None and self.T[ft]["k"] in ("uint", "int") and (self.T[ft].get("size") or 0) > x["size"]:
            return ("X", ("low", x["size"], v[1]))
        return v

    def key_byte(self, st, t, sh):
        f = self.family(t)
        if f is not None and sh % 8 == 0 and 0 <= sh // 8 < KEY:
            return self.byte(st, ("k", f, KEY - 1 - sh // 8))
        return None

    def norm(self, t):
        while isinstance(t, tuple) and t and t[0] in ("conv", "clone"):
            t = t[1]
        return t

    def family(self, t):
        """number of the argument whose conversion this is"""
        t = self.norm(t)
        if isinstance(t, tuple) and t and t[0] == "arg":
            return t[1]
        return None

    def binop(self, st, op, a, b, tid, ft):
        if op.endswith("WithOverflow"):
            return ("A", 0, (self.binop(st, op[:-12], a, b, None, ft), FALSE))
        op = op.replace("Unchecked", "")
        if op in ("Eq", "Ne", "Lt", "Le", "Gt", "Ge"):
            return self.compare(st, op, a, b)
        if a is not None and b is not None and a[0] == "B" and b[0] == "B" and op in ("BitAnd", "BitOr", "BitXor"):
            x, y = self.decide(st, a[1]), self.decide(st, b[1])
            if op == "BitAnd":
                return FALSE if x is False or y is False else (b if x is True else a if y is True else None)
            if op == "BitOr":
                return TRUE if x is True or y is True else (b if x is False else a if y is False else None)
            return None
        if op in ("Add", "Offset"):
            r = self.plus(a, b)
            if r is not None:
                return self.wrap(st, r, ft)
        if op == "Sub":
            r = self.plus(a, b, -1)
            if r is not None:
                return self.wrap(st, r, ft)
        if a is not None and b is not None and a[0] == "I" and b[0] == "I":
            x, y = a[1], b[1]
            try:
                r = {"Mul": lambda: x * y, "Div": lambda: x // y, "Rem": lambda: x % y, "BitAnd": lambda: x & y, "BitOr": lambda: x | y, "BitXor": lambda: x ^ y,
                     "Shl": lambda: x << (y & 63), "Shr": lambda: x >> (y & 63)}[op]()
                return self.wrap(st, N(r), ft)
            except (KeyError, ZeroDivisionError):
                return None
        if a is not None and a[0] == "X" and b is not None and b[0] == "I":
            if op == "Shr":
                t = a[1]
                if t[0] == "shr":
                    return ("X", ("shr", t[1], t[2] + b[1]))
                return ("X", ("shr", t, b[1]))
            if op == "BitAnd" and b[1] == 255:
                return a if a[1][0] in ("shr", "byte") else ("X", ("shr", a[1], 0))
        if a is not None and b is not None and a[0] in ("X", "I", "Y") and b[0] in ("X", "I", "Y"):
            return ("X", ("op", op, a, b))
        return None

    def wrap(self, st, r, ft):
        x = self.T[ft] if ft is not None else None
        if r[0] == "I" and x is not None and x["k"] == "uint" and x.get("size"):
            if r[1] < 0:
                return None
            return N(r[1] & ((1 << (8 * x["size"])) - 1))
        if r[0] == "Y" and x is not None and x["k"] == "uint" and x.get("size") == 1:
            # a byte plus something may wrap
            if not (self.ent_le(st, r, N(255)) and self.ent_le(st, N(0), r)):
                return None
        return r

    def signed(self, v, tid):
        """constants are kept as their bits: an ordering of signed ones needs the sign"""
        x = self.T[tid] if tid is not None else None
        if x is None or x["k"] != "int" or v is None or v[0] != "I" or v[1] < 1 << (8 * x["size"] - 1):
            return v
        return N(v[1] - (1 << (8 * x["size"])))

    def compare(self, st, op, a, b):
        if a is not None and b is not None and a[0] == "B" and b[0] == "B" and op in ("Eq", "Ne"):
            y = self.decide(st, b[1])
            if y is not None:
                return ("B", a[1] if y == (op == "Eq") else ("not", a[1]))
            return None
        if self.lin(a) is None or self.lin(b) is None:
            if a is not None and a == b and op in ("Eq", "Le", "Ge"):
                return TRUE
            if a is not None and a == b and op in ("Ne", "Lt", "Gt"):
                return FALSE
            if a is not None and b is not None and op in ("Eq", "Ne"):
                c = ("eq",) + tuple(sorted((a, b), key=repr))
                return ("B", c if op == "Eq" else ("not", c))
            if a is None or b is None or a[0] not in ("X", "I", "Y", "PAY") or b[0] not in ("X", "I", "Y", "PAY"):
                return None
        c = {"Eq": ("eq", a, b), "Ne": ("not", ("eq", a, b)), "Lt": ("lt", a, b), "Le": ("le", a, b), "Gt": ("lt", b, a), "Ge": ("le", b, a)}[op]
        r = self.decide(st, c)
        return ("B", r if r is not None else c)

    def seq(self, st, v):
        """elements of a byte sequence given by reference or by value"""
        if v is None:
            return None
        if v[0] == "A":
            return list(v[2])
        if v[0] == "SL":
            if not isinstance(v[3], int) or not isinstance(v[4], int):
                return None
            a = self.rd(st, v[1], v[2], None)
            if a is None or a[0] != "A" or v[4] > len(a[2]):
                return None
            return list(a[2][v[3]:v[4]])
        if v[0] == "R":
            a = self.rd(st, v[1], v[2], None)
            if a is not None and a[0] in ("R", "SL"):
                return self.seq(st, a)
            if a is not None and a[0] == "A":
                return list(a[2])
        return None

    # ------------------------------------------------------------ execution
    def canon(self, st, d, fn, blk):
        cf = self.p.cfg(fn)
        if blk is not None:
            self.prune(st, d, cf["live"][blk])
        self.gc(st)
        return self.key(st)

    def prune(self, st, d, live, extra=()):
        """locals that are neither used any more nor referred to"""
        dead = {c for c in st.mem if c[0] == "L" and c[1] == d and c[2] not in live}
        if not dead:
            return

        todo = [v for c, v in st.mem.items() if c not in dead] + list(st.gh.values()) + list(extra)
        while todo:
            v = todo.pop()
            if isinstance(v, tuple):
                for c in mentions(v)[0]:
                    if c in dead:
                        dead.discard(c)
                        todo.append(st.mem[c])
        for c in dead:
            del st.mem[c]

    def before_run(self, st, t, d, args):
        """what the caller does not need any more must not tell states of the callee apart"""
        if self.stack and len(self.stack) == d + 1 and t[4] is not None:
            cf = self.p.cfg(self.stack[-1])
            live = set(cf["live"][t[4]]) | {t[3][0]} | {e[1] for e in t[3][1] if e[0] == "i"}
            if isinstance(t[5], int):
                live |= cf["live"][t[5]]
            st = st.copy()
            self.prune(st, d, live, args)
        return st

    def roots_gh(self, st):
        return [v for k, v in st.gh.items()]

    def gc(self, st):
        cells, syms = set(), set()
        todo = [v for c, v in st.mem.items() if c[0] == "L"] + self.roots_gh(st)

        def scan(v):
            if isinstance(v, tuple):
                cs, ss = mentions(v)
                for c in cs:
                    cell(c)
                syms.update(ss)

        def cell(c):
            if c not in cells:
                cells.add(c)
                if c in st.mem:
                    todo.append(st.mem[c])
                if c[0] == "N" and c[1] in st.nodes:
                    n = st.nodes[c[1]]
                    for k in ("path", "up", "kids", "all"):
                        if n.get(k):
                            todo.append(n[k])
        while todo:
            scan(todo.pop())
        keepn = {c[1] for c in cells if c[0] == "N"} | self.keep_nodes(st)
        for nid in list(st.nodes):
            if nid not in keepn and nid != ("root",):
                del st.nodes[nid]
        for nid, n in st.nodes.items():
            for k in ("path", "up"):
                if n.get(k):
                    scan(n[k])
        for c in list(st.mem):
            if c[0] not in ("L", "SELF", "ARG", "D", "P") and c not in cells:
                del st.mem[c]
        for c in st.mem:
            if c[0] in ("SELF", "ARG", "D", "P"):
                scan(st.mem[c])
        syms |= self.keep_syms(st)
        st.z.keep(syms)
        s = set(st.z.s)
        st.ne = frozenset(x for x in st.ne if x[0] in s and x[1] in s)

    def keep_nodes(self, st):
        return set()

    def keep_syms(self, st):
        return set()

    def key(self, st):
        nodes = tuple(sorted(((k, tuple(sorted((a, b) for a, b in n.items() if a != "note"))) for k, n in st.nodes.items()), key=repr))
        return (frozenset(st.mem.items()), frozenset(st.z.d.items()), st.ne, nodes, frozenset(st.gh.items()), st.unk)

    def run_fn(self, st, key, args):
        """-> [(state, value)]"""
        f = self.p.fns[key]
        d = len(self.stack)
        if d > self.MAXDEPTH:
            raise Give("recursion")
        self.stack.append(key)
        save = getattr(self, "fn", None), self.span
        self.fn = f
        self.fns_seen.add(f["path"])
        cf = self.p.cfg(key)
        try:
            for c in [c for c in st.mem if c[0] == "L" and c[1] >= d]:
                del st.mem[c]
            for i, a in enumerate(args):
                st.mem[("L", d, i + 1)] = a
            work = [(0, st)]
            seen = {}
            out, outk = [], {}
            while work:
                blk, s = work.pop()
                self.fn = f
                self.nstates += 1
                if self.nstates > self.max_states:
                    raise Give("budget of abstract states")
                if self.deadline and self.nstates % 64 == 0 and time.time() > self.deadline:
                    raise Give("time budget")
                if blk in cf["heads"] or cf["join"][blk]:
                    k = (blk, self.canon(s, d, key, blk))
                    if k in seen:
                        continue
                    seen[k] = 1
                    if len(seen) > 30000:
                        raise Give("too many states in %s" % f["path"])
                for nb, ns, val in self.block(s, f, blk, d):
                    if nb == "ret":
                        for c in [c for c in ns.mem if c[0] == "L" and c[1] >= d]:
                            del ns.mem[c]
                        ns.gh["ret"] = val
                        self.gc(ns)
                        k = (self.key(ns), val)
                        val = ns.gh.pop("ret")
                        if k not in outk:
                            outk[k] = 1
                            out.append((ns, val))
                    else:
                        work.append((nb, ns))
            return out
        finally:
            self.stack.pop()
            self.fn, self.span = save

    def forked(self, st, fn):
        """run fn(state) -> list; a Fork inside restarts it on each part"""
        todo, out, n = [st], [], 0
        while todo:
            s = todo.pop()
            keep = s.copy()
            try:
                out += fn(s)
            except Fork as x:
                n += 1
                if n > 4000:
                    raise Give("too many case splits")
                todo += x.states
            except Infeasible:
                pass
        return out

    def block(self, st, f, blk, d):
        b = f["blocks"][blk]
        cur = [st]
        for s in b["s"]:
            if s[0] == "=":
                def do(x, s=s):
                    self.fn = f
                    self.setspan(s[3])
                    self.assign(x, s[1], self.rvalue(x, s[2], s[1][2], d), d)
                    return [x]
            elif s[0] == "dead":
                for x in cur:
                    x.mem.pop(("L", d, s[1]), None)
                continue
            elif s[0] in ("setd", "copy_nonoverlapping"):
                raise Give(s[0])
            else:
                continue
            nxt = []
            for x in cur:
                nxt += self.forked(x, do)
            cur = nxt
        out = []

        def term(y):
            self.fn = f
            return self.terminator(y, b["t"], d)
        for x in cur:
            out += self.forked(x, term)
        return out

    def setspan(self, s):
        self.span = s
        if s.startswith("src/"):
            self.local_span = s

    def assign(self, st, pl, v, d):
        if not pl[1]:
            st.mem[("L", d, pl[0])] = v
            return
        cell, path, tid, sl = self.resolve(st, pl, d)
        if cell != ("?",):
            self.store(st, cell, path, v)

    def terminator(self, st, t, d):
        k = t[0]
        if k == "goto":
            return [(t[1], st, None)]
        if k == "return":
            return [("ret", st, st.mem.get(("L", d, 0)))]
        if k in ("unreachable", "resume", "abort"):
            return []
        if k == "drop":
            return [(t[2], st, None)]
        if k == "switch":
            self.setspan(t[5])
            v = self.operand(st, t[1], d)
            out = []
            if v is not None and v[0] == "B":
                tgt = dict((x, b) for x, b in t[2])
                for val in (False, True):
                    for s in self.assume(st.copy(), v[1], val):
                        self.branched(s, v[1], val)
                        out.append((tgt.get(int(val), t[3]), s, None))
                return out
            if v is not None and v[0] in ("I", "Y"):
                rest = [st]
                for x, b in t[2]:
                    nxt = []
                    for s in rest:
                        for y in self.assume(s.copy(), ("eq", v, N(x)), True):
                            out.append((b, y, None))
                        nxt += self.assume(s.copy(), ("eq", v, N(x)), False)
                    rest = nxt
                if self.fn["blocks"][t[3]]["t"][0] != "unreachable":
                    out += [(t[3], s, None) for s in rest]
                return out
            # unknown: which variant it is becomes known on each branch
            src = self.discr_src(st, t[1], d)
            for x, b in list(t[2]) + [(None, t[3])]:
                if self.fn["blocks"][b]["t"][0] == "unreachable":
                    continue
                s = st.copy()
                if src is not None and x is not None:
                    cell, path, tid = src
                    i = next((i for i, w in enumerate(self.T[tid]["variants"]) if w["d"] == x), None)
                    if i is not None:
                        old = self.load(s, cell, path, tid)
                        fs = self.p.fields(tid, i)
                        self.store(s, cell, path, ("A", i, tuple(("X", ("fld", old[1], j)) if old is not None and old[0] == "X" else None for j in range(len(fs)))))
                if v is None or v[0] != "X" or self.about_keys(v):
                    s.unk = True
                    self.count("unknown-branch", self.site())
                elif v[1][0] == "count" and x == 0:
                    self.on_empty(s, v[1][1])
                out.append((b, s, None))
            return out
        if k == "assert":
            self.setspan(t[6])
            v = self.operand(st, t[1], d)
            if v is None or v[0] != "B":
                return [(t[4], st, None)]
            out = []
            for s in self.assume(st.copy(), v[1], not t[2]):
                if v[1] is not None:
                    self.panic(s, "a bounds or arithmetic check can fail")
            for s in self.assume(st.copy(), v[1], bool(t[2])):
                out.append((t[4], s, None))
            self.count("check", self.span)
            return out
        if k == "call":
            self.setspan(t[6])
            out = []
            for s, v in self.call(st, t, d):
                self.fn = self.p.fns[self.stack[-1]]
                if t[4] is None:
                    continue

                def put(x, v=v):
                    self.fn = self.p.fns[self.stack[-1]]
                    self.assign(x, t[3], v, d)
                    return [(t[4], x, None)]
                out += self.forked(s, put)
            return out
        raise Give("terminator %s" % k)

    def discr_src(self, st, o, d):
        """the enum whose variant the switch is about, if it was just looked at"""
        if o[0] not in ("copy", "move") or o[1][1]:
            return None
        loc = o[1][0]
        for b in self.fn["blocks"]:
            for s in b["s"]:
                if s[0] == "=" and not s[1][1] and s[1][0] == loc and s[2][0] == "discr":
                    try:
                        cell, path, tid, sl = self.resolve(st, s[2][1], d)
                    except Fork:
                        return None
                    if cell != ("?",) and tid is not None and self.T[tid].get("adt") == "enum" and cell[0] != "N":
                        return cell, path, tid
        return None

    def branched(self, st, c, val):
        pass

    def panic(self, st, why):
        if st.unk or why == "a panic can be reached":
            return
        self.report(self.panic_prop, "panic", st, why)

    panic_prop = "C17"

    # ------------------------------------------------------------ calls
    def call(self, st, t, d):
        c = self.p.callee(t[1])
        args = [self.operand(st, o, d) for o in t[2]]
        atys = [self.op_ty(o) for o in t[2]]
        rt = t[3][2]
        if c is None:
            return self.opaque_call(st, None, args, atys, rt)
        p = c["path"]
        if "ctor" in c:
            x = self.T[rt]
            vi = 0
            for i, w in enumerate(x.get("variants") or []):
                if w.get("n") == p.rsplit("::", 1)[-1]:
                    vi = i
            return [(st, ("A", vi, tuple(args)))]
        r = self.model(st, c, p, args, atys, rt)
        if r is not None:
            return r
        a = self.p.alloc_call(c, len(t[2]))
        if a:
            return self.alloc(st, a, args, rt)
        key = c.get("key")
        f = self.p.fns.get(key) if key else None
        if p in FNC:
            return self.callv(st, args[0], self.untuple(args[1], atys[1]))
        if key and key in self.p.cops and self.p.cops[key]["kind"] != "read":
            return self.container(st, self.p.cops[key], args, key)
        if key and key in self.p.cops and self.p.cops[key]["nodes"] and self.p.cops[key]["nodes"][0][2] in self.p.kinds:
            return [(st, ("X", ("any",)) if self.T[rt]["k"] in ("bool", "uint", "int") else None)]
        if key == self.ctor:
            sl = next((a for a, t in zip(args, atys) if self.is_bytes_ref(t)), None)
            e = self.seq(st, sl)
            if e is not None and len(e) <= KEY and all(b is not None for b in e):
                return [(st, self.header(st, tuple(e)))]
        if f and "blocks" in f:
            if f.get("local") and key in self.p.recursive():
                return self.modular(self.before_run(st, t, d, args), key, args, atys)
            if self.stack.count(key) > 2:
                return self.opaque_call(st, c, args, atys, rt)
            return self.run_fn(self.before_run(st, t, d, args), key, args)
        return self.opaque_call(st, c, args, atys, rt)

    def untuple(self, v, ty):
        if v is not None and v[0] == "A":
            return list(v[2])
        n = len(self.T[ty].get("f", [])) if ty is not None else 0
        return [None] * n

    def callv(self, st, fv, args):
        """call of a closure or function value"""
        depth = 0
        me = fv
        while fv is not None and fv[0] == "R" and depth < 4:
            fv = self.rd(st, fv[1], fv[2], None)
            depth += 1
        if fv is not None and fv[0] == "F":
            if fv[1] in self.p.fns and "blocks" in self.p.fns[fv[1]]:
                return self.run_fn(st, fv[1], args)
            if fv[1].endswith("::Some"):
                return [(st, some(args[0]))]
            return [(st, ("X", ("call", fv[1]) + tuple(args)))] if fv[1] and all(a is not None and a[0] in ("X", "PAY") for a in args) and False else self.conv_call(st, fv[1], args)
        if fv is not None and fv[0] == "CL":
            key = self.T[fv[1]].get("call")
            if key in self.p.fns and "blocks" in self.p.fns[key]:
                f = self.p.fns[key]
                first = fv
                if self.T[f["locals"][1]]["k"] == "ref":
                    if me is not None and me[0] == "R" and depth == 1:
                        first = me
                    else:
                        cell = ("CLO", len(self.stack))
                        st.mem[cell] = fv
                        first = ("R", cell, ())
                if f.get("spread") is not None:
                    args = [("A", 0, tuple(args))]
                return self.run_fn(st, key, [first] + list(args))
        return self.user_call(st, fv, args)

    def conv_call(self, st, path, args):
        if path.endswith("::from") or path.endswith("::into"):
            return [(st, self.conv(args[0]))]
        return [(st, None)]

    def conv(self, v):
        if v is None:
            return None
        if v[0] in ("X", "PAY", "I", "Y"):
            return v if v[0] != "X" else ("X", ("conv", v[1]))
        return v

    def user_call(self, st, fv, args):
        """the caller's code: any result"""
        st.note("%s: the caller's closure runs" % self.span)
        return [(st, None)]

    def opaque_call(self, st, c, args, atys, rt):
        for a, ty in zip(args, atys):
            x = self.T[ty] if ty is not None else None
            if a is not None and a[0] == "R" and x is not None and x["k"] in ("ref", "ptr") and x.get("mut"):
                if a[1][0] in ("N", "BUF"):
                    continue
                try:
                    self.store(st, a[1], a[2], None)
                except Give:
                    pass
        return [(st, None)]

    def alloc(self, st, a, args, rt):
        if a == "free":
            return [(st, UNIT)]
        i = 0
        while ("f", i) in st.nodes:
            i += 1
        s2 = st.copy()
        nid = ("f", i)
        st.nodes[nid] = dict(L=None, fresh=True, kids=(), all=None)
        self.count("new-node", self.site())
        return [(st, ("A", 0, (("R", ("N", nid), ()),))), (s2, ("A", 1, (None,)))]

    # recursion: one summary per canonical entry -----------------------------
    def modular(self, st, key, args, atys):
        self.give("recursion")

    # container operations ----------------------------------------------------
    def node_id(self, st, v):
        d = 0
        while v is not None and d < 5:
            if v[0] == "R" and v[1][0] == "N":
                return v[1][1]
            P = self.ptr(v) if v[0] in ("A",) else None
            if v[0] == "R":
                v = self.rd(st, v[1], v[2], None)
            elif P is not None:
                v = ("R", P[0], P[1])
            else:
                return None
            d += 1
        return None

    def container(self, st, op, args, key):
        kind = op["kind"]
        self.count("container-" + kind, self.site())
        if kind == "next":
            return self.c_next(st, args[op["iters"][0]])
        nids = [self.node_id(st, args[i]) for (i, m, ty) in op["nodes"]]
        nid = nids[0]
        if nid is None or nid not in st.nodes:
            self.give("an operation on an unknown node")
        n = st.nodes[nid]
        if not n["fresh"]:
            n = self.resolve_node(st, nid)
        bs = [args[i] for i in op["u8s"]]
        if kind == "lookup":
            return self.c_lookup(st, nid, bs[0])
        if kind == "iter":
            lo, hi = (bs + [N(0), N(255)])[:2] if len(bs) == 2 else (N(0), N(255))
            self.on_enum(st, nid, lo, hi)
            return [(st, ("KIDS", nid, lo, hi))]
        if kind == "init":
            return [(st, UNIT)]
        if kind == "copy":
            dst = [x for x, (i, m, ty) in zip(nids, op["nodes"]) if m]
            src = [x for x, (i, m, ty) in zip(nids, op["nodes"]) if not m]
            if len(dst) != 1 or len(src) != 1 or dst[0] is None:
                self.give("copy of children")
            self.on_copy(st, src[0], dst[0])
            return [(st, UNIT)]
        if kind == "insert":
            self.on_link(st, nid, bs[0], args[op["nps"][0]], "insert")
            return [(st, UNIT)]
        if kind == "change":
            self.on_link(st, nid, bs[0], args[op["nps"][0]], "change")
            return [(st, None)]
        if kind == "remove":
            self.on_remove(st, nid, bs[0])
            return [(st, UNIT if True else None)]
        self.give("container operation %s" % kind)

    def c_lookup(self, st, nid, b):
        n = st.nodes[nid]
        self.on_lookup(st, nid, b)
        s2 = st.copy()
        s2.note("%s: no child" % self.span)
        self.on_absent(s2, nid, b)
        if b is None:
            b = None
        w = self.child_record(st, nid, b)
        st.note("%s: child found at depth %d" % (self.span, n["L"]))
        self.on_kid(st, nid, w[1])
        return [(s2, NONE), (st, some(w))]

    def c_next(self, st, a):
        d = 0
        ref = None
        v = a
        while v is not None and v[0] == "R" and d < 4:
            ref = v
            v = self.rd(st, v[1], v[2], None)
            d += 1
        if v is None or v[0] != "KIDS":
            self.give("an enumeration that is not tracked")
        return [(s, x) for s, it, x in self.next(st, v)]

    # iterators: next(st, it) -> [(state, it', Option value)] -------------------
    def next(self, st, it):
        if it is None:
            self.give("an iterator that is not tracked")
        k = it[0]
        if k == "IT":
            if not it[1]:
                return [(st, it, NONE)]
            return [(st, ("IT", it[1][1:]), some(it[1][0]))]
        if k == "KIDS":
            nid, lo, hi = it[1], it[2], it[3]
            self.on_kid_done(st, nid, lo)
            s2 = st.copy()
            s2.note("%s: no more children" % self.span)
            self.on_enum_end(s2, nid, lo, hi)
            n = st.nodes.get(nid)
            if n is None or n["L"] is None:
                self.give("enumeration of a node that is not tracked")
            self.forget(st, n["L"])
            b = self.byte(st, ("b", n["L"]))
            out = [(s2, it, NONE)]
            try:
                if lo is not None and self.lin(lo):
                    x = self.lin(lo)
                    st.z.add(x[0], b[1], -x[1])
                if hi is not None and self.lin(hi):
                    x = self.lin(hi)
                    st.z.add(b[1], x[0], x[1])
                self.tighten(st)
            except Infeasible:
                return out
            w = self.child_record(st, nid, b)
            # child_record forgot the byte's own level: declare it again
            self.byte(st, ("b", n["L"]))
            if lo is not None and self.lin(lo):
                x = self.lin(lo)
                st.z.add(x[0], b[1], -x[1])
            if hi is not None and self.lin(hi):
                x = self.lin(hi)
                st.z.add(b[1], x[0], x[1])
            st.note("%s: next child of a node with %d path bytes" % (self.span, n["L"]))
            self.on_kid(st, nid, w[1])
            out.append((st, it, some(("A", 0, (b, w)))))
            return out
        if k == "ENUM":
            return [(s, ("ENUM", i2, self.plus(it[2], N(1))), (some(("A", 0, (it[2], x[2][0]))) if x[1] == 1 else NONE)) for s, i2, x in self.next(st, it[1])]
        if k == "MAP":
            out = []
            for s, i2, x in self.next(st, it[1]):
                if x[1] == 0:
                    out.append((s, ("MAP", i2, it[2]), NONE))
                else:
                    for s3, v in self.callv(s, it[2], [x[2][0]]):
                        out.append((s3, ("MAP", i2, it[2]), some(v)))
            return out
        if k == "ZIP":
            out = []
            for s, i2, x in self.next(st, it[1]):
                if x[1] == 0:
                    out.append((s, ("ZIP", i2, it[2]), NONE))
                    continue
                for s3, j2, y in self.next(s, it[2]):
                    out.append((s3, ("ZIP", i2, j2), some(("A", 0, (x[2][0], y[2][0]))) if y[1] == 1 else NONE))
            return out
        if k == "TAKE":
            # the number can only be bounded above
            out = []
            for s, i2, x in self.next(st, it[1]):
                out.append((s, ("TAKE", i2, it[2]), x))
            s2 = st.copy()
            return out + [(s2, it, NONE)]
        if k in ("FILTER", "TAKEWHILE", "SKIPWHILE"):
            out = []
            todo = [(st, it[1])]
            while todo:
                s0, i0 = todo.pop()
                for s, i2, x in self.next(s0, i0):
                    if x[1] == 0:
                        out.append((s, (k, i2, it[2]), NONE))
                        continue
                    cell = ("FA", len(self.stack))
                    s.mem[cell] = x[2][0]
                    for s3, v in self.callv(s, it[2], [("R", cell, ())]):
                        for val in (True, False):
                            for s4 in self.assume(s3.copy(), v[1] if v is not None and v[0] == "B" else None, val):
                                if k == "FILTER":
                                    if val:
                                        out.append((s4, (k, i2, it[2]), x))
                                    else:
                                        todo.append((s4, i2))
                                elif k == "TAKEWHILE":
                                    out.append((s4, (k, i2, it[2]), x) if val else (s4, ("IT", ()), NONE))
                                else:
                                    if val:
                                        todo.append((s4, i2))
                                    else:
                                        out.append((s4, i2, x))
            return out
        if k == "RNG":
            lo, hi = it[1], it[2]
            if lo[0] == "I" and hi is not None and hi[0] == "I":
                if lo[1] >= hi[1]:
                    return [(st, it, NONE)]
                return [(st, ("RNG", N(lo[1] + 1), hi), some(lo))]
            return self.next_range(st, it)
        self.give("iterator %s" % k)

    def next_range(self, st, it):
        """a range with an end that is not known: any element of it"""
        s2 = st.copy()
        self.range_end(s2, it)
        s = ("it", len(self.stack))
        m = lambda v: has(v, lambda q: q == ("Y", s, 0))
        for k, v in list(st.mem.items()):
            if v is not None and has(v, lambda q: q[:2] == ("Y", s)):
                st.mem[k] = self.blank(v, lambda q: q[:2] == ("Y", s))
        st.z.keep([x for x in st.z.s if x != s])
        v = self.num(st, s)
        if it[1] is not None and self.lin(it[1]):
            x = self.lin(it[1])
            st.z.add(x[0], s, -x[1])
        if it[2] is not None and self.lin(it[2]):
            x = self.lin(it[2])
            try:
                st.z.add(s, x[0], x[1] - 1)
            except Infeasible:
                return [(s2, it, NONE)]
        self.range_step(st, it, v)
        return [(s2, it, NONE), (st, it, some(v))]

    def range_end(self, st, it):
        pass

    def range_step(self, st, it, v):
        pass

    def as_iter(self, st, v, ty=None):
        """IntoIterator"""
        if v is None:
            return None
        if v[0] in ("IT", "KIDS", "ENUM", "MAP", "ZIP", "TAKE", "FILTER", "TAKEWHILE", "SKIPWHILE", "RNG"):
            return v
        if v[0] == "R":
            x = self.rd(st, v[1], v[2], None)
            pt = self.p.pointee(ty) if ty is not None else None
            if pt is not None and self.T[pt]["k"] == "array" and self.T[pt].get("len") is not None:
                return ("IT", tuple(("R", v[1], v[2] + (("x", N(i)),)) for i in range(self.T[pt]["len"])))
            if x is not None and x[0] in ("IT", "KIDS", "ENUM", "MAP", "ZIP", "TAKE", "RNG"):
                return x
            return None
        if v[0] == "SL":
            if isinstance(v[3], int) and isinstance(v[4], int):
                return ("IT", tuple(("R", v[1], v[2] + (("x", N(i)),)) for i in range(v[3], v[4])))
            return None
        if v[0] == "A" and ty is not None:
            x = self.T[ty]
            if x["k"] == "array":
                return ("IT", tuple(v[2]))
            if x["k"] == "adt" and x["path"].endswith("range::Range"):
                return ("RNG", v[2][0], v[2][1])
            if x["k"] == "adt" and x["path"].endswith("RangeInclusive"):
                return ("RNG", v[2][0], self.plus(v[2][1], N(1)))
        return None

    def run_iter(self, st, it, f):
        """for x in it { f }: f(st, x) -> [(state, 'go' or value)] -> [(state, it', value or None at the end)]"""
        out, work, seen = [], [(st, it)], set()
        while work:
            s, i = work.pop()
            s.gh["it"] = i
            self.gc(s)
            k = self.key(s)
            i = s.gh.pop("it")
            if k in seen:
                continue
            seen.add(k)
            if len(seen) > 3000:
                raise Give("iteration")
            for s2, i2, x in self.next(s, i):
                if x[1] == 0:
                    out.append((s2, i2, None))
                    continue
                for s3, v in f(s2, x[2][0]):
                    if v == "go":
                        work.append((s3, i2))
                    else:
                        out.append((s3, i2, v))
        return out

    # hooks for the rules ------------------------------------------------------
    def on_lookup(self, st, nid, b):
        pass

    def on_absent(self, st, nid, b):
        pass

    def on_enum(self, st, nid, lo, hi):
        pass

    def on_kid(self, st, nid, c):
        pass

    def on_kid_done(self, st, nid, lo):
        pass

    def on_enum_end(self, st, nid, lo, hi):
        pass

    def on_copy(self, st, src, dst):
        st.nodes[dst] = dict(st.nodes[dst], all=src)

    def on_link(self, st, nid, b, w, how):
        pass

    def on_remove(self, st, nid, b):
        pass
