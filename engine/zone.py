"""Abstract interpreter for the code inside one node: difference-bound zones over symbolic
integers, array segmentation for the node's arrays, ordering facts about the stored key bytes
through ranks.  Loops run to a fixpoint with widening ("prove" mode); a requirement that is
not proven is looked at again on paths with unrolled loops and no widening ("refute" mode),
where difference constraints are exact: only a path refuted there is reported.

Nothing is executed; there is no solver: entailment in the zone domain is a table lookup.
"""
import sys
import time
from collections import defaultdict
from mir import Missing

sys.setrecursionlimit(20000)
Z = "0"          # the symbol for zero
INF = 1 << 60


class Infeasible(Exception):
    pass


class Fork(Exception):
    """re-run the statement under a - b <= c and under its negation"""

    def __init__(self, a, b, c):
        self.c = (a, b, c)


class Split(Exception):
    """re-run the statement with an assumption made true and false"""

    def __init__(self, cond):
        self.cond = cond


class Give(Exception):
    """the analysis does not understand something it would need"""


class Zone:
    __slots__ = ("d", "s")

    def __init__(self):
        self.d = {}
        self.s = [Z]

    def copy(self):
        z = Zone.__new__(Zone)
        z.d = dict(self.d)
        z.s = list(self.s)
        return z

    def sym(self, x):
        if x not in self.s:
            self.s.append(x)

    def ub(self, a, b):
        """upper bound of a - b"""
        if a == b:
            return 0
        return self.d.get((a, b), INF)

    def add(self, a, b, c):
        if a == b:
            if c < 0:
                raise Infeasible()
            return
        self.sym(a)
        self.sym(b)
        d = self.d
        if d.get((a, b), INF) <= c:
            return
        if d.get((b, a), INF) + c < 0:
            raise Infeasible()
        ins = [(a, 0)] + [(i, d[(i, a)]) for i in self.s if (i, a) in d]
        outs = [(b, 0)] + [(j, d[(b, j)]) for j in self.s if (b, j) in d]
        for i, x in ins:
            for j, y in outs:
                if i != j:
                    w = x + c + y
                    if w < d.get((i, j), INF):
                        if w + d.get((j, i), INF) < 0:
                            raise Infeasible()
                        d[(i, j)] = w

    def keep(self, syms):
        drop = [x for x in self.s if x not in syms and x != Z]
        if drop:
            ds = set(drop)
            self.s = [x for x in self.s if x not in ds]
            self.d = {k: v for k, v in self.d.items() if k[0] not in ds and k[1] not in ds}


class St:
    __slots__ = ("mem", "z", "pres", "pf", "gh", "unk", "tr", "emit", "wid", "dead")

    def __init__(s):
        s.mem = {}; s.z = Zone(); s.pres = {}; s.pf = {}; s.gh = {}; s.unk = False; s.tr = None; s.emit = (); s.wid = False; s.dead = None

    def copy(s):
        n = St.__new__(St)
        n.mem = dict(s.mem); n.z = s.z.copy(); n.pres = dict(s.pres); n.pf = dict(s.pf); n.gh = dict(s.gh)
        n.unk = s.unk; n.tr = s.tr; n.emit = s.emit; n.wid = s.wid; n.dead = s.dead
        return n

    def note(s, x):
        s.tr = (s.tr, x)


def I(s, c=0):
    return ("I", s, c)


def K(c):
    return ("I", Z, c)


TRUE, FALSE = ("B", ("c", True)), ("B", ("c", False))
NONE_ = ("A", 0, ())


def some(v):
    return ("A", 1, (v,))


STRUCT = ("elt", "X", "M", "div8", "mod8", "pow", "not", "or", "and", "any")


def is_struct(s):
    return isinstance(s, tuple)


class ZEngine:
    UNROLL = 5

    def __init__(self, prog, mode="prove", torn=False):
        self.p = prog
        self.T = prog.T
        self.mode = mode
        self.torn = torn
        self.n = 0
        self.viol = {}
        self.fails = []
        self.unknown = set()
        self.ev = defaultdict(set)
        self.states = 0
        self.kind = None
        self.stack = []
        self.deadline = None

    # ------------------------------------------------------------ basics
    def fresh(self, hint="t"):
        self.n += 1
        return "%s%d" % (hint, self.n)

    def fresh_int(self, st, tid=None, lo=0, hi=None):
        s = self.fresh()
        x = self.T[tid] if tid is not None else None
        if hi is None:
            hi = (1 << (8 * (x.get("size") or 8))) - 1 if x and x["k"] == "uint" else (1 << 64) - 1
        if x and x["k"] == "int":
            lo, hi = -(1 << 63), (1 << 63) - 1
        st.z.add(Z, s, -lo)
        st.z.add(s, Z, hi)
        return I(s)

    def opaque(self, st, tid):
        """an unknown value of a type"""
        x = self.T[tid]
        if x["k"] in ("uint", "int"):
            st.wid = True
            return self.fresh_int(st, tid)
        if x["k"] == "bool":
            return ("B", ("u", self.fresh()))
        if x["k"] == "tuple" and not x.get("f"):
            return ("A", None, ())
        if tid == self.p.np_ty:
            return ("P", ("u", self.fresh()))
        return None

    def le(self, st, a, b, c=0):
        """entailed: value a <= value b + c"""
        return st.z.ub(a[1], b[1]) <= b[2] - a[2] + c

    def lt(self, st, a, b):
        return self.le(st, a, b, -1)

    def eq(self, st, a, b):
        return self.le(st, a, b) and self.le(st, b, a)

    def const(self, st, a):
        u, l = st.z.ub(a[1], Z), st.z.ub(Z, a[1])
        if a[1] == Z:
            return a[2]
        if u == -l:
            return u + a[2]
        return None

    def asm_le(self, st, a, b, c=0):
        st.z.add(a[1], b[1], b[2] - a[2] + c)

    def need(self, st, a, b, c=0):
        """make a <= b + c decided: True/False, or Fork"""
        if self.le(st, a, b, c):
            return True
        if self.le(st, b, a, -c - 1):
            return False
        raise Fork(a[1], b[1], b[2] - a[2] + c)

    def axioms(self, st, s):
        """range facts about a structured symbol"""
        if s in st.z.s or not is_struct(s):
            return
        lo, hi = 0, 255
        if s[0] == "X":
            hi = max(self.kind["cap"], self.kind["marker"]) if self.kind.get("marker") is not None else 255
        elif s[0] == "div8":
            hi = 31
        elif s[0] == "mod8":
            hi = 7
        elif s[0] in ("slot", "nextslot"):
            hi = self.kind["cap"]
        if s[0] == "X" and s[1:] in st.pf and self.kind.get("marker") is not None:
            if st.pf[s[1:]]:
                hi = self.kind["cap"] - 1
            else:
                lo = hi = self.kind["marker"]
        st.z.add(s, Z, hi)
        st.z.add(Z, s, -lo)

    def mksym(self, st, s, c=0):
        if s[0] in ("div8", "mod8"):
            v = self.const(st, I(s[1], s[2]))
            if v is not None:
                return K((v // 8 if s[0] == "div8" else v % 8) + c)
        self.axioms(st, s)
        return I(s, c)

    # ------------------------------------------------------------ conditions
    def assume(self, st, cond, val):
        """-> list of states"""
        k = cond[0]
        if k == "c":
            return [st] if cond[1] == val else []
        if k == "u":
            s = st.copy()
            s.unk = True
            return [s]
        if k == "not":
            return self.assume(st, cond[1], not val)
        if k in ("and", "or"):
            if (k == "and") == val:
                out = []
                for s in self.assume(st, cond[1], val):
                    out += self.assume(s, cond[2], val)
                return out
            out = self.assume(st.copy(), cond[1], val)
            for s in self.assume(st.copy(), cond[1], not val):
                out += self.assume(s, cond[2], val)
            return out
        if k == "le":
            a, b = cond[1], cond[2]
            if not val:
                a, b, c = b, a, -1
            else:
                c = 0
            return self.assume_le(st, a, b, c)
        if k == "eq":
            a, b = cond[1], cond[2]
            if val:
                out = []
                for s in self.assume_le(st, a, b, 0):
                    out += self.assume_le(s, b, a, 0)
                return self.after_eq(out, a, b)
            out = self.assume_le(st.copy(), a, b, -1) + self.assume_le(st.copy(), b, a, -1)
            return self.after_ne(out, a, b)
        if k == "bit":
            return self.assume_bit(st, cond[1], val)
        raise Give("condition %s" % k)

    def after_eq(self, out, a, b):
        if self.kind.get("shape") != "table":
            return out
        for x, y in ((a, b), (b, a)):
            if is_struct(x[1]) and x[1][0] == "X" and y[1] == Z and x[2] == 0:
                r = []
                for s in out:
                    r += self.presence(s, I(*x[1][1:]), y[2] != self.kind["marker"])
                return r
        return out

    def after_ne(self, out, a, b):
        if self.kind.get("shape") != "table":
            return out
        for x, y in ((a, b), (b, a)):
            if is_struct(x[1]) and x[1][0] == "X" and y[1] == Z and x[2] == 0 and y[2] == self.kind["marker"]:
                r = []
                for s in out:
                    r += self.presence(s, I(*x[1][1:]), True)
                return r
        return out

    def known_presence(self, st, e):
        """whether byte e is present: True/False/None"""
        for (s, c), v in st.pf.items():
            if (s, c) == (e[1], e[2]) or self.eq(st, I(s, c), e):
                return v
        return None

    def presence(self, st, e, v):
        for w in {x for (s, c), x in st.pf.items() if (s, c) == (e[1], e[2]) or self.eq(st, I(s, c), e)}:
            if w != v:
                return []
        st.pf[(e[1], e[2])] = v
        if self.kind.get("shape") == "table":
            x = ("X", e[1], e[2])
            self.axioms(st, x)
            try:
                if v:
                    st.z.add(x, Z, self.kind["cap"] - 1)
                elif self.kind["marker"] is not None:
                    st.z.add(x, Z, self.kind["marker"])
                    st.z.add(Z, x, -self.kind["marker"])
            except Infeasible:
                return []
        if not v:
            self.cover(st, e)
        return [st]

    def gap(self, st, a, b):
        """nothing in [a, b) has to be reported: empty, or all of it outside the requested range"""
        g = st.gh
        if self.le(st, b, a):
            return True
        if "lo" in g:
            return self.le(st, b, g["lo"]) or self.le(st, g["hi"], a) or self.le(st, g["hi"], g["lo"])
        return False

    def cover(self, st, e):
        """position e needs no report: move the frontier of what has been dealt with"""
        g = st.gh
        if "b" in g and self.le(st, g["b"], e) and self.gap(st, g["b"], e):
            g["b"] = I(e[1], e[2] + 1)
        elif "h" in g and self.eq(st, g["h"], I(e[1], e[2] + 1)):
            g["h"] = I(e[1], e[2])

    def assume_bit(self, st, b, val):
        e = b
        return self.presence(st, e, val)

    def assume_le(self, st, a, b, c):
        """a <= b + c, with what it says about ranks"""
        ea = is_struct(a[1]) and a[1][0] == "elt"
        eb = is_struct(b[1]) and b[1][0] == "elt"
        try:
            st.z.add(a[1], b[1], b[2] - a[2] + c)
        except Infeasible:
            return []
        a, b, c = I(a[1]), I(b[1]), b[2] - a[2] + c
        if c not in (0, -1) or not (ea or eb):
            if (ea or eb) and c in (0, -1) and not (ea and eb):
                # against a constant: nothing is known of it
                other = b if ea else a
                if other[1] == Z:
                    st.unk = st.unk or False
            return [st]
        n = st.gh["n"]
        out = []
        if ea and eb:
            e1, e2 = I(*a[1][1:]), I(*b[1][1:])
            try:
                if self.le(st, e1, n, -1) and self.le(st, e2, n, -1):
                    self.asm_le(st, e1, e2, c)
            except Infeasible:
                return []
            return [st]
        e = I(*(a if ea else b)[1][1:])
        q = (b if ea else a)[1]
        if q not in st.pres:
            return [st]
        rk, pr = I("rk_" + q), int(st.pres[q])
        for inside in (True, False):
            s = st.copy()
            try:
                if inside:
                    self.asm_le(s, e, n, -1)
                    if ea and c == 0:        # elt <= q
                        self.asm_le(s, e, rk, pr - 1)
                    elif ea:                 # elt < q
                        self.asm_le(s, e, rk, -1)
                    elif c == 0:             # q <= elt
                        self.asm_le(s, rk, e)
                    else:                    # q < elt
                        self.asm_le(s, rk, e, -pr)
                    lo, hi = s.gh.get("lo"), s.gh.get("hi")
                    if lo is not None:
                        if self.lt(s, e, lo) or self.le(s, hi, e):
                            self.cover(s, e)
                else:
                    self.asm_le(s, n, e)
            except Infeasible:
                continue
            out.append(s)
        return out

    # ------------------------------------------------------------ memory
    def seg_bounds(self, arr, i):
        """segment i of an array value covers [lo, hi)"""
        segs = arr[2]
        lo = K(0) if i == 0 else segs[i - 1][0]
        return lo, segs[i][0]

    def locate(self, st, arr, e):
        segs = arr[2]
        for i in range(len(segs)):
            if self.need(st, e, segs[i][0], -1):
                return i
        raise Infeasible()

    def cellval(self, st, d, e):
        """content of a cell of a segment with description d at index e"""
        if d is None:
            return None
        if d[0] == "old":
            return self.old(st, d[1], I(e[1], e[2] + d[2]))
        if d[0] == "val":
            return d[1]
        if d[0] == "cnt":
            return ("P", ("pay", e[1], e[2] + d[1]))
        return None

    def old(self, st, name, e):
        k = self.kind
        if name == "keys":
            return self.mksym(st, ("elt", e[1], e[2]))
        if name == "idx":
            return self.mksym(st, ("X", e[1], e[2]))
        if name == "mask":
            return self.mksym(st, ("M", e[1], e[2]))
        if name == "children":
            if k["shape"] == "table":
                return ("P", ("slot", e[1], e[2]))
            return ("P", ("child", e[1], e[2]))
        return None

    def normdesc(self, v, e):
        """the segment description of one cell at index e holding v"""
        if v is None:
            return None
        if v[0] == "I" and is_struct(v[1]) and v[2] == 0 and v[1][0] in ("elt", "X", "M"):
            s, c = v[1][1], v[1][2]
            if s == e[1]:
                return ("old", {"elt": "keys", "X": "idx", "M": "mask"}[v[1][0]], c - e[2])
        if v[0] == "P" and v[1][0] in ("child", "slot") and v[1][1] == e[1]:
            return ("old", "children", v[1][2] - e[2])
        if v[0] == "P" and v[1][0] == "pay" and v[1][1] == e[1] and e[1] != Z:
            return ("cnt", v[1][2] - e[2])
        return ("val", v)

    def desc_const(self, st, v, e):
        """as normdesc, but up to what the zone knows"""
        d = self.normdesc(v, e)
        if d is not None and d[0] == "val" and v[0] == "I" and is_struct(v[1]) and v[2] == 0 and v[1][0] in ("elt", "X", "M"):
            i = I(v[1][1], v[1][2])
            u, l = st.z.ub(i[1], e[1]), st.z.ub(e[1], i[1])
            if u == -l and u < INF:
                return ("old", {"elt": "keys", "X": "idx", "M": "mask"}[v[1][0]], i[2] + u - e[2])
        if d is not None and d[0] == "val" and v[0] == "P" and v[1][0] in ("child", "slot", "pay"):
            i = I(v[1][1], v[1][2])
            u, l = st.z.ub(i[1], e[1]), st.z.ub(e[1], i[1])
            if u == -l and u < INF:
                if v[1][0] == "pay":
                    return ("cnt", i[2] + u - e[2])
                return ("old", "children", i[2] + u - e[2])
        return d

    def setseg(self, st, arr, lo, hi, desc):
        """array with [lo, hi) described by desc; lo <= hi decided, boundaries decided against both"""
        segs = arr[2]
        out = []
        prev = K(0)
        done = False
        for (h, d) in segs:
            # part of [prev, h) before lo
            if self.need(st, h, lo):
                out.append((h, d))
                prev = h
                continue
            if self.need(st, prev, lo, -1):
                out.append((lo, d))
            if not done:
                out.append((hi, desc))
                done = True
            if self.need(st, h, hi):
                prev = h
                continue
            out.append((h, d))
            prev = h
        if not done and self.need(st, lo, hi, -1):
            raise Give("array write outside the array")
        out = self.merge(st, out)
        if out and out[-1][0] != K(arr[1]) and self.eq(st, out[-1][0], K(arr[1])):
            out = out[:-1] + ((K(arr[1]), out[-1][1]),)
        return (arr[0], arr[1], out)

    def merge(self, st, segs):
        out = []
        prev = K(0)
        for h, d in segs:
            if self.le(st, h, prev):
                continue
            if out and out[-1][1] == d and d is not None:
                out[-1] = (h, d)
            else:
                out.append((h, d))
            prev = h
        return tuple(out)

    def rd(self, st, v, path, tid):
        for i, e in enumerate(path):
            if v is None:
                return None
            if e[0] == "f":
                if v[0] in ("A", "CL"):
                    v = v[2][e[1]] if e[1] < len(v[2]) else None
                elif v[0] == "P":
                    # a union view of a child word
                    if e[1] == self.payload_field():
                        if v[1][0] == "pay":
                            v = I(v[1][1], v[1][2])
                        else:
                            v = ("W", v[1])
                    # the other view keeps the word
                elif v[0] == "OB":
                    return None
                else:
                    return None
            elif e[0] == "v":
                pass
            elif e[0] == "x":
                v = self.rd_index(st, v, I(e[1], e[2]))
            else:
                return None
        return v

    def payload_field(self):
        x = self.T[self.p.np_ty]
        for i, f in enumerate(x["variants"][0]["f"]):
            if self.T[f["t"]]["k"] in ("uint", "int"):
                return i
        return None

    def rd_index(self, st, v, e):
        if v[0] == "ARR":
            i = self.locate(st, v, e)
            return self.cellval(st, v[2][i][1], e)
        if v[0] == "SLOTS":
            return self.rd_slot(st, v, e)
        if v[0] == "HAV":
            return self.havoc_elem(st, v)
        return None

    def havoc_elem(self, st, v):
        if v[1] == "children":
            return ("P", ("u", self.fresh()))
        hi = 255
        if v[1] == "idx":
            hi = max(self.kind["cap"], self.kind["marker"] if self.kind["marker"] is not None else 255)
            s = self.fresh("h")
            st.z.add(s, Z, hi)
            st.z.add(Z, s, 0)
            return I(s)
        return self.fresh_int(st, None, 0, hi)

    def same_slot(self, st, a, b):
        """whether two slot numbers are equal: True/False/None"""
        if self.eq(st, a, b):
            return True
        if self.lt(st, a, b) or self.lt(st, b, a):
            return False
        sa, sb = a[1], b[1]
        if is_struct(sa) and is_struct(sb) and a[2] == b[2] == 0:
            if {sa[0], sb[0]} == {"X", "slot"}:
                x = sa if sa[0] == "X" else sb
                if self.known_presence(st, I(x[1], x[2])):
                    return False         # the head of the free list is no byte's slot
            if sa[0] == sb[0] == "X":
                e1, e2 = I(*sa[1:]), I(*sb[1:])
                if self.known_presence(st, e1) and (self.lt(st, e1, e2) or self.lt(st, e2, e1)):
                    return False
        return None

    def rd_slot(self, st, v, e):
        for (s, w) in reversed(v[1]):
            r = self.same_slot(st, s, e)
            if r is True:
                return w
            if r is None:
                raise Give("slots that may coincide")
        if v[2] is not None:
            return self.rd_index(st, v[2], e)
        if is_struct(e[1]) and e[2] == 0:
            if e[1][0] == "X":
                return ("P", ("child", e[1][1], e[1][2]))
            if e[1][0] == "slot":
                return ("P", ("pay", ("nextslot",), 0)) if self.mksym(st, ("nextslot",)) else None
        return ("P", ("atslot", e[1], e[2]))

    def wr_slot(self, st, v, e, w):
        out = []
        for (s, x) in v[1]:
            r = self.same_slot(st, s, e)
            if r is True:
                continue
            if r is None and x != w:
                raise Give("slots that may coincide")
            out.append((s, x))
        out.append((e, w))
        return ("SLOTS", tuple(out), v[2])

    def upd(self, st, v, path, new, tid=None):
        if not path:
            return new
        e = path[0]
        if e[0] == "v":
            return self.upd(st, v, path[1:], new)
        if e[0] == "f":
            if v is not None and v[0] == "A":
                fs = list(v[2])
                while len(fs) <= e[1]:
                    fs.append(None)
                fs[e[1]] = self.upd(st, fs[e[1]], path[1:], new)
                return ("A", v[1], tuple(fs))
            if v is not None and v[0] == "P" and not path[1:]:
                return self.as_word(new)
            fs = [None] * (e[1] + 1)
            fs[e[1]] = self.upd(st, None, path[1:], new)
            return ("A", None, tuple(fs))
        if e[0] == "x":
            i = I(e[1], e[2])
            if v is None:
                return None
            if path[1:]:
                new = self.upd(st, self.rd_index(st, v, i), path[1:], new)
            if v[0] == "ARR":
                self.need(st, i, v[2][-1][0], -1)
                return self.setseg(st, v, i, I(i[1], i[2] + 1), self.desc_const(st, new, i))
            if v[0] == "SLOTS":
                if v[2] is not None:
                    i2 = i
                    return ("SLOTS", v[1], self.setseg(st, v[2], i2, I(i2[1], i2[2] + 1), self.desc_const(st, new, i2)))
                return self.wr_slot(st, v, i, new)
            return v
        return None

    def as_word(self, v):
        if v is None:
            return None
        if v[0] == "I":
            return ("P", ("pay", v[1], v[2]))
        if v[0] == "W":
            return ("P", v[1])
        return v

    def resolve(self, st, pl, d):
        """place -> (cell, path, tid)"""
        cell, path, tid = ("L", d, pl[0]), (), self.fn["locals"][pl[0]]
        for e in pl[1]:
            k = e[0]
            if k == "deref":
                v = self.load(st, cell, path, tid)
                pt = self.p.pointee(tid)
                if v is None:
                    cell, path = ("?", self.fresh()), ()
                elif v[0] == "R":
                    cell, path = v[1], v[2]
                elif v[0] == "SL":
                    cell, path = v[1], v[2] + (("s", v[3], v[4]),)
                elif v[0] == "STR":
                    cell, path = ("?", self.fresh()), ()
                else:
                    cell, path = ("?", self.fresh()), ()
                tid = pt if pt is not None else tid
            elif k == "f":
                path = path + (("f", e[1]),)
                tid = e[2]
            elif k == "v":
                path = path + (("v", e[1]),)
            elif k in ("i", "ci"):
                if k == "i":
                    ix = self.load(st, ("L", d, e[1]), (), None)
                else:
                    ix = K(e[1])
                    if e[3]:
                        x = self.T[tid]
                        ix = K(x["len"] - e[1]) if x.get("len") is not None else None
                if ix is None or ix[0] != "I":
                    raise Give("index that is not tracked")
                if path and path[-1][0] == "s":
                    path = path[:-1] + (self.offset(st, path[-1][1], ix),)
                else:
                    path = path + (("x", ix[1], ix[2]),)
                tid = self.T[tid].get("to", tid)
            else:
                raise Give("place projection %s" % k)
        return cell, path, tid

    def offset(self, st, lo, ix):
        s = self.plus(st, lo, ix)
        return ("x", s[1], s[2])

    def plus(self, st, a, b, sign=1):
        if b[1] == Z:
            return I(a[1], a[2] + sign * b[2])
        if sign == 1 and a[1] == Z:
            return I(b[1], a[2] + b[2])
        cb = self.const(st, b)
        if cb is not None:
            return I(a[1], a[2] + sign * cb)
        if sign == 1:
            ca = self.const(st, a)
            if ca is not None:
                return I(b[1], b[2] + ca)
        if sign == -1:
            if a[1] == b[1]:
                return K(a[2] - b[2])
            u, l = st.z.ub(a[1], b[1]), st.z.ub(b[1], a[1])
            if u == -l and u < INF:
                return K(u + a[2] - b[2])
        r = self.cancel(st, a, b, sign)
        if r is not None:
            return r
        # named after what it stands for, so that a decision about it is remembered
        if sign == 1 and repr(b[1]) < repr(a[1]):
            a, b = b, a
        k = a[2] + sign * b[2]
        a, b = I(a[1]), I(b[1])
        s = "(%s%s%s)" % (a[1], "+" if sign == 1 else "-", b[1])
        ub, lb = st.z.ub(b[1], Z), -st.z.ub(Z, b[1])
        ua, la = st.z.ub(a[1], Z), -st.z.ub(Z, a[1])
        if sign == 1:
            # a + b: only the bounds that difference constraints can say
            for x, lo, hi in ((a[1], lb, ub), (b[1], la, ua)):
                if hi < INF:
                    st.z.add(s, x, hi)
                if lo > -INF:
                    st.z.add(x, s, -lo)
        else:
            u, l = st.z.ub(a[1], b[1]), -st.z.ub(b[1], a[1])
            if u < INF:
                st.z.add(s, Z, u)
            if l > -INF:
                st.z.add(Z, s, -l)
            if lb > -INF:
                st.z.add(s, a[1], -lb)
        n = "diffs" if sign == -1 else "sums"
        if (s, a[1], b[1]) not in st.gh.get(n, ()):
            st.gh[n] = st.gh.get(n, ()) + ((s, a[1], b[1]),)
        st.wid = True
        return I(s, k)

    def cancel(self, st, a, b, sign):
        """a + (x - a), (x + b) - b and the like"""
        def apart(x, y):
            if x == y:
                return 0
            u, l = st.z.ub(x, y), st.z.ub(y, x)
            return u if u == -l and u < INF else None
        if sign == 1:
            for p, q in ((a, b), (b, a)):
                for s, x, y in st.gh.get("diffs", ()):
                    if q[1] == s:
                        k = apart(p[1], y)
                        if k is not None:
                            return I(x, p[2] + q[2] + k)
        else:
            for s, x, y in st.gh.get("sums", ()):
                if a[1] == s:
                    for v, w in ((x, y), (y, x)):
                        k = apart(w, b[1])
                        if k is not None:
                            return I(v, a[2] - b[2] + k)
            for s, x, y in st.gh.get("diffs", ()):
                if b[1] == s:       # a - (x - y)
                    k = apart(a[1], x)
                    if k is not None:
                        return I(y, a[2] - b[2] + k)
        return None

    def load(self, st, cell, path, tid):
        v = st.mem.get(cell)
        if path and path[-1][0] == "s":
            raise Give("whole slice read")
        if cell[0] == "?":
            return self.opaque(st, tid) if tid is not None else None
        r = self.rd(st, v, path, tid)
        if self.torn and cell[0] == "N" and r is not None and r[0] == "TORN":
            r = self.torn_scalar(st, r)
        if r is None and tid is not None and (v is not None or path):
            return self.opaque(st, tid)
        return r

    def torn_scalar(self, st, r):
        s = self.fresh("h")
        st.z.add(s, Z, r[2])
        st.z.add(Z, s, -r[1])
        return I(s)

    def store(self, st, cell, path, v):
        if cell[0] == "?":
            return
        if path and path[-1][0] == "s":
            raise Give("whole slice write")
        st.mem[cell] = self.upd(st, st.mem.get(cell), path, v)
        if cell[0] == "N":
            self.wrote(st, path, v)

    def wrote(self, st, path, v):
        """a store to the node: what readers may see in between"""
        cp = self.kind.get("count_path")
        if cp and tuple(path) == cp and v is not None and v[0] == "I":
            if not (self.le(st, v, K(self.kind["cap"])) and self.le(st, K(0), v)):
                self.fail(st, "count-range", "the stored number of children can leave 0..%d" % self.kind["cap"])
        if self.kind["shape"] == "table" and path and path[-1][0] == "x" and len(path) > 1 and path[-2] == ("f", self.kind["idx_field"]):
            m = self.kind["marker"]
            if v is not None and v[0] == "I" and m is not None and not (self.le(st, v, K(max(m, self.kind["cap"]))) and self.le(st, K(0), v)):
                self.fail(st, "index-range", "an index table entry can leave 0..%d" % max(m, self.kind["cap"]))

    # ------------------------------------------------------------ failures
    def fail(self, st, rule, msg, negs=()):
        """a requirement is not proven in st. negs: constraints (a, b, c) (a <= b + c) of which one makes it false"""
        if st.unk:
            self.unknown.add("%s: %s (a decision or value on the path is not tracked)" % (rule, msg))
            return
        self.fails.append((rule, msg, self.span, self.tracelist(st), st.wid))

    def tracelist(self, st):
        out = []
        t = st.tr
        while t:
            out.append(t[1])
            t = t[0]
        return out[::-1]

    # ------------------------------------------------------------ values
    def operand(self, st, o, d):
        if o[0] in ("copy", "move"):
            cell, path, tid = self.resolve(st, o[1], d)
            return self.load(st, cell, path, tid)
        if o[0] == "const":
            c = o[1]["const"]
            if "fn" in c:
                return ("F", c["fn"].get("key") or c["fn"]["path"], c["fn"])
            x = self.T[c["t"]]
            if "v" in c:
                if x["k"] == "bool":
                    return ("B", ("c", bool(c["v"])))
                if x["k"] in ("uint", "int", "char"):
                    return K(c["v"])
                if x["k"] == "adt" and x.get("adt") == "enum":
                    for i, w in enumerate(x["variants"]):
                        if w["d"] == c["v"]:
                            return ("A", i, ())
            if "ref" in c:
                cell = ("const",) + tuple(c["ref"])
                st.mem[cell] = self.operand(st, ["const", {"const": {"t": c["ref"][0], "v": c["ref"][1]}}], d)
                return ("R", cell, ())
            if x["k"] == "tuple" and not x.get("f"):
                return ("A", None, ())
            if x["k"] == "closure":
                return ("A", None, ())
            if x["k"] == "adt" and x.get("adt") == "struct" and not x["variants"][0]["f"]:
                return ("A", None, ())
            return self.opaque(st, c["t"])
        return None

    def bits(self, tid):
        x = self.T[tid]
        if x["k"] in ("uint", "int"):
            return 8 * (x.get("size") or 8)
        return 64

    def fit(self, st, v, tid):
        """v as a value of an unsigned type: itself if it fits, otherwise something of that type"""
        if tid is None or v is None or v[0] != "I":
            return v
        x = self.T[tid]
        if x["k"] != "uint":
            return v
        hi = (1 << self.bits(tid)) - 1
        if self.le(st, v, K(hi)) and self.le(st, K(0), v):
            return v
        if v[1] == Z:
            return K(v[2] & hi)
        # wraps on some values: look at the two cases
        over = not self.need(st, v, K(hi))
        under = not self.need(st, K(0), v)
        if over:
            if self.le(st, v, K(2 * hi + 1)):
                return I(v[1], v[2] - hi - 1)
        elif under:
            if self.le(st, K(-hi - 1), v):
                return I(v[1], v[2] + hi + 1)
        else:
            return v
        st.wid = True
        return self.fresh_int(st, tid)

    def rvalue(self, st, r, tid, d):
        k = r[0]
        if k == "use":
            return self.operand(st, r[1], d)
        if k == "ref":
            cell, path, t = self.resolve(st, r[2], d)
            if path and path[-1][0] == "s":
                return ("SL", cell, path[:-1], path[-1][1], path[-1][2])
            return ("R", cell, path)
        if k == "cast":
            v = self.operand(st, r[2], d)
            return self.cast(st, v, r[1], r[3], self.op_ty(r[2]))
        if k == "bin":
            a, b = self.operand(st, r[2], d), self.operand(st, r[3], d)
            if r[1] in ("Lt", "Le", "Gt", "Ge"):
                a, b = self.signed(a, self.op_ty(r[2])), self.signed(b, self.op_ty(r[2]))
            return self.binop(st, r[1], a, b, tid, self.op_ty(r[2]))
        if k == "un":
            a = self.operand(st, r[2], d)
            if r[1] == "Not":
                if a is not None and a[0] == "B":
                    return ("B", ("not", a[1]))
                if a is not None and a[0] == "I" and self.const(st, a) is not None and self.T[tid]["k"] == "uint":
                    return K(~self.const(st, a) & ((1 << self.bits(tid)) - 1))
                if a is not None and a[0] == "T8":
                    return ("T8", ("not", a[1]))
                return self.opaque(st, tid)
            if r[1] == "PtrMetadata":
                return self.length(st, a)
            if r[1] == "Neg" and a is not None and a[0] == "I" and a[1] == Z:
                return K(-a[2])
            return self.opaque(st, tid)
        if k == "discr":
            cell, path, t = self.resolve(st, r[1], d)
            v = self.load(st, cell, path, t)
            return self.discr(st, v, t)
        if k == "agg":
            vs = tuple(self.operand(st, o, d) for o in r[2])
            kk = r[1]
            if kk[0] == "adt":
                if kk[3] is not None:
                    return self.as_word(vs[0])
                x = self.T[tid]
                return ("A", kk[2] if x.get("adt") == "enum" else None, vs)
            if kk[0] == "array":
                segs = []
                for i, v in enumerate(vs):
                    segs.append((K(i + 1), ("val", v)))
                return ("ARR", len(vs), tuple(segs))
            if kk[0] == "closure":
                return ("CL", tid, vs)
            if kk[0] == "rawptr":
                return vs[0]
            return ("A", None, vs)
        if k == "repeat":
            v = self.operand(st, r[1], d)
            n = self.T[tid].get("len")
            if n is None:
                return None
            return ("ARR", n, ((K(n), ("val", v)),))
        if k == "len":
            cell, path, t = self.resolve(st, r[1], d)
            if self.T[t].get("len") is not None:
                return K(self.T[t]["len"])
        return self.opaque(st, tid)

    def op_ty(self, o):
        if o[0] in ("copy", "move"):
            return o[1][2]
        return o[1]["const"]["t"]

    def length(self, st, a):
        if a is None:
            raise Give("length of an untracked slice")
        if a[0] == "SL":
            return self.plus(st, a[4], a[3], -1)
        if a[0] == "R":
            v = self.rd(st, st.mem.get(a[1]), a[2], None)
            if v is not None and v[0] == "ARR":
                return K(v[1])
        raise Give("length of an untracked slice")

    def discr(self, st, v, t):
        if v is not None and v[0] == "A" and v[1] is not None:
            x = self.T[t] if t is not None else None
            if x and x["k"] == "adt" and x["variants"] and x["variants"][v[1]]["d"] is not None:
                return K(x["variants"][v[1]]["d"])
            return K(v[1])
        if v is not None and v[0] == "E":
            return I(v[1])
        return ("DU", self.fresh())

    def cast(self, st, v, kind, tid, ft):
        if v is None:
            return self.opaque(st, tid)
        x = self.T[tid]
        if v[0] == "I" and x["k"] in ("uint", "int"):
            return self.fit(st, v, tid)
        if v[0] == "T8" and x["k"] == "uint":
            return v
        if v[0] == "B" and x["k"] in ("uint", "int"):
            r = self.truth(st, v[1])
            if r is not None:
                return K(int(r))
            if "'u'" in repr(v[1]):
                return self.fresh_int(st, None, 0, 1)
            raise Split(v[1])
        if v[0] == "A" and x["k"] in ("uint", "int") and v[1] is not None:
            return self.discr(st, v, ft)
        if v[0] == "W" and x["k"] == "uint":
            return v if self.bits(tid) == 64 else self.opaque(st, tid)
        if v[0] == "R" and "Unsize" in kind:
            a = self.rd(st, st.mem.get(v[1]), v[2], None)
            n = None
            pt = self.p.pointee(ft)
            if pt is not None and self.T[pt]["k"] == "array":
                n = self.T[pt].get("len")
            if n is None:
                return v
            return ("SL", v[1], v[2], K(0), K(n))
        if v[0] in ("R", "SL", "P", "F", "CL", "STR"):
            return v
        return self.opaque(st, tid)

    # small terms over one byte symbol: ("div8", s, c) ("mod8", s, c) for x/8, x%8, and ("pow", sym) for 1 << x%8
    def binop(self, st, op, a, b, tid, ft):
        if op.endswith("WithOverflow"):
            r = self.binop(st, op[:-12], a, b, None, ft)
            if r is not None and r[0] == "I" and ft is not None:
                f = self.fit(st, r, ft)
                return ("A", None, (f, ("B", ("c", f != r))))
            return ("A", None, (r, FALSE))
        op = op.replace("Unchecked", "")
        if op in ("Eq", "Ne", "Lt", "Le", "Gt", "Ge"):
            return self.compare(st, op, a, b)
        if a is None or b is None:
            return self.opaque(st, tid) if tid is not None else None
        if a[0] == "B" and b[0] == "B":
            x, y = a[1], b[1]
            if op == "BitAnd":
                return ("B", ("and", x, y))
            if op == "BitOr":
                return ("B", ("or", x, y))
            if op == "BitXor":
                return ("B", ("or", ("and", x, ("not", y)), ("and", ("not", x), y)))
        if op == "Cmp":
            return self.order(st, a, b)
        if a[0] == "I" and b[0] == "I":
            ca, cb = self.const(st, a), self.const(st, b)
            if op in ("Add", "Sub"):
                r = self.plus(st, a, b, 1 if op == "Add" else -1)
                if ft is not None and tid is not None:
                    return self.fit(st, r, tid)
                return r
            if ca is not None and cb is not None:
                m = (1 << self.bits(tid if tid is not None else ft)) - 1
                try:
                    r = {"Mul": lambda: ca * cb, "BitAnd": lambda: ca & cb, "BitOr": lambda: ca | cb, "BitXor": lambda: ca ^ cb,
                         "Shl": lambda: ca << cb, "Shr": lambda: ca >> cb, "Div": lambda: ca // cb, "Rem": lambda: ca % cb}[op]()
                    return K(r & m)
                except Exception:
                    return self.opaque(st, tid)
            if cb is not None:
                if (op == "Div" and cb == 8) or (op == "Shr" and cb == 3):
                    return self.mksym(st, ("div8", a[1], a[2]))
                if (op == "Rem" and cb == 8) or (op == "BitAnd" and cb == 7):
                    return self.mksym(st, ("mod8", a[1], a[2]))
                if op == "Mul" and cb == 1:
                    return a
                if op == "BitAnd" and cb == 255 and self.le(st, a, K(255)):
                    return a
            if ca == 1 and op == "Shl" and is_struct(b[1]) and b[1][0] == "mod8" and b[2] == 0:
                return ("T8", ("pow", b[1]))
        t1, t2 = self.t8(st, a), self.t8(st, b)
        if op == "Shr" and t1 is not None and t1[0] == "M" and b[0] == "I":
            if is_struct(b[1]) and b[1][0] == "mod8" and b[2] == 0:
                return ("T8", ("shr", t1, ("pow", b[1])))
            c = self.const(st, b)
            if c is not None and 0 <= c < 8:
                return ("T8", ("shr", t1, ("cst", 1 << c)))
        if t1 is not None and t2 is not None and op in ("BitAnd", "BitOr"):
            return ("T8", (op, t1, t2))
        return self.opaque(st, tid) if tid is not None else None

    def t8(self, st, v):
        if v[0] == "T8":
            return v[1]
        if v[0] == "I":
            if is_struct(v[1]) and v[1][0] == "M" and v[2] == 0:
                return v[1]
            c = self.const(st, v)
            if c is not None and 0 <= c < 256:
                return ("cst", c)
        return None

    def bit_of(self, st, mi, pw):
        """the byte whose presence is bit pw of mask byte mi"""
        if pw[0] == "pow":
            m = pw[1]
            d = self.mksym(st, ("div8", m[1], m[2]))
            if self.eq(st, d, mi):
                return I(m[1], m[2])
            return None
        if pw[0] == "cst" and pw[1] and pw[1] & (pw[1] - 1) == 0:
            c = self.const(st, mi)
            if c is not None:
                return K(8 * c + pw[1].bit_length() - 1)
        return None

    def order(self, st, a, b):
        if a is not None and b is not None and a[0] == b[0] == "I":
            if self.eq(st, a, b):
                return ("A", 1, ())
            if self.lt(st, a, b):
                return ("A", 0, ())
            if self.lt(st, b, a):
                return ("A", 2, ())
            if self.le(st, a, b) or self.le(st, b, a):
                raise Split(("eq", a, b))
            raise Split(("le", a, b))
        return ("E", self.fresh())

    def maskbit(self, st, a, b):
        """a compared with 0 where a = mask byte & bit: the byte whose presence is tested"""
        if a is None or a[0] != "T8" or a[1][0] != "BitAnd":
            return None
        x, y = a[1][1], a[1][2]
        if x[0] not in ("M", "shr"):
            x, y = y, x
        if x[0] == "M":
            return self.bit_of(st, I(x[1], x[2]), y)
        if x[0] == "shr" and y == ("cst", 1):
            return self.bit_of(st, I(*x[1][1:]), x[2])
        return None

    def signed(self, v, tid):
        """constants are kept as their bits: an ordering of signed ones needs the sign"""
        x = self.T[tid] if tid is not None else None
        if x is None or x["k"] != "int" or v is None or v[0] != "I" or v[1] != Z or v[2] < 1 << (8 * x["size"] - 1):
            return v
        return K(v[2] - (1 << (8 * x["size"])))

    def compare(self, st, op, a, b):
        if a is not None and b is not None and a[0] == b[0] == "I":
            c = {"Eq": ("eq", a, b), "Ne": ("not", ("eq", a, b)), "Le": ("le", a, b), "Lt": ("not", ("le", b, a)),
                 "Ge": ("le", b, a), "Gt": ("not", ("le", a, b))}[op]
            x, y = self.const(st, a), self.const(st, b)
            if x is not None and y is not None:
                return ("B", ("c", {"Eq": x == y, "Ne": x != y, "Le": x <= y, "Lt": x < y, "Ge": x >= y, "Gt": x > y}[op]))
            return ("B", c)
        if a is not None and b is not None and op in ("Eq", "Ne"):
            for x, y in ((a, b), (b, a)):
                e = self.maskbit(st, x, y)
                if e is not None:
                    if y[0] == "I" and self.const(st, y) == 0:
                        return ("B", ("bit", e) if op == "Ne" else ("not", ("bit", e)))
                    t = self.t8(st, y)
                    if t is not None and t in (x[1][1], x[1][2]) and t[0] in ("pow", "cst"):
                        return ("B", ("bit", e) if op == "Eq" else ("not", ("bit", e)))
            if a[0] == "B" and b[0] == "B":
                x = ("or", ("and", a[1], b[1]), ("and", ("not", a[1]), ("not", b[1])))
                return ("B", x if op == "Eq" else ("not", x))
            if a[0] == "A" and b[0] == "A" and not a[2] and not b[2] and a[1] is not None and b[1] is not None:
                return ("B", ("c", (a[1] == b[1]) == (op == "Eq")))
        if a is not None and b is not None and op in ("Gt",) and self.maskbit(st, a, b) is not None and b[0] == "I" and self.const(st, b) == 0:
            return ("B", ("bit", self.maskbit(st, a, b)))
        return ("B", ("u", self.fresh()))


# ---------------------------------------------------------------- values with leaves
def walk(v, f):
    """rebuild a value, f applied to every integer leaf (symbol, constant)"""
    if not isinstance(v, tuple) or not v:
        return v
    if v[0] == "I" and len(v) == 3:
        s, c = f(v[1], v[2])
        return ("I", s, c)
    if v[0] == "P":
        t = v[1]
        if t[0] in ("child", "slot", "pay", "atslot") and len(t) == 3:
            s, c = f(t[1], t[2])
            return ("P", (t[0], s, c))
        return v
    if v[0] == "W":
        return ("W", walk(("P", v[1]), f)[1])
    if v[0] in ("R", "SL"):
        p = []
        for e in v[2]:
            if e[0] == "x":
                s, c = f(e[1], e[2])
                p.append(("x", s, c))
            else:
                p.append(e)
        if v[0] == "R":
            return ("R", v[1], tuple(p))
        return ("SL", v[1], tuple(p), walk(v[3], f), walk(v[4], f))
    if v[0] == "B":
        return ("B", walkc(v[1], f))
    if v[0] == "A":
        return ("A", v[1], tuple(walk(x, f) for x in v[2]))
    if v[0] == "CL":
        return ("CL", v[1], tuple(walk(x, f) for x in v[2]))
    if v[0] == "IT":
        return ("IT", v[1]) + tuple(walk(x, f) if isinstance(x, tuple) else x for x in v[2:])
    if v[0] == "ARR":
        return ("ARR", v[1], tuple((walk(h, f), walkd(d, f)) for h, d in v[2]))
    if v[0] == "SLOTS":
        return ("SLOTS", tuple((walk(a, f), walk(b, f)) for a, b in v[1]), walk(v[2], f) if v[2] else None)
    return v


def walkd(d, f):
    if d is None:
        return None
    if d[0] == "val":
        return ("val", walk(d[1], f))
    return d


def walkc(c, f):
    k = c[0]
    if k in ("le", "eq"):
        return (k, walk(c[1], f), walk(c[2], f))
    if k == "bit":
        return (k, walk(c[1], f))
    if k == "not":
        return (k, walkc(c[1], f))
    if k in ("and", "or"):
        return (k, walkc(c[1], f), walkc(c[2], f))
    if k == "u":
        return ("u", "?")
    return c


class Exec(ZEngine):
    """statements, terminators, calls and loops"""
    MAXDEPTH = 24
    BASE = ()

    def forked(self, st, fn):
        work, out, n = [st], [], 0
        while work:
            s = work.pop()
            n += 1
            if n > 400 or (self.deadline and time.time() > self.deadline):
                raise Give("budget of cases")
            try:
                out += fn(s.copy())
            except Fork as x:
                a, b, c = x.c
                for (a, b, c) in ((a, b, c), (b, a, -c - 1)):
                    t = s.copy()
                    try:
                        t.z.add(a, b, c)
                        work.append(t)
                    except Infeasible:
                        pass
            except Split as x:
                for val in (True, False):
                    work += self.assume(s.copy(), x.cond, val)
            except Infeasible:
                pass
        return out

    def truth(self, st, c):
        k = c[0]
        if k == "c":
            return c[1]
        if k == "not":
            r = self.truth(st, c[1])
            return None if r is None else not r
        if k == "le":
            return True if self.le(st, c[1], c[2]) else False if self.lt(st, c[2], c[1]) else None
        if k == "eq":
            return True if self.eq(st, c[1], c[2]) else False if self.lt(st, c[1], c[2]) or self.lt(st, c[2], c[1]) else None
        if k == "bit":
            return self.known_presence(st, c[1])
        if k in ("and", "or"):
            a, b = self.truth(st, c[1]), self.truth(st, c[2])
            if k == "and":
                return False if a is False or b is False else True if a and b else None
            return True if a or b else False if a is False and b is False else None
        return None

    # ------------------------------------------------------------ shapes and joins
    def leaves(self, st):
        """(shape, [leaf])"""
        ls = []
        base = self.BASE

        def f(s, c):
            if is_struct(s):
                parts = []
                for x in s[1:]:
                    parts.append(x)
                if len(s) == 3:
                    s2, c2 = f(s[1], s[2])
                    return (s[0], s2, c2), c
                if len(s) == 2:
                    s2, c2 = f(s[1], 0)
                    return (s[0], s2), c
                return s, c
            ls.append((s, c))
            return "#", 0
        sh = []
        for k in sorted(st.mem, key=repr):
            sh.append((k, walk(st.mem[k], f)))
        for k in sorted(st.gh):
            v = st.gh[k]
            if k in ("diffs", "sums"):
                continue
            sh.append((k, walk(v, f)))
        pf = tuple(sorted(((k, v) for k, v in st.pf.items() if self.is_base(k[0])), key=repr))
        for k, v in self.own_pf(st):
            sh.append((walk(("I",) + k, f), v))
        consts = []

        def g(v):
            # constants an array is filled with tell states apart
            if isinstance(v, tuple):
                if len(v) == 2 and v[0] == "val" and isinstance(v[1], tuple):
                    x = v[1]
                    if (x[0] == "I" and x[1] == Z) or (x[0] == "P" and len(x[1]) == 3 and x[1][1] == Z):
                        consts.append(x)
                    return
                for x in v:
                    g(x)
        for k in sorted(st.mem, key=repr):
            g(st.mem[k])
        return (tuple(sh), tuple(sorted(st.pres.items())), pf, st.unk, st.emit, tuple(consts)), ls

    def is_base(self, s):
        if is_struct(s):
            return all(self.is_base(x) or isinstance(x, int) for x in s[1:])
        return s == Z or s in self.BASE

    def own_pf(self, st):
        return sorted(((k, v) for k, v in st.pf.items() if not self.is_base(k[0])), key=lambda x: (x[1], repr(x[0])))

    def rebuild(self, st, ls):
        it = iter(ls)

        def f(s, c):
            if is_struct(s):
                if len(s) == 3:
                    s2, c2 = f(s[1], s[2])
                    return (s[0], s2, c2), c
                if len(s) == 2:
                    s2, c2 = f(s[1], 0)
                    return (s[0], s2), c
                return s, c
            return next(it)
        mem = {}
        for k in sorted(st.mem, key=repr):
            mem[k] = walk(st.mem[k], f)
        gh = {}
        for k in sorted(st.gh):
            if k in ("diffs", "sums"):
                continue
            gh[k] = walk(st.gh[k], f)
        pf = {k: v for k, v in st.pf.items() if self.is_base(k[0])}
        for k, v in self.own_pf(st):
            pf[walk(("I",) + k, f)[1:]] = v
        return mem, gh, pf

    def used_syms(self, st):
        out = set(self.BASE)

        def add(s):
            if is_struct(s):
                out.add(s)
                for x in s[1:]:
                    if isinstance(x, (str, tuple)):
                        add(x)
            else:
                out.add(s)

        def f(s, c):
            add(s)
            return s, c
        for v in st.mem.values():
            walk(v, f)
        for k, v in st.gh.items():
            if k not in ("diffs", "sums"):
                walk(v, f)
        for k in st.pf:
            add(k[0])
            if self.kind.get("shape") == "table":
                out.add(("X",) + k)
        return out

    def tidy(self, st, d, fn, blk):
        cf = self.p.cfg(fn)
        live = cf["live"][blk] | cf["borrowed"] if blk is not None else None
        if live is not None:
            for c in list(st.mem):
                if c[0] == "L" and c[1] == d and c[2] not in live:
                    del st.mem[c]
        if blk is not None and blk in cf["heads"]:
            st.pf = {} if "b" in st.gh else {k: v for k, v in st.pf.items() if self.is_base(k[0])}
        elif st.pf:
            seen = set()

            def f(s, c):
                seen.add(s)
                return s, c
            for v in st.mem.values():
                walk(v, f)
            st.pf = {k: v for k, v in st.pf.items() if self.is_base(k[0]) or k[0] in seen}
        st.gh.pop("diffs", None)
        st.gh.pop("sums", None)
        st.z.keep(self.used_syms(st))

    def subsumed(self, old, ols, new, nls):
        """new is covered by old (same shape)"""
        m = {}
        for (s, c), (t, k) in zip(ols, nls):
            if self.is_base(s):
                if not (new.z.ub(t, s) <= c - k and new.z.ub(s, t) <= k - c):
                    return False
                continue
            x = (t, k - c)
            if s in m and m[s] != x:
                a, b = m[s], x
                if not (new.z.ub(a[0], b[0]) <= b[1] - a[1] and new.z.ub(b[0], a[0]) <= a[1] - b[1]):
                    return False
            m.setdefault(s, x)

        def img(s):
            if s in m:
                return m[s]
            if self.is_base(s):
                return (s, 0)
            return None
        for (a, b), c in old.z.d.items():
            x, y = img(a), img(b)
            if x is None or y is None:
                continue
            if new.z.ub(x[0], y[0]) + x[1] - y[1] > c:
                return False
        return True

    def join(self, old, ols, new, nls, rounds):
        m = {}
        ls = []
        for a, b in zip(ols, nls):
            if a == b:
                ls.append(a)
                continue
            if (a, b) not in m:
                m[(a, b)] = self.fresh("w")
            ls.append((m[(a, b)], 0))
        common = set(self.BASE) | {Z} | {a[0] for a, b in zip(ols, nls) if a == b}

        def ext(z, which):
            z = z.copy()
            for (a, b), v in m.items():
                s, c = (a, b)[which]
                z.add(v, s, c)
                z.add(s, v, -c)
            z.keep(common | set(m.values()))
            return z
        zo, zn = ext(old.z, 0), ext(new.z, 1)
        r = new.copy()
        r.z = Zone()
        r.z.s = list(set(zo.s) & set(zn.s))
        if Z not in r.z.s:
            r.z.s.append(Z)
        for k, c in zo.d.items():
            c2 = zn.d.get(k, INF)
            if c2 <= c:
                r.z.d[k] = c
            elif c2 < INF and rounds < 3:
                r.z.d[k] = c2
            elif c2 < INF and rounds < 8 and (k[0] in (Z,) or k[1] in (Z,)):
                for th in (255, 256, 65535, (1 << 32) - 1, (1 << 64) - 1):
                    if c2 <= th:
                        r.z.d[k] = th
                        break
        # re-close
        d, r.z.d = r.z.d, {}
        for (a, b), c in d.items():
            r.z.add(a, b, c)
        r.mem, r.gh, r.pf = self.rebuild(new, ls)
        r.wid = True
        for s in self.used_syms(r):
            self.axioms(r, s)
        return r, ls

    def head(self, table, key, st):
        """loop head in prove mode: -> state to continue with, or None"""
        sh, ls = self.leaves(st)
        k = (key, sh)
        ents = table.setdefault(k, [])
        for o, ols, rounds in ents:
            if self.subsumed(o, ols, st, ls):
                return None
        if not ents:
            ents.append((st, ls, 0))
            return st
        o, ols, rounds = ents[-1]
        if rounds > 12:
            raise Give("no fixpoint")
        j, jls = self.join(o, ols, st, ls, rounds)
        # the widened state replaces the one it was made from
        ents[-1] = (j, jls, rounds + 1)
        if len(table) > 400:
            raise Give("too many loop states")
        return j.copy()

    # ------------------------------------------------------------ functions
    def run_fn(self, st, key, args):
        """-> [(state, value)]"""
        f = self.p.fns[key]
        d = len(self.stack)
        if d > self.MAXDEPTH or (self.stack and key in self.stack and self.stack.count(key) > 2):
            raise Give("recursion")
        self.stack.append(key)
        save = getattr(self, "fn", None), getattr(self, "span", "")
        self.fn = f
        self.fns_seen.add(f["path"])
        cf = self.p.cfg(key)
        try:
            for i, a in enumerate(args):
                if a is not None:
                    st.mem[("L", d, i + 1)] = a
            work = [(0, st, {})]
            table = {}
            out = []
            seen = {}
            while work:
                blk, s, cnt = work.pop()
                self.fn = f
                self.states += 1
                if self.states > self.max_states or (self.deadline and self.states % 64 == 0 and time.time() > self.deadline):
                    raise Give("budget of abstract states")
                if blk in cf["heads"]:
                    if self.mode == "prove":
                        self.tidy(s, d, key, blk)
                        s = self.head(table, blk, s)
                        if s is None:
                            continue
                    else:
                        n = cnt.get(blk, 0)
                        if n > self.UNROLL:
                            self.cut = True
                            continue
                        cnt = dict(cnt)
                        cnt[blk] = n + 1
                elif cf["join"][blk] and self.mode == "prove":
                    self.tidy(s, d, key, blk)
                    sh, ls = self.leaves(s)
                    ents = seen.setdefault((blk, sh), [])
                    if any(self.subsumed(o, ol, s, ls) for o, ol in ents):
                        continue
                    ents.append((s.copy(), ls))
                for nb, ns, val in self.forked_block(s, f, blk, d):
                    if nb == "ret":
                        for c in [c for c in ns.mem if c[0] == "L" and c[1] >= d]:
                            del ns.mem[c]
                        out.append((ns, val))
                    else:
                        work.append((nb, ns, cnt))
            if self.mode == "prove" and len(out) > 1:
                out = self.dedup(out, d)
            return out
        finally:
            self.stack.pop()
            self.fn, self.span = save

    def dedup(self, out, d):
        ents, res = {}, []
        for s, v in out:
            s.mem[("ret", d)] = v
            sh, ls = self.leaves(s)
            es = ents.setdefault(sh, [])
            if not any(self.subsumed(o, ol, s, ls) for o, ol in es):
                es.append((s.copy(), ls))
                res.append((s, v))
            s.mem.pop(("ret", d))
        for es in ents.values():
            for o, _ in es:
                o.mem.pop(("ret", d), None)
        return res

    def forked_block(self, st, f, blk, d):
        b = f["blocks"][blk]
        cur = [st]
        for s in b["s"]:
            if s[0] == "=":
                def do(x, s=s):
                    self.span = s[3]
                    self.assign(x, s[1], self.rvalue(x, s[2], s[1][2], d), d)
                    return [x]
            elif s[0] == "dead":
                for x in cur:
                    x.mem.pop(("L", d, s[1]), None)
                continue
            elif s[0] == "copy_nonoverlapping":
                raise Give("raw memory copy")
            elif s[0] == "setd":
                raise Give("set discriminant")
            else:
                continue
            nxt = []
            for x in cur:
                self.fn = f
                nxt += self.forked(x, do)
            cur = nxt
        out = []
        for x in cur:
            def term(y):
                self.fn = f
                return self.terminator(y, b["t"], d)
            out += self.forked(x, term)
        return out

    def assign(self, st, pl, v, d):
        if not pl[1]:
            st.mem[("L", d, pl[0])] = v
            return
        cell, path, tid = self.resolve(st, pl, d)
        self.store(st, cell, path, v)

    def terminator(self, st, t, d):
        k = t[0]
        if k == "goto":
            return [(t[1], st, None)]
        if k == "return":
            return [("ret", st, st.mem.get(("L", d, 0)))]
        if k in ("unreachable", "resume", "abort"):
            return []
        if k == "drop":
            return [(t[2], st, None)]
        if k == "switch":
            self.span = t[5]
            v = self.operand(st, t[1], d)
            out = []
            if v is not None and v[0] == "A" and v[1] is not None:
                v = self.discr(st, v, t[4])
            if v is not None and v[0] == "B":
                tgt = dict((x, b) for x, b in t[2])
                for val in (False, True):
                    b = tgt.get(int(val), t[3])
                    for s in self.assume(st.copy(), v[1], val):
                        out.append((b, s, None))
                return out
            if v is not None and v[0] == "I":
                rest = [st]
                for x, b in t[2]:
                    nxt = []
                    for s in rest:
                        for y in self.assume(s.copy(), ("eq", v, K(x)), True):
                            out.append((b, y, None))
                        nxt += self.assume(s.copy(), ("eq", v, K(x)), False)
                    rest = nxt
                if self.fn["blocks"][t[3]]["t"][0] != "unreachable":
                    for s in rest:
                        out.append((t[3], s, None))
                return out
            for b in [b for x, b in t[2]] + [t[3]]:
                if self.fn["blocks"][b]["t"][0] == "unreachable":
                    continue
                s = st.copy()
                s.unk = True
                out.append((b, s, None))
            return out
        if k == "assert":
            self.span = t[6]
            v = self.operand(st, t[1], d)
            out = []
            if v is None or v[0] != "B":
                s = st.copy()
                s.unk = True
                return [(t[4], s, None)]
            for s in self.assume(st.copy(), v[1], not t[2]):
                self.panic(s, "a bounds or arithmetic check can fail")
            for s in self.assume(st.copy(), v[1], bool(t[2])):
                out.append((t[4], s, None))
            self.count("check", self.span)
            return out
        if k == "call":
            self.span = t[6]
            out = []
            for s, v in self.call(st, t, d):
                self.fn = self.p.fns[self.stack[-1]]
                if t[4] is None:
                    continue

                def put(x, v=v):
                    self.assign(x, t[3], v, d)
                    return [(t[4], x, None)]
                out += self.forked(s, put)
            return out
        raise Give("terminator %s" % k)

    def panic(self, st, why):
        self.fail(st, "panic", why)

    def count(self, k, x):
        self.ev[k].add("%s %s" % (self.fn["path"] if getattr(self, "fn", None) else "", x))

    # ------------------------------------------------------------ calls
    def call(self, st, t, d):
        c = self.p.callee(t[1])
        args = [self.operand(st, o, d) for o in t[2]]
        atys = [self.op_ty(o) for o in t[2]]
        if c is None:
            fv = self.operand(st, t[1], d)
            return self.callf(st, fv, args)
        if "ctor" in c:
            x = self.T[t[3][2]]
            return [(st, ("A", c["ctor"] if isinstance(c["ctor"], int) and x.get("adt") == "enum" else None, tuple(args)))]
        rt = t[3][2]
        p, key = c["path"], c.get("key")
        r = self.hook(st, c, args, atys, rt)
        if r is not None:
            return r
        f = self.p.fns.get(key) if key else None
        if p.startswith("core::ops::function::Fn"):
            tup = args[1][2] if len(args) > 1 and args[1] is not None and args[1][0] == "A" else ()
            return self.callf(st, args[0], list(tup))
        r = self.model(st, c, p, args, atys, rt)
        if r is not None:
            return r
        if f and "blocks" in f:
            if f["local"] or any(key.startswith(x) for x in CORE):
                return self.run_fn(st, key, args)
        self.count("untracked-call", p)
        s = st
        for a in args:
            if a is not None and a[0] in ("R", "SL"):
                s.unk = True
        return [(s, self.opaque(s, rt))]

    def hook(self, st, c, args, atys, rt):
        return None

    def callf(self, st, fv, args):
        n = 0
        while fv is not None and fv[0] == "R":
            fv = self.load(st, fv[1], fv[2], None)
        if fv is None:
            raise Give("call of an unknown function")
        if fv[0] == "F":
            key = fv[1]
            if "ctor" in fv[2]:
                return [(st, ("A", fv[2]["ctor"] if isinstance(fv[2]["ctor"], int) else None, tuple(args)))]
            if key in self.p.fns and "blocks" in self.p.fns[key] and self.p.fns[key]["local"]:
                return self.run_fn(st, key, args)
            r = self.model(st, fv[2], fv[2]["path"], args, [None] * len(args), None)
            if r is None:
                raise Give("call of %s" % key)
            return r
        if fv[0] == "CL":
            key = self.T[fv[1]]["call"]
            f = self.p.fns[key]
            me = fv
            cell = ("clo", len(self.stack))
            if self.T[f["locals"][1]]["k"] == "ref":
                st.mem[cell] = fv
                me = ("R", cell, ())
            out = self.run_fn(st, key, [me] + args)
            for s, v in out:
                s.mem.pop(cell, None)
            return out
        raise Give("call of an unknown function")

    # ------------------------------------------------------------ iterators
    def itval(self, st, v):
        """a value as an iterator"""
        if v is None:
            return None
        if v[0] == "IT":
            return v
        if v[0] == "SL":
            return ("IT", "slice", v[1], v[2], v[3], v[4])
        if v[0] == "R":
            a = self.rd(st, st.mem.get(v[1]), v[2], None)
            if a is not None and a[0] == "ARR":
                return ("IT", "slice", v[1], v[2], K(0), K(a[1]))
            if a is not None and a[0] == "SLOTS":
                return ("IT", "slice", v[1], v[2], K(0), K(self.kind["cap"]))
            if a is not None and a[0] == "HAV":
                return ("IT", "slice", v[1], v[2], K(0), K(a[2]))
            if a is not None and a[0] == "IT":
                return ("IT", "byref", v[1], v[2])
        return None

    def elem(self, it, i):
        return ("R", it[2], it[3] + (("x", i[1], i[2]),))

    def nextit(self, st, it):
        """-> [(st, it', item or None)]"""
        k = it[1]
        if k == "slice":
            lo, hi = it[4], it[5]
            if self.need(st, hi, lo):
                return [(st, it, None)]
            return [(st, it[:4] + (I(lo[1], lo[2] + 1), hi), self.elem(it, lo))]
        if k == "range":
            lo, hi = it[2], it[3]
            if self.need(st, hi, lo):
                return [(st, it, None)]
            return [(st, ("IT", "range", I(lo[1], lo[2] + 1), hi), lo)]
        if k == "byref":
            inner = self.load(st, it[2], it[3], None)
            out = []
            for s, j, x in self.nextit(st, inner):
                self.store(s, it[2], it[3], j)
                out.append((s, it, x))
            return out
        if k == "enum":
            return [(s, ("IT", "enum", j, it[3] if x is None else I(it[3][1], it[3][2] + 1)), None if x is None else ("A", None, (it[3], x)))
                    for s, j, x in self.nextit(st, it[2])]
        if k == "take":
            n = it[3]
            if self.need(st, n, K(0)):
                return [(st, it, None)]
            return [(s, ("IT", "take", j, I(n[1], n[2] - 1)), x) for s, j, x in self.nextit(st, it[2])]
        if k == "skip":
            n = it[3]
            if self.need(st, n, K(0)):
                return [(s, ("IT", "skip", j, n), x) for s, j, x in self.nextit(st, it[2])]
            inner = it[2]
            if inner[1] in ("slice", "range"):
                i = 4 if inner[1] == "slice" else 2
                lo, hi = inner[i], inner[i + 1]
                nl = self.plus(st, lo, n)
                if self.need(st, hi, nl):
                    nl = hi
                inner = inner[:i] + (nl, hi)
                return [(s, ("IT", "skip", j, K(0)), x) for s, j, x in self.nextit(st, inner)]
            raise Give("skip over %s" % inner[1])
        if k == "zip":
            out = []
            for s, j, x in self.nextit(st, it[2]):
                if x is None:
                    out.append((s, ("IT", "zip", j, it[3]), None))
                    continue
                for s2, j2, x2 in self.nextit(s, it[3]):
                    out.append((s2, ("IT", "zip", j, j2), None if x2 is None else ("A", None, (x, x2))))
            return out
        if k == "copied":
            return [(s, ("IT", "copied", j), None if x is None else self.load(s, x[1], x[2], None)) for s, j, x in self.nextit(st, it[2])]
        if k == "map":
            out = []
            for s, j, x in self.nextit(st, it[2]):
                if x is None:
                    out.append((s, ("IT", "map", j, it[3]), None))
                    continue
                for s2, v in self.callf(s, it[3], [x]):
                    out.append((s2, ("IT", "map", j, it[3]), v))
            return out
        if k == "rev":
            return [(s, ("IT", "rev", j), x) for s, j, x in self.backit(st, it[2])]
        if k == "filter":
            def body(s, x):
                cell = ("item", len(self.stack))
                s.mem[cell] = x
                res = []
                for s2, v in self.callf(s, it[3], [("R", cell, ())]):
                    y = s2.mem.pop(cell, None)
                    if v is None or v[0] != "B":
                        raise Give("predicate")
                    for s3 in self.assume(s2.copy(), v[1], True):
                        res.append(("exit", s3, y))
                    for s3 in self.assume(s2.copy(), v[1], False):
                        res.append(("cont", s3, None))
                return res
            return [(s, ("IT", "filter", j, it[3]), x) for s, j, x, n in self.loop(st, it[2], body)]
        raise Give("iterator %s" % k)

    def backit(self, st, it):
        k = it[1]
        if k == "slice":
            lo, hi = it[4], it[5]
            if self.need(st, hi, lo):
                return [(st, it, None)]
            e = I(hi[1], hi[2] - 1)
            return [(st, it[:4] + (lo, e), self.elem(it, e))]
        if k == "range":
            lo, hi = it[2], it[3]
            if self.need(st, hi, lo):
                return [(st, it, None)]
            e = I(hi[1], hi[2] - 1)
            return [(st, ("IT", "range", lo, e), e)]
        if k == "enum" and it[2][1] == "slice":
            out = []
            for s, j, x in self.backit(st, it[2]):
                n = self.plus(s, j[5], j[4], -1)
                out.append((s, ("IT", "enum", j, it[3]), None if x is None else ("A", None, (self.plus(s, it[3], n), x))))
            return out
        if k == "copied":
            return [(s, ("IT", "copied", j), None if x is None else self.load(s, x[1], x[2], None)) for s, j, x in self.backit(st, it[2])]
        if k == "rev":
            return [(s, ("IT", "rev", j), x) for s, j, x in self.nextit(st, it[2])]
        if k == "take" and it[2][1] in ("slice", "range"):
            i = 4 if it[2][1] == "slice" else 2
            lo, hi = it[2][i], it[2][i + 1]
            e = self.plus(st, lo, it[3])
            if self.need(st, hi, e):
                e = hi
            return self.backit(st, it[2][:i] + (lo, e))
        raise Give("reverse iteration over %s" % k)

    def loop(self, st, it, body):
        """for item in it { body }: body(st, item) -> [("cont"|"exit", st, val)]
        -> [(st, it', exit value or None, items before the exit)]"""
        cell = ("loop", len(self.stack), repr(self.span))
        st.mem[cell] = ("A", None, (it, K(0)))
        work = [(st, 0)]
        out = []
        table = {}
        while work:
            s, n = work.pop()
            self.states += 1
            if self.states > self.max_states:
                raise Give("state budget")
            if self.mode == "prove":
                s.gh.pop("diffs", None)
                s.gh.pop("sums", None)
                s.pf = {k: v for k, v in s.pf.items() if self.is_base(k[0])}
                s.z.keep(self.used_syms(s))
                s = self.head(table, "loop", s)
                if s is None:
                    continue
            elif n > self.UNROLL:
                self.cut = True
                continue

            def one(x):
                cur = x.mem[cell]
                res = []
                for s2, j, item in self.nextit(x, cur[2][0]):
                    i = cur[2][1]
                    if item is None:
                        s2.mem.pop(cell, None)
                        res.append(("out", s2, j, None, i))
                        continue
                    s2.mem[cell] = ("A", None, (j, I(i[1], i[2] + 1)))
                    for how, s3, v in body(s2, item):
                        if how == "exit":
                            c3 = s3.mem.pop(cell)
                            res.append(("out", s3, c3[2][0], v if v is not None else ("A", None, ()), i))
                        else:
                            res.append(("cont", s3))
                return res
            for r in self.forked(s, one):
                if r[0] == "cont":
                    work.append((r[1], n + 1))
                else:
                    out.append(r[1:])
        return out

    def pred_body(self, f, by_ref, want, val):
        """body that leaves the loop with val(item) when the predicate is `want`"""
        def body(s, x):
            cell = ("item", len(self.stack))
            if by_ref:
                s.mem[cell] = x
                a = ("R", cell, ())
            else:
                a = x
            res = []
            for s2, v in self.callf(s, f, [a]):
                if by_ref:
                    s2.mem.pop(cell, None)
                if v is None or v[0] != "B":
                    raise Give("predicate")
                for s3 in self.assume(s2.copy(), v[1], want):
                    res.append(("exit", s3, val(x)))
                for s3 in self.assume(s2.copy(), v[1], not want):
                    res.append(("cont", s3, None))
            return res
        return body


CORE = ("core::option::", "<core::option::", "core::result::", "<core::result::", "core::ops::control_flow", "<core::ops::control_flow",
        "core::convert", "<T as core::convert", "core::bool", "core::mem::ManuallyDrop", "core::mem::manually_drop", "core::cmp::impls", "<core::cmp::", "core::cmp::Ordering")


class Lib(Exec):
    """library functions"""
    IDENT = ("core::hint::black_box", "core::convert::identity", "core::mem::ManuallyDrop::<T>::new", "core::ptr::from_ref", "core::ptr::from_mut",
             "core::slice::<impl [T]>::as_ptr", "core::slice::<impl [T]>::as_mut_ptr", "core::slice::<impl [T]>::as_slice",
             "core::array::<impl [T; N]>::as_slice", "core::array::<impl [T; N]>::as_mut_slice", "core::borrow::Borrow::borrow", "core::convert::AsRef::as_ref")

    def subslice(self, st, v, lo, hi, checked=True):
        v = self.toslice(st, v)
        if v is None:
            raise Give("untracked slice")
        n = self.plus(st, v[4], v[3], -1)
        if hi is None:
            hi = n
        if checked is not None:
            bad = []
            if not self.need(st, lo, hi):
                self.oob(st, "a slice range can be reversed", checked)
                raise Infeasible()
            if not self.need(st, hi, n):
                self.oob(st, "a slice range can leave the slice", checked)
                raise Infeasible()
        return ("SL", v[1], v[2], self.plus(st, v[3], lo), self.plus(st, v[3], hi))

    def oob(self, st, why, checked):
        self.fail(st, "panic" if checked else "out-of-bounds", why)

    def toslice(self, st, v):
        if v is None:
            return None
        if v[0] == "SL":
            return v
        if v[0] == "R":
            a = self.rd(st, st.mem.get(v[1]), v[2], None)
            n = self.alen(a)
            if n is not None:
                return ("SL", v[1], v[2], K(0), K(n))
        return None

    def alen(self, a):
        if a is None:
            return None
        if a[0] == "ARR":
            return a[1]
        if a[0] == "HAV":
            return a[2]
        if a[0] == "SLOTS":
            return self.kind["cap"]
        return None

    def rng(self, st, v, ty):
        """(lo, hi or None) of a range value"""
        if v is None or ty is None:
            return None
        p = self.T[ty].get("path", "")
        if v[0] == "IT" and v[1] == "range":
            return v[2], v[3]
        if v[0] != "A":
            return None
        if p.endswith("::Range"):
            return v[2][0], v[2][1]
        if p.endswith("::RangeFrom"):
            return v[2][0], None
        if p.endswith("::RangeTo"):
            return K(0), v[2][0]
        if p.endswith("::RangeFull"):
            return K(0), None
        if p.endswith("::RangeToInclusive"):
            return K(0), I(v[2][0][1], v[2][0][2] + 1)
        if p.endswith("::RangeInclusive"):
            return v[2][0], I(v[2][1][1], v[2][1][2] + 1)
        return None

    def index_of(self, st, v, i, checked):
        """reference to element i of slice v, which must be inside"""
        v = self.toslice(st, v)
        if v is None:
            raise Give("untracked slice")
        n = self.plus(st, v[4], v[3], -1)
        self.count("check" if checked else "unchecked-access", self.span)
        if not (self.need(st, i, n, -1) and self.need(st, K(0), i)):
            self.oob(st, "an index can leave the array" + ("" if checked else " without being checked"), checked)
            raise Infeasible()
        e = self.plus(st, v[3], i)
        return ("R", v[1], v[2] + (("x", e[1], e[2]),))

    def copy_range(self, st, v, lo, hi, dst, v2=None):
        """elements [lo, hi) of slice v go to dst.. (of v2)"""
        v = self.toslice(st, v)
        w = self.toslice(st, v2) if v2 is not None else v
        a, b = self.plus(st, v[3], lo), self.plus(st, v[3], hi)
        d = self.plus(st, w[3], dst)
        if self.need(st, b, a):
            return
        src = self.rd(st, st.mem.get(v[1]), v[2], None)
        tgt = self.rd(st, st.mem.get(w[1]), w[2], None)
        if src is None or tgt is None or src[0] != "ARR" or tgt[0] != "ARR":
            if tgt is not None and tgt[0] == "HAV":
                return
            raise Give("copy between untracked arrays")
        k = self.plus(st, d, a, -1)
        kc = self.const(st, k)
        if kc is None:
            raise Give("copy by a distance that is not constant")
        prev = K(0)
        parts = []
        for h, ds in src[2]:
            s, e = prev, h
            prev = h
            if self.need(st, e, a) or self.need(st, b, s):
                continue
            if self.need(st, s, a):
                s = a
            if self.need(st, b, e):
                e = b
            if ds is not None and ds[0] == "old":
                nd = ("old", ds[1], ds[2] - kc)
            elif ds is not None and ds[0] == "cnt":
                nd = ("cnt", ds[1] - kc)
            else:
                nd = ds
            parts.append((I(s[1], s[2] + kc), I(e[1], e[2] + kc), nd))
        for s, e, nd in parts:
            tgt = self.setseg(st, tgt, s, e, nd)
        st.mem[w[1]] = self.upd(st, st.mem.get(w[1]), w[2], tgt)

    def whole(self, v):
        return v is not None and v[0] in ("R", "SL")

    def model(self, st, c, p, args, atys, rt):
        T = self.T
        a0 = args[0] if args else None
        name = p.rsplit("::", 1)[-1]
        unit = ("A", None, ())
        if p in self.IDENT:
            return [(st, a0)]
        if "panicking" in p or p.startswith("core::option::unwrap_failed") or p.startswith("core::option::expect_failed") or p.startswith("core::slice::index::slice_") \
                or p in ("core::option::unwrap_failed", "core::option::expect_failed", "core::result::unwrap_failed"):
            self.panic(st, "a panic can be reached")
            return []
        if p.startswith("core::fmt") or p.startswith("alloc::fmt") or p.startswith("std::io"):
            return [(st, None)]
        if p in ("core::hint::assert_unchecked", "core::intrinsics::assume"):
            return [(s, unit) for s in (self.assume(st, a0[1], True) if a0 is not None and a0[0] == "B" else [st])]
        if p in ("core::intrinsics::cold_path", "core::hint::spin_loop", "core::intrinsics::likely", "core::intrinsics::unlikely"):
            return [(st, a0 if args else unit)]
        if p == "core::hint::unreachable_unchecked":
            self.fail(st, "out-of-bounds", "code declared unreachable can be reached")
            return []
        if p.startswith("core::mem::") or p.startswith("core::ptr::"):
            r = self.mem_model(st, p, name, args, atys, rt)
            if r is not None:
                return r
        if name in ("clone",) and p.startswith("core::clone::Clone") and a0 is not None and a0[0] == "R":
            return [(st, self.load(st, a0[1], a0[2], None))]
        if p in ("core::cmp::PartialEq::eq", "core::cmp::PartialEq::ne", "core::cmp::PartialOrd::lt", "core::cmp::PartialOrd::le",
                 "core::cmp::PartialOrd::gt", "core::cmp::PartialOrd::ge", "core::cmp::Ord::cmp", "core::cmp::PartialOrd::partial_cmp"):
            x, y = [self.deref_all(st, v) for v in args[:2]]
            if x is not None and y is not None and (x[0] in ("I", "B") or (x[0] == "A" and not x[2])) and (y[0] in ("I", "B") or (y[0] == "A" and not y[2])):
                if name == "cmp" or name == "partial_cmp":
                    o = self.order(st, x, y)
                    return [(st, o if name == "cmp" else some(o))]
                return [(st, self.compare(st, name.capitalize(), x, y))]
            return None
        if p in ("core::cmp::Ord::min", "core::cmp::min", "core::cmp::Ord::max", "core::cmp::max") and a0 is not None and a0[0] == "I" and args[1] is not None:
            le = self.need(st, a0, args[1])
            return [(st, (a0 if le else args[1]) if name == "min" else (args[1] if le else a0))]
        if p.startswith("core::num::<impl ") or p.startswith("core::num::"):
            r = self.num(st, p, name, args, atys, rt)
            if r is not None:
                return r
        if p.startswith("core::convert::num") or (p in ("core::convert::From::from", "core::convert::Into::into") and a0 is not None and a0[0] == "I"):
            return [(st, a0)]
        if p.startswith("core::slice::") or p.startswith("core::array::") or p.startswith("core::ops::index::"):
            r = self.slices(st, c, p, name, args, atys, rt)
            if r is not None:
                return r
        if p.startswith("core::iter::") or p.startswith("core::ops::range::"):
            r = self.iters(st, c, p, name, args, atys, rt)
            if r is not None:
                return r
        return None

    def deref_all(self, st, v):
        n = 0
        while v is not None and v[0] == "R" and n < 4:
            v = self.load(st, v[1], v[2], None)
            n += 1
        return v

    def mem_model(self, st, p, name, args, atys, rt):
        a0 = args[0] if args else None
        unit = ("A", None, ())
        if p in ("core::mem::replace", "core::ptr::replace", "core::mem::take") and a0 is not None and a0[0] == "R":
            old = self.load(st, a0[1], a0[2], rt)
            if p == "core::mem::take":
                if self.T[rt]["k"] in ("uint", "int"):
                    new = K(0)
                elif self.T[rt].get("path") == "core::option::Option":
                    new = NONE_
                else:
                    return None
            else:
                new = args[1]
            self.store(st, a0[1], a0[2], new)
            return [(st, old)]
        if p in ("core::mem::swap", "core::ptr::swap") and a0 is not None and a0[0] == args[1][0] == "R":
            x, y = self.load(st, a0[1], a0[2], None), self.load(st, args[1][1], args[1][2], None)
            self.store(st, a0[1], a0[2], y)
            self.store(st, args[1][1], args[1][2], x)
            return [(st, unit)]
        if name in ("read", "read_unaligned", "read_volatile") and a0 is not None and a0[0] == "R":
            return [(st, self.load(st, a0[1], a0[2], rt))]
        if name in ("write", "write_unaligned", "write_volatile") and a0 is not None and a0[0] == "R":
            self.store(st, a0[1], a0[2], args[1])
            return [(st, unit)]
        if p in ("core::mem::forget", "core::mem::drop"):
            return [(st, unit)]
        if name in ("cast", "as_ptr", "cast_mut", "cast_const", "as_ref", "as_mut", "from", "new_unchecked") and a0 is not None and a0[0] in ("R", "SL"):
            return [(st, a0)]
        if name in ("add", "sub", "offset") and a0 is not None and a0[0] in ("R", "SL") and args[1] is not None and args[1][0] == "I":
            if a0[0] == "SL":
                e = self.plus(st, a0[3], args[1], -1 if name == "sub" else 1)
                return [(st, ("R", a0[1], a0[2] + (("x", e[1], e[2]),)))]
            if a0[2] and a0[2][-1][0] == "x":
                e = self.plus(st, I(*a0[2][-1][1:]), args[1], -1 if name == "sub" else 1)
                return [(st, ("R", a0[1], a0[2][:-1] + (("x", e[1], e[2]),)))]
            return None
        if name in ("copy", "copy_nonoverlapping", "copy_to", "copy_from") and len(args) == 3:
            s, d, n = args
            if name == "copy_from":
                s, d = d, s
            bs, os_ = self.ptr_parts(s)
            bd, od = self.ptr_parts(d)
            if bs is None or bd is None or n is None or n[0] != "I":
                return None
            ls, ld = self.toslice(st, bs), self.toslice(st, bd)
            if ls is None or ld is None:
                return None
            e = self.plus(st, os_, n)
            f = self.plus(st, od, n)
            if not (self.need(st, e, ls[4]) and self.need(st, f, ld[4])):
                self.oob(st, "a raw copy can leave the array", False)
                return []
            self.copy_range(st, bs, os_, e, od, bd)
            return [(st, ("A", None, ()))]
        return None

    def ptr_parts(self, v):
        if v is None:
            return None, None
        if v[0] == "SL":
            return ("R", v[1], v[2]), v[3]
        if v[0] == "R" and v[2] and v[2][-1][0] == "x":
            return ("R", v[1], v[2][:-1]), I(*v[2][-1][1:])
        if v[0] == "R":
            return v, K(0)
        return None, None

    def num(self, st, p, name, args, atys, rt):
        a = args[0] if args else None
        b = args[1] if len(args) > 1 else None
        if a is None or a[0] != "I":
            return None
        if name in ("wrapping_add", "wrapping_sub", "unchecked_add", "unchecked_sub") and b is not None and b[0] == "I":
            return [(st, self.fit(st, self.plus(st, a, b, 1 if "add" in name else -1), rt))]
        if name in ("checked_add", "checked_sub") and b is not None and b[0] == "I":
            r = self.plus(st, a, b, 1 if "add" in name else -1)
            hi = (1 << self.bits(atys[0])) - 1 if atys[0] is not None else (1 << 64) - 1
            if self.need(st, K(0), r) and self.need(st, r, K(hi)):
                return [(st, some(r))]
            return [(st, NONE_)]
        if name == "saturating_sub" and b is not None and b[0] == "I":
            r = self.plus(st, a, b, -1)
            return [(st, r if self.need(st, K(0), r) else K(0))]
        if name == "saturating_add" and b is not None and b[0] == "I":
            r = self.plus(st, a, b)
            hi = (1 << self.bits(rt)) - 1
            return [(st, r if self.need(st, r, K(hi)) else K(hi))]
        if name == "abs_diff" and b is not None and b[0] == "I":
            return [(st, self.plus(st, a, b, -1) if self.need(st, b, a) else self.plus(st, b, a, -1))]
        return None

    def slices(self, st, c, p, name, args, atys, rt):
        a0 = args[0] if args else None
        unit = ("A", None, ())
        if name in ("iter", "iter_mut"):
            return [(st, self.itval(st, self.toslice(st, a0)))] if self.toslice(st, a0) is not None else None
        if name == "len":
            return [(st, self.length(st, self.toslice(st, a0)))]
        if name == "is_empty":
            n = self.length(st, self.toslice(st, a0))
            return [(st, ("B", ("eq", n, K(0))))]
        if name in ("get_unchecked", "get_unchecked_mut", "get", "get_mut", "index", "index_mut") and len(args) == 2:
            i = args[1]
            chk = name in ("index", "index_mut")
            if i is not None and i[0] == "I":
                if name in ("get", "get_mut"):
                    v = self.toslice(st, a0)
                    n = self.plus(st, v[4], v[3], -1)
                    if not self.need(st, i, n, -1):
                        return [(st, NONE_)]
                    return [(st, some(self.index_of(st, a0, i, True)))]
                return [(st, self.index_of(st, a0, i, chk))]
            r = self.rng(st, i, atys[1])
            if r is not None:
                if name in ("get", "get_mut"):
                    v = self.toslice(st, a0)
                    n = self.plus(st, v[4], v[3], -1)
                    hi = n if r[1] is None else r[1]
                    if not (self.need(st, r[0], hi) and self.need(st, hi, n)):
                        return [(st, NONE_)]
                    return [(st, some(self.subslice(st, a0, r[0], hi, None)))]
                self.count("check" if chk else "unchecked-access", self.span)
                return [(st, self.subslice(st, a0, r[0], r[1], chk))]
            return None
        if name == "copy_within":
            r = self.rng(st, args[1], atys[1])
            if r is None or args[2] is None:
                return None
            v = self.toslice(st, a0)
            n = self.plus(st, v[4], v[3], -1)
            lo, hi = r
            if hi is None:
                hi = n
            self.count("check", self.span)
            if not self.need(st, lo, hi):
                self.oob(st, "the range copied can be reversed", True)
                return []
            if not self.need(st, hi, n):
                self.oob(st, "the range copied can leave the array", True)
                return []
            cnt = self.plus(st, hi, lo, -1)
            room = self.plus(st, n, cnt, -1)
            # dst + (hi - lo) <= n
            if lo[1] == args[2][1]:
                ok = self.need(st, I(hi[1], hi[2] + args[2][2] - lo[2]), n)
            else:
                k = self.const(st, self.plus(st, args[2], lo, -1))
                ok = self.need(st, I(hi[1], hi[2] + k), n) if k is not None else self.need(st, args[2], room)
            if not ok:
                self.oob(st, "the copy can leave the array", True)
                return []
            self.copy_range(st, v, lo, hi, args[2])
            return [(st, unit)]
        if name in ("copy_from_slice", "clone_from_slice"):
            v, w = self.toslice(st, a0), self.toslice(st, args[1])
            if v is None or w is None:
                return None
            n, m = self.plus(st, v[4], v[3], -1), self.plus(st, w[4], w[3], -1)
            if not (self.need(st, n, m) and self.need(st, m, n)):
                self.oob(st, "slices of different length are copied", True)
                return []
            self.copy_range(st, w, K(0), m, K(0), v)
            return [(st, unit)]
        if name == "fill":
            v = self.toslice(st, a0)
            t = self.rd(st, st.mem.get(v[1]), v[2], None)
            if self.need(st, v[4], v[3]):
                return [(st, unit)]
            if t is not None and t[0] == "SLOTS" and t[2] is not None:
                t = ("SLOTS", t[1], self.setseg(st, t[2], v[3], v[4], ("val", args[1])))
            elif t is not None and t[0] == "ARR":
                t = self.setseg(st, t, v[3], v[4], ("val", args[1]))
            else:
                return None
            st.mem[v[1]] = self.upd(st, st.mem.get(v[1]), v[2], t)
            return [(st, unit)]
        if name == "swap" and len(args) == 3:
            x, y = self.index_of(st, a0, args[1], True), self.index_of(st, a0, args[2], True)
            u, w = self.load(st, x[1], x[2], None), self.load(st, y[1], y[2], None)
            self.store(st, x[1], x[2], w)
            self.store(st, y[1], y[2], u)
            return [(st, unit)]
        if name in ("rotate_right", "rotate_left"):
            v = self.toslice(st, a0)
            k = self.const(st, args[1]) if args[1] is not None else None
            if k != 1:
                return None
            n = self.plus(st, v[4], v[3], -1)
            if not self.need(st, args[1], n):
                self.oob(st, "a rotation can be longer than the slice", True)
                return []
            lo, hi = v[3], v[4]
            last = I(hi[1], hi[2] - 1)
            base = ("R", v[1], v[2])
            if name == "rotate_right":
                keep = self.load(st, v[1], v[2] + (("x", last[1], last[2]),), None)
                self.copy_range(st, base, lo, last, I(lo[1], lo[2] + 1))
                self.store(st, v[1], v[2] + (("x", lo[1], lo[2]),), keep)
            else:
                keep = self.load(st, v[1], v[2] + (("x", lo[1], lo[2]),), None)
                self.copy_range(st, base, I(lo[1], lo[2] + 1), hi, lo)
                self.store(st, v[1], v[2] + (("x", last[1], last[2]),), keep)
            return [(st, unit)]
        if name in ("first", "last"):
            v = self.toslice(st, a0)
            if self.need(st, v[4], v[3]):
                return [(st, NONE_)]
            e = v[3] if name == "first" else I(v[4][1], v[4][2] - 1)
            return [(st, some(("R", v[1], v[2] + (("x", e[1], e[2]),))))]
        if name == "contains":
            v = self.toslice(st, a0)
            y = self.deref_all(st, args[1])
            it = self.itval(st, v)

            def body(s, x):
                z = self.load(s, x[1], x[2], None)
                res = []
                cond = self.compare(s, "Eq", z, y)[1]
                for s3 in self.assume(s.copy(), cond, True):
                    res.append(("exit", s3, TRUE))
                for s3 in self.assume(s.copy(), cond, False):
                    res.append(("cont", s3, None))
                return res
            return [(s, TRUE if v2 is not None else FALSE) for s, j, v2, n in self.loop(st, it, body)]
        if name == "partition_point":
            v = self.toslice(st, a0)
            out = []
            for s, j, x, n in self.loop(st, self.itval(st, v), self.pred_body(args[1], False, False, lambda x: x)):
                out.append((s, n))
            return out
        if name in ("binary_search",):
            v = self.toslice(st, a0)
            y = self.deref_all(st, args[1])

            def body(s, x):
                z = self.load(s, x[1], x[2], None)
                res = []
                if z is None or y is None or z[0] != "I":
                    raise Give("search")
                for s3 in self.assume(s.copy(), ("eq", z, y), True):
                    res.append(("exit", s3, TRUE))
                for s3 in self.assume(s.copy(), ("le", z, y), False):
                    res.append(("exit", s3, FALSE))
                for s3 in self.assume(s.copy(), ("le", y, z), False):
                    res.append(("cont", s3, None))
                return res
            return [(s, ("A", 0, (n,)) if x == TRUE else ("A", 1, (n,))) for s, j, x, n in self.loop(st, self.itval(st, v), body)]
        return None

    def iters(self, st, c, p, name, args, atys, rt):
        a0 = args[0] if args else None
        rp = c.get("rpath", p)
        unit = ("A", None, ())
        if p == "core::ops::range::RangeInclusive::<Idx>::new":
            return [(st, ("IT", "range", args[0], I(args[1][1], args[1][2] + 1)))]
        if name == "contains" and p.startswith("core::ops::range"):
            r = self.deref_all(st, a0)
            if r is not None and r[0] == "IT" and r[1] == "range":
                x = self.deref_all(st, args[1])
                return [(st, ("B", ("and", ("le", r[2], x), ("not", ("le", r[3], x)))))]
            x, rr = self.deref_all(st, args[1]), self.rng(st, r, self.p.pointee(atys[0]))
            if rr and x is not None and x[0] == "I":
                cnd = ("le", rr[0], x)
                if rr[1] is not None:
                    cnd = ("and", cnd, ("not", ("le", rr[1], x)))
                return [(st, ("B", cnd))]
            return None
        if p == "core::iter::traits::collect::IntoIterator::into_iter":
            if a0 is not None and a0[0] == "A" and atys[0] is not None and self.T[atys[0]].get("path", "").startswith("core::ops::range::"):
                r = self.rng(st, a0, atys[0])
                if r and r[1] is not None:
                    return [(st, ("IT", "range", r[0], r[1]))]
            v = self.itval(st, a0)
            if v is not None:
                return [(st, v)]
            if a0 is not None and atys[0] is not None and atys[0] in self.p.iter_tys:
                return [(st, a0)]
            return None
        if name in ("next", "next_back", "nth") and a0 is not None and a0[0] == "R":
            it = self.load(st, a0[1], a0[2], None)
            it = self.asit(st, it, self.p.pointee(atys[0]) if atys[0] is not None else None)
            if it is None:
                return None
            if name == "nth":
                if self.const(st, args[1]) != 0:
                    it = ("IT", "skip", it, args[1])
            out = []
            for s, j, x in (self.backit if name == "next_back" else self.nextit)(st, it):
                self.store(s, a0[1], a0[2], j)
                out.append((s, NONE_ if x is None else some(x)))
            return out
        it = a0
        byref = None
        if it is not None and it[0] == "R" and name in ("position", "any", "all", "find", "find_map", "rposition", "by_ref", "try_fold"):
            byref = it
            it = self.load(st, it[1], it[2], None)
            pt = self.p.pointee(atys[0]) if atys[0] is not None else None
            it = self.asit(st, it, pt)
            if name == "by_ref":
                return [(st, a0)]
        else:
            it = self.asit(st, it, atys[0] if atys else None)
        if it is None:
            return None

        def fin(s, j, v):
            if byref is not None:
                self.store(s, byref[1], byref[2], j)
            return (s, v)
        if name == "take":
            return [(st, self.take(st, it, args[1]))]
        if name == "skip":
            return [(st, self.skip(st, it, args[1]))]
        if name == "enumerate":
            return [(st, ("IT", "enum", it, K(0)))]
        if name == "zip":
            o = self.asit(st, args[1], atys[1]) or self.itval(st, args[1])
            return [(st, ("IT", "zip", it, o))] if o is not None else None
        if name in ("copied", "cloned"):
            return [(st, ("IT", "copied", it))]
        if name == "map":
            return [(st, ("IT", "map", it, args[1]))]
        if name == "rev":
            return [(st, ("IT", "rev", it))]
        if name == "filter":
            return [(st, ("IT", "filter", it, args[1]))]
        if name in ("position",):
            out = []
            for s, j, x, n in self.loop(st, it, self.pred_body(args[1], False, True, lambda x: TRUE)):
                out.append(fin(s, j, NONE_ if x is None else some(n)))
            return out
        if name == "find":
            out = []
            for s, j, x, n in self.loop(st, it, self.pred_body(args[1], True, True, lambda x: x)):
                out.append(fin(s, j, NONE_ if x is None else some(x)))
            return out
        if name in ("any", "all"):
            want = name == "any"
            out = []
            for s, j, x, n in self.loop(st, it, self.pred_body(args[1], False, want, lambda x: TRUE)):
                out.append(fin(s, j, ("B", ("c", (x is not None) == want))))
            return out
        if name == "count":
            def cb(s, x):
                return [("cont", s, None)]
            return [(s, n) for s, j, x, n in self.loop(st, it, cb)]
        if name == "for_each":
            def fb(s, x):
                return [("cont", s2, None) for s2, v in self.callf(s, args[1], [x])]
            return [(s, unit) for s, j, x, n in self.loop(st, it, fb)]
        if name == "find_map":
            def mb(s, x):
                res = []
                for s2, v in self.callf(s, args[1], [x]):
                    if v is None or v[0] != "A" or v[1] is None:
                        raise Give("find_map")
                    res.append(("exit", s2, v) if v[1] == 1 else ("cont", s2, None))
                return res
            return [fin(s, j, NONE_ if x is None else x) for s, j, x, n in self.loop(st, it, mb)]
        return None

    def take(self, st, it, n):
        """a bound on a position, not a count that runs down: differences of positions stay expressible"""
        k = it[1]
        if k in ("slice", "range"):
            i = 4 if k == "slice" else 2
            lo, hi = it[i], it[i + 1]
            e = self.plus(st, lo, n)
            if self.need(st, hi, e):
                e = hi
            return it[:i] + (lo, e)
        if k == "zip":
            return ("IT", "zip", self.take(st, it[2], n), self.take(st, it[3], n))
        if k in ("enum", "map", "copied"):
            return it[:2] + (self.take(st, it[2], n),) + it[3:]
        return ("IT", "take", it, n)

    def skip(self, st, it, n):
        k = it[1]
        if k in ("slice", "range"):
            i = 4 if k == "slice" else 2
            lo, hi = it[i], it[i + 1]
            e = self.plus(st, lo, n)
            if self.need(st, hi, e):
                e = hi
            return it[:i] + (e, hi)
        if k == "zip":
            return ("IT", "zip", self.skip(st, it[2], n), self.skip(st, it[3], n))
        if k == "enum":
            return ("IT", "enum", self.skip(st, it[2], n), self.plus(st, it[3], n))
        if k == "copied":
            return ("IT", "copied", self.skip(st, it[2], n))
        return ("IT", "skip", it, n)

    def asit(self, st, v, ty):
        if v is None:
            return None
        if v[0] == "IT":
            return v
        if v[0] == "A" and ty is not None and self.T[ty].get("path", "").startswith("core::ops::range::"):
            r = self.rng(st, v, ty)
            if r and r[1] is not None:
                return ("IT", "range", r[0], r[1])
        return None
