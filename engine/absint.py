"""Path-sensitive abstract interpreter (property simulation) over the MIR dump.

Abstract domain: symbolic structure of locals, node objects with typestate
(lock word relation, validation epoch of every value read, ownership,
reclamation), finite boolean facts.  States are merged when equal up to renaming;
loops run to a fixpoint; recursion is cut with an assume/guarantee contract.
No code is executed and no solver is used.
"""
import sys
from collections import namedtuple, defaultdict
from mir import Prog, ATOMIC, Missing

sys.setrecursionlimit(20000)
E0 = frozenset()
MAXREC = 1
INLINE_CORE = (
    "core::option::", "<core::option::", "core::result::", "<core::result::", "core::ops::control_flow", "<core::ops::control_flow",
    "core::convert", "<T as core::convert", "core::mem::replace", "core::mem::take", "core::mem::swap",
    "core::cmp::impls", "core::ops::function", "core::clone::impls", "core::bool", "core::cmp::PartialEq::ne",
    "<I as core::iter::traits::collect::IntoIterator>::into_iter", "core::array::equality", "<T as core::array::equality",
    "core::cmp::", "core::mem::ManuallyDrop", "core::mem::manually_drop", "<core::mem::manually_drop", "core::mem::maybe_dangling", "<core::mem::maybe_dangling", "core::iter::adapters::by_ref",
)


def C(v):
    return ("S", ("c", v), E0)


class Node:
    __slots__ = ("kind", "term", "vers", "held", "obs", "unl", "dfr", "freed", "imm", "facts", "cnts", "contents",
                 "layout", "zero", "inits", "org", "nins")

    def __init__(s):
        s.kind = "shared"; s.term = None; s.vers = (); s.held = None; s.obs = False; s.unl = False; s.dfr = 0
        s.freed = 0; s.imm = {}; s.facts = (); s.cnts = (); s.contents = (); s.layout = None; s.zero = None
        s.inits = (); s.org = None; s.nins = 0

    def copy(s):
        n = Node.__new__(Node)
        for a in Node.__slots__:
            setattr(n, a, getattr(s, a))
        n.imm = dict(s.imm)
        return n


class State:
    __slots__ = ("mem", "frames", "nodes", "facts", "np2n", "P", "oom", "cont", "eff", "guards", "pinarg", "deferred",
                 "bits", "unw", "trace", "iters", "rootloads", "drains", "enums", "seen", "allocs", "dec", "pays", "cbs", "after", "basis", "lost")

    def copy(s):
        n = State.__new__(State)
        for a in State.__slots__:
            setattr(n, a, getattr(s, a))
        n.mem = dict(s.mem); n.nodes = dict(s.nodes); n.facts = dict(s.facts); n.np2n = dict(s.np2n)
        n.bits = dict(s.bits); n.iters = dict(s.iters); n.enums = dict(s.enums)
        return n

    def nmut(s, nid):
        n = s.nodes[nid].copy()
        s.nodes[nid] = n
        return n

    def note(s, span, msg):
        s.trace = (s.trace, span, msg)


Frame = namedtuple("Frame", "fn blk ret unwind ctx")   # ret: (base,path,tid) or None ; ctx: tag


class Dead(Exception):
    """path infeasible"""


class Abort(Exception):
    """analysis cannot continue: the check has no answer"""


class Engine:
    def __init__(self, prog, inline_ops=(), exclusive=False, max_states=400000):
        self.p = prog
        self.T = prog.T
        self.sym = 0
        self.viol = {}
        self.ev = defaultdict(set)       # evidence: rule -> set of instances
        self.inline_ops = set(inline_ops)
        self.exclusive = exclusive
        self.lite = False                # forget facts that only mutating operations need
        self.widen = defaultdict(set)
        self.max_states = max_states
        self.nstates = 0
        self.steps = 0
        self.root = None
        self.agg = defaultdict(set)
        self.returns = []
        self.on_return = None
        self.intervals = defaultdict(set)
        self.visited_fns = set()

    # ------------------------------------------------------------------ util
    def fresh(self):
        self.sym += 1
        return ("s", self.sym)

    def report(self, prop, rule, st, span, msg, fn=None):
        fn = fn or (st.frames[-1].fn if st.frames else self.root)
        fnp = self.p.fns[fn]["path"] if fn in self.p.fns else fn
        key = (prop, rule, fnp)
        if key in self.viol:
            return
        tr = []
        t = st.trace
        while t:
            tr.append("%s %s" % (t[1], t[2]))
            t = t[0]
        tr.reverse()
        stack = [self.p.fns[f.fn]["path"] for f in st.frames]
        self.viol[key] = dict(prop=prop, rule=rule, fn=fnp, span=span, msg=msg, root=self.root, trace=tr[-60:], stack=stack)

    def count(self, rule, inst):
        self.ev[rule].add(inst)

    def site(self, st, span):
        f = next(x.fn for x in reversed(st.frames) if x.fn in self.p.fns)
        return "%s@%s" % (self.p.fns[f]["path"], span)

    # ------------------------------------------------------------ values
    def mk(self, tid, term, labs=E0, regs=E0):
        k = self.T[tid]["k"]
        if k in ("int", "uint", "bool", "char", "float"):
            return ("S", term, labs)
        return ("O", tid, term, labs, regs)

    def labels(self, v, st=None, deep=True):
        if v is None:
            return E0
        k = v[0]
        if k == "S":
            return v[2]
        if k == "A":
            r = v[3] if len(v) > 3 else E0
            for f in v[2]:
                r = r | self.labels(f, st)
            return r
        if k == "O":
            return v[3]
        if k == "P":
            return v[3]
        if k == "U":
            return self.labels(v[2], st)
        return E0

    def deep_labels(self, v, st, seen=None):
        """labels of v and of the local memory it points to"""
        r = self.labels(v)
        for p in self.pointers(v):
            if p[1][0] != "N":
                seen = seen if seen is not None else set()
                if (p[1], p[2]) in seen:
                    continue
                seen.add((p[1], p[2]))
                try:
                    r = r | self.deep_labels(self.rd(st, p[1], p[2]), st, seen)
                except Exception:
                    pass
        return r

    def pointers(self, v):
        if v is None:
            return
        k = v[0]
        if k == "P":
            yield v
        elif k == "A":
            for f in v[2]:
                yield from self.pointers(f)
        elif k == "U":
            yield from self.pointers(v[2])

    def regs(self, v, st, depth=0):
        """node regions / cells a value may point into"""
        if v is None or depth > 6:
            return E0
        k = v[0]
        if k == "O":
            return v[4]
        if k == "A":
            r = E0
            for f in v[2]:
                r = r | self.regs(f, st, depth + 1)
            return r
        if k == "U":
            return self.regs(v[2], st, depth + 1)
        if k == "P":
            if v[1][0] == "N":
                return frozenset([("n", v[1][1], self.region(v[2]))])
            r = frozenset([("cell", v[1])])
            try:
                r = r | self.regs(self.rd(st, v[1], v[2]), st, depth + 1)
            except Exception:
                pass
            return r
        return E0

    def region(self, path):
        """classify a node-relative path"""
        if not path:
            return "mut"
        f = path[0]
        if f[0] == "f":
            key = (f[2], f[1])
            if key == self.p.lock_field:
                return "lock"
            if key[0] in self.base_paths and key not in self.p.mut_fields and not self.is_meta_container(f, path):
                return "imm"
            if self.is_meta_container(f, path) and len(path) > 1:
                return self.region(path[1:])
            return "mut"
        return "mut"

    def is_meta_container(self, f, path):
        # field of the base whose type is a nested meta struct
        for t in self.p.base_tys:
            if self.T[t]["path"] == f[2]:
                return self.p.fields(t)[f[1]] in self.p.meta_tys
        return False

    @property
    def base_paths(self):
        if not hasattr(self, "_bp"):
            self._bp = {self.T[t]["path"] for t in self.p.base_tys}
        return self._bp

    def field_key(self, path):
        """(key, rest) of the innermost base/kind field in a node path"""
        f = path[0]
        if self.is_meta_container(f, path) and len(path) > 1:
            return self.field_key(path[1:])
        return (f[2], f[1]), path[1:]

    def term(self, v, st, depth=0):
        """a term standing for a value's content (None if it must be fresh)"""
        if v is None or depth > 5:
            return None
        k = v[0]
        if k == "S":
            return v[1]
        if k == "O":
            return v[2]
        if k == "A":
            fs = tuple(self.term(f, st, depth + 1) for f in v[2])
            if any(f is None for f in fs):
                return None
            return ("agg", v[1]) + fs
        if k == "U":
            t = self.term(v[2], st, depth + 1)
            return None if t is None else ("un", v[1], t)
        if k == "P":
            if v[1][0] == "N":
                if self.region(v[2]) == "imm":
                    return ("nref", ("n", v[1][1]), v[2])
                if v[2] == ():
                    return ("nref", ("n", v[1][1]), ())
                return None
            try:
                t = self.term(self.rd(st, v[1], v[2]), st, depth + 1)
            except Exception:
                return None
            return None if t is None else ("ref", t)
        return None

    def tdepth(self, t):
        if not isinstance(t, tuple) or not t or t[0] in ("c", "s", "n"):
            return 0
        return 1 + max([self.tdepth(x) for x in t[1:]] + [0])

    def op(self, name, *ts):
        if any(t is None for t in ts):
            return self.fresh()
        t = (name,) + ts
        if self.tdepth(t) > 7:
            return self.fresh()
        return t

    # ------------------------------------------------------------ memory
    def project(self, v, el, ctype, st):
        """value of a projection of a (non-node) value"""
        if v is None:
            return None
        k = v[0]
        if el[0] == "v":
            return v
        if el[0] == "f":
            if k == "A":
                return v[2][el[1]] if el[1] < len(v[2]) else None
            if k == "U":
                if el[1] == v[1]:
                    return v[2]
                return self.mk(el[3], ("pun", self.term(v, st) or self.fresh()), self.labels(v))
            if k == "O":
                if v[1] == self.p.np_ty:
                    if self.T[el[3]]["k"] in ("uint", "int"):
                        st.pays = st.pays | {v[2]}
                        return ("S", ("pay", v[2]), v[3])
                    return ("O", el[3], ("sub", v[2]), v[3], v[4])
                var = el[4] if len(el) > 4 else 0
                return self.mk(el[3], ("fld", v[2], var, el[1]), v[3], v[4])
            return v           # transparent wrapper
        if el[0] in ("i", "ci", "sub"):
            if k == "R":
                pass
            et = el[2] if len(el) > 2 else None
            if k == "O":
                if el[0] == "sub":
                    return ("O", v[1], self.fresh(), v[3], v[4])
                t = self.op("idx", v[2], el[1]) if el[1] is not None else self.fresh()
                return self.mk(et, t, v[3], v[4])
            if k == "A" and el[1] is not None and el[1][0] == "c" and el[1][1] < len(v[2]):
                return v[2][el[1][1]]
            if k == "A":
                return self.mk(et, self.fresh(), self.labels(v), E0)
        return None

    def rd(self, st, base, path):
        v = st.mem.get(base)
        for el in path:
            v = self.project(v, el, None, st)
        return v

    def expand(self, v, tid, variant):
        """opaque aggregate -> explicit aggregate so that a part can be replaced"""
        fs = self.p.fields(tid, variant)
        return ("A", variant, tuple(self.mk(t, ("fld", v[2], variant, i), v[3], v[4]) for i, t in enumerate(fs)))

    def upd(self, v, path, new, st):
        if not path:
            return new
        el = path[0]
        if el[0] == "v":
            return self.upd(v, path[1:], new, st)
        if el[0] == "f":
            if v is None:
                n = max(len(self.p.fields(el[5], el[4])), el[1] + 1) if el[5] is not None else el[1] + 1
                if el[5] is not None and self.T[el[5]]["k"] == "adt" and self.T[el[5]]["adt"] == "union":
                    return ("U", el[1], self.upd(None, path[1:], new, st))
                v = ("A", el[4], (None,) * n)
            if v[0] == "O":
                if v[1] == self.p.np_ty:
                    return ("U", el[1], new)
                v = self.expand(v, v[1], el[4])
            if v[0] == "U":
                return ("U", el[1], self.upd(v[2] if v[1] == el[1] else None, path[1:], new, st))
            if v[0] == "A":
                fs = list(v[2])
                while len(fs) <= el[1]:
                    fs.append(None)
                fs[el[1]] = self.upd(fs[el[1]], path[1:], new, st)
                return ("A", v[1], tuple(fs)) + v[3:]
            return self.upd(v, path[1:], new, st)   # transparent wrapper
        # index: weak update with a record of what was put where
        labs = self.labels(v) | self.labels(new)
        regs = self.regs(v, st) | self.regs(new, st)
        tn = self.term(new, st) if len(path) == 1 else None
        tv = self.term(v, st) if v is not None else ("undef",)
        if not self.lite and tv is not None and tn is not None and el[1] is not None and self.tdepth(tv) < 4:
            t = ("upd", tv, el[1], tn)
        else:
            t = self.fresh()
        at = v[1] if v is not None and v[0] == "O" else el[3]
        return ("O", at, t, labs, regs)

    def wr(self, st, base, path, new):
        st.mem[base] = self.upd(st.mem.get(base), path, new, st)

    # resolve a MIR place to (base, path, tid, ptrlabels)
    def resolve(self, st, pl, span, for_borrow=False):
        depth = len(st.frames) - 1
        fn = st.frames[-1].fn
        f = self.p.fns[fn]
        cur = f["locals"][pl[0]]
        base = ("L", depth, pl[0])
        path = ()
        var = 0
        plabs = E0
        for el in pl[1]:
            if el[0] == "deref":
                v = self.load(st, base, path, cur, span)
                pt = self.p.pointee(cur)
                if pt is None:
                    # Box and other owning pointers
                    pt = self.T[cur].get("args", [None])[0] if self.T[cur]["k"] == "adt" else None
                P = self.as_ptr(st, v, pt, span)
                base, path, plabs = P[1], P[2], P[3]
                cur = pt
                var = 0
            elif el[0] == "v":
                var = el[1]
            elif el[0] == "f":
                if base[0] == "N":
                    if el[2] == self.p.base_ty and cur in self.p.kinds:
                        pass
                    elif cur is not None and self.T[cur]["k"] == "adt" and (cur in self.p.base_tys or cur in self.p.kinds):
                        path = path + (("f", el[1], self.T[cur]["path"], el[2]),)
                    else:
                        path = path + (("f", el[1], "", el[2], var, cur),)
                else:
                    path = path + (("f", el[1], "", el[2], var, cur),)
                cur = el[2]
                var = 0
            elif el[0] == "i":
                iv = self.load(st, ("L", depth, el[1]), (), None, span)
                et = self.T[cur].get("to") if cur is not None else None
                path = path + (("i", iv[1] if iv and iv[0] == "S" else None, et, cur, self.labels(iv)),)
                cur = et
            elif el[0] == "ci":
                et = self.T[cur].get("to") if cur is not None else None
                path = path + (("i", ("c", el[1]) if not el[2] else None, et, cur, E0),)
                cur = et
            elif el[0] == "sub":
                path = path + (("sub", el[1], cur),)
        return base, path, cur, plabs

    def as_ptr(self, st, v, pt, span):
        if v is None:
            return ("P", self.xcell(st, self.fresh(), self.mk(pt, self.fresh()) if pt is not None else None), (), E0)
        if v[0] == "P":
            return v
        if v[0] == "A" and len(v[2]) >= 1:
            for x in v[2]:
                if x is not None and x[0] in ("P", "O"):
                    return self.as_ptr(st, x, pt, span)
        if v[0] == "O":
            if pt is not None and self.p.is_node_ty(pt):
                ns = {r[1] for r in v[4] if r[0] == "n"}
                if len(ns) == 1 and v[2][0] != "sub":
                    return ("P", ("N", next(iter(ns))), (), v[3])
                return ("P", ("N", self.node_of(st, v[2], span)), (), v[3])
            if pt is None:
                return ("P", self.xcell(st, v[2], ("O", 0, ("deref", v[2]), v[3], v[4])), (), v[3])
            return ("P", self.xcell(st, v[2], self.mk(pt, self.op("deref", v[2]), v[3], v[4])), (), v[3])
        if v[0] == "S":
            return ("P", self.xcell(st, v[1], self.mk(pt, self.fresh(), v[2]) if pt is not None else None), (), v[2])
        raise Abort("cannot dereference %r at %s" % (v, span))

    def xcell(self, st, term, default):
        b = ("X", term)
        if b not in st.mem:
            st.mem[b] = default
        return b

    def xregs(self, st, base):
        v = st.mem.get(base)
        return self.regs(v, st) if v is not None and v[0] == "O" else E0

    def node_of(self, st, term, span):
        if term in st.np2n:
            return st.np2n[term]
        self.sym += 1
        nid = self.sym
        n = Node()
        n.term = term
        n.kind = "root" if self.is_self_term(term) else "shared"
        st.nodes[nid] = n
        st.np2n[term] = nid
        return nid

    def is_self_term(self, t):
        while isinstance(t, tuple) and t and t[0] in ("fld", "deref", "ref"):
            t = t[1]
        return isinstance(t, tuple) and t and t[0] == "arg"

    # -------- node access ---------------------------------------------------
    def touch(self, st, nid, labs, span, what):
        n = st.nodes[nid]
        self.count("deref", self.site(st, span))
        if any(isinstance(l, tuple) and l[0] == "D" for l in labs):
            self.report("C01", "unvalidated-link", st, span, "a node is reached through a pointer that was read optimistically and not confirmed unchanged (%s)" % what)
        if n.kind != "fresh" and n.freed:
            self.report("C04", "use-after-free", st, span, "node memory is accessed after it was returned to the allocator")
        if n.kind == "fresh" and n.freed:
            self.report("C04", "use-after-free", st, span, "node memory is accessed after it was returned to the allocator")
        if n.kind in ("shared", "root", "published") and not self.exclusive and not st.deferred:
            self.count("pinned", self.site(st, span))
            if not st.pinarg and not st.guards:
                self.report("C05", "unpinned-access", st, span, "a shared node is accessed while the thread is not pinned")

    def dlabel(self, st, nid):
        n = st.nodes[nid]
        if n.kind == "fresh" or (n.held and n.held[1] & 2) or st.deferred:
            return E0 if n.kind == "fresh" else frozenset(["A"])
        if self.exclusive:
            return E0
        return frozenset([("D", nid, n.vers[-1] if n.vers else None), "A"])

    def load(self, st, base, path, tid, span, labs=E0):
        if base[0] != "N":
            v = self.rd(st, base, path)
            if base[0] == "X" or v is not None and v[0] in ("O",) and False:
                v = self.region_labels(st, v, base, span)
            for el in path:
                if el[0] == "i" and len(el) > 4 and el[4] and v is not None:
                    v = self.addlabs(v, el[4])
            return v
        nid = base[1]
        self.touch(st, nid, labs, span, "read")
        n = st.nodes[nid]
        if not path:
            return ("O", tid if tid is not None else self.p.base_ty, self.fresh(), self.dlabel(st, nid), frozenset([("n", nid, "mut")]))
        key, rest = self.field_key(path)
        reg = self.region(path)
        if reg == "imm":
            v = n.imm.get(key)
            if v is None:
                ft = self.field_type(key)
                v = self.mk(ft, ("imm", ("n", nid), key), E0, frozenset([("n", nid, "imm")]))
            for el in rest:
                v = self.project(v, el, None, st)
            return v
        if reg == "lock":
            return ("S", self.fresh(), E0)
        ft = self.field_type(key)
        lab = self.dlabel(st, nid)
        self.count("optimistic-read", self.site(st, span))
        if key == self.p.count_field and not rest:
            t = self.fresh()
            n = st.nmut(nid)
            if n.kind != "fresh":
                n.cnts = n.cnts + ((t, n.vers[-1] if n.vers else None),)
            return ("S", t, lab)
        if tid is None:
            tid = ft
        il = E0
        for el in rest:
            if el[0] == "i" and len(el) > 4:
                il = il | el[4]
        return self.mk(tid, self.fresh(), lab | il, frozenset([("n", nid, "mut")]))

    def region_labels(self, st, v, base, span):
        """a read through an opaque reference that may point into a node"""
        if v is None:
            return v
        regs = self.regs(v, st) if v[0] == "O" else self.xregs(st, base)
        add = E0
        for r in regs:
            if r[0] == "n" and r[1] in st.nodes:
                self.touch(st, r[1], E0, span, "read")
                if r[2] == "mut":
                    add = add | self.dlabel(st, r[1])
        return self.addlabs(v, add) if add else v

    def addlabs(self, v, labs):
        if v is None or not labs:
            return v
        k = v[0]
        if k == "S":
            return ("S", v[1], v[2] | labs)
        if k == "O":
            return ("O", v[1], v[2], v[3] | labs, v[4])
        if k == "P":
            return ("P", v[1], v[2], v[3] | labs)
        if k == "A":
            return ("A", v[1], tuple(self.addlabs(f, labs) for f in v[2]), (v[3] if len(v) > 3 else E0) | labs)
        if k == "U":
            return ("U", v[1], self.addlabs(v[2], labs))
        return v

    def field_type(self, key):
        for t in list(self.p.base_tys) + list(self.p.kinds):
            if self.T[t]["path"] == key[0]:
                return self.p.fields(t)[key[1]]
        raise Missing("field %r" % (key,))

    def store(self, st, base, path, v, span, labs=E0):
        if base[0] != "N":
            if base[0] == "X":
                regs = self.xregs(st, base)
                for r in regs:
                    if r[0] == "n" and r[1] in st.nodes:
                        self.raw_write(st, r[1], span, "through a derived reference")
                    if r[0] == "cell" and r[1] in st.mem:
                        lv = self.labels(v)
                        if lv:
                            st.mem[r[1]] = self.addlabs(st.mem[r[1]], lv)
                self.ext_write(st, base, path, v, span)
            else:
                for el in path:
                    if el[0] == "i" and v is not None:
                        self.index_taint(st, el, self.labels(v))
            self.wr(st, base, path, v)
            return
        nid = base[1]
        self.touch(st, nid, labs, span, "write")
        n = st.nodes[nid]
        if not path:
            if n.kind != "fresh":
                self.raw_write(st, nid, span, "whole node")
                return
            n = st.nmut(nid)
            self.init_from(n, v, st)
            return
        key, rest = self.field_key(path)
        if self.region(path) == "imm" and not rest:
            if n.kind == "fresh":
                n = st.nmut(nid)
                n.imm[key] = v
                return
        self.raw_write(st, nid, span, "field")

    def ext_write(self, st, base, path, v, span):
        """write into memory handed in by the caller (scan buffers)"""
        labs = self.labels(v)
        for el in path:
            if el[0] == "i":
                self.index_taint(st, el, labs)
                self.count("buffer-write", self.site(st, span))

    def index_taint(self, st, el, labs):
        """what goes into slot i taints the counter i that decides whether the slot is reported"""
        if not labs or el[1] is None or el[1][0] == "c":
            return
        t = el[1]

        def f(v):
            if v is None:
                return v
            if v[0] == "S":
                return ("S", v[1], v[2] | labs) if v[1] == t else v
            if v[0] == "A":
                nf = tuple(f(x) for x in v[2])
                return v if nf == v[2] else ("A", v[1], nf) + v[3:]
            return v
        for c in list(st.mem):
            w = st.mem[c]
            nv = f(w)
            if nv is not w:
                st.mem[c] = nv

    def init_from(self, n, v, st, ty=None):
        ty = ty if ty is not None else self.p.base_ty
        if v is None or v[0] != "A":
            return
        for i, ft in enumerate(self.p.fields(ty)):
            fv = v[2][i] if i < len(v[2]) else None
            if ft in self.p.meta_tys:
                self.init_from(n, fv, st, ft)
            else:
                n.imm[(self.T[ty]["path"], i)] = fv
        n.inits = n.inits + ("base",)

    def raw_write(self, st, nid, span, what):
        n = st.nodes[nid]
        self.count("node-write", self.site(st, span))
        if not self.may_write(st, nid):
            self.report("C02", "unlocked-write", st, span, "tree content is written (%s) without holding the node's exclusive lock" % what)
        n = st.nmut(nid)
        n.facts = ()
        n.cnts = ()

    def may_write(self, st, nid):
        n = st.nodes[nid]
        if n.kind == "fresh" or self.exclusive:
            return True
        return bool(n.held and n.held[1] & 2)

    # ------------------------------------------------------------ operands
    def operand(self, st, o, span):
        k = o[0]
        if k in ("copy", "move"):
            base, path, tid, plabs = self.resolve(st, o[1], span)
            v = self.load(st, base, path, tid, span, plabs)
            if k == "move" and not o[1][1]:
                pass
            if v is not None and v[0] == "S" and self.cl(st):
                v = ("S", v[1], v[2] | self.cl(st))
            return v
        if k == "const":
            c = o[1]["const"]
            if "fn" in c:
                return ("O", c["t"], ("fn", c["fn"].get("key") or c["fn"]["path"]), E0, E0)
            x = self.T[c["t"]]
            if "v" in c:
                if x["k"] == "adt" and x.get("adt") == "enum" and all(not w["f"] for w in x["variants"]):
                    for i, w in enumerate(x["variants"]):
                        if w["d"] == c["v"]:
                            return self.agg_cl(st, c["t"], ("A", i, ()))
                return ("S", ("c", c["v"]), self.cl(st))
            if x["k"] in ("tuple",) and not x.get("f"):
                return ("A", 0, ())
            if x["k"] == "adt" and x.get("adt") == "struct" and not x["variants"][0]["f"]:
                return ("A", 0, ())
            tm = ("k", c["t"], str(c.get("x", c.get("param", "?"))))
            if "ref" in c:
                rt, rv = c["ref"]
                return ("P", self.xcell(st, ("kr", rt, rv), self.operand(st, ["const", {"const": {"t": rt, "v": rv}}], span)), (), E0)
            return self.mk(c["t"], tm)
        return ("O", 0, self.fresh(), E0, E0)

    def agg_cl(self, st, tid, v):
        """which variant was built may depend on what decided that this code runs"""
        cl = self.cl(st)
        x = self.T[tid] if tid is not None else None
        if cl and x and x["k"] == "adt" and x.get("adt") == "enum" and len(x["variants"]) > 1:
            return v + (cl,)
        return v

    def cl(self, st):
        if st.cont:
            return E0
        return st.P

    # ------------------------------------------------------------ rvalues
    def rvalue(self, st, r, tid, span):
        k = r[0]
        if k == "use":
            return self.operand(st, r[1], span)
        if k == "ref":
            base, path, t, plabs = self.resolve(st, r[2], span, True)
            if base[0] == "N" and False:
                pass
            return ("P", base, path, plabs)
        if k == "cast":
            v = self.operand(st, r[2], span)
            return self.cast(st, v, r[1], r[3])
        if k == "bin":
            a = self.operand(st, r[2], span)
            b = self.operand(st, r[3], span)
            if r[1] in ("Lt", "Le", "Gt", "Ge"):
                a, b = self.signed(st, a, self.opty(st, r[2])), self.signed(st, b, self.opty(st, r[2]))
            return self.binop(st, r[1], a, b, tid)
        if k == "un":
            a = self.operand(st, r[2], span)
            t = self.term(a, st)
            l = self.labels(a)
            if r[1] == "Not":
                if t is not None and t[0] == "c":
                    if self.T[tid]["k"] == "bool":
                        return ("S", ("c", 1 - t[1]), l)
                    return ("S", ("c", ~t[1] & ((1 << 64) - 1)), l)
                return ("S", self.op("not", t), l)
            if r[1] == "PtrMetadata":
                return self.length(st, a, l)
            return ("S", self.op(r[1], t), l)
        if k == "discr":
            base, path, t, plabs = self.resolve(st, r[1], span)
            v = self.load(st, base, path, t, span, plabs)
            return self.discr(st, v, t)
        if k == "agg":
            vs = tuple(self.operand(st, o, span) for o in r[2])
            kk = r[1]
            if kk[0] == "adt":
                if kk[3] is not None:
                    return ("U", kk[3], vs[0])
                if kk[1].endswith("non_null::NonNull"):
                    return vs[0]
                return self.agg_cl(st, tid, ("A", kk[2], vs))
            if kk[0] == "array":
                ts = [self.term(v, st) for v in vs]
                labs = E0
                regs = E0
                for v in vs:
                    labs = labs | self.labels(v)
                    regs = regs | self.regs(v, st)
                t = ("arr",) + tuple(ts) if all(x is not None for x in ts) and len(ts) <= 8 else self.fresh()
                return ("O", tid, t, labs, regs)
            if kk[0] == "rawptr":
                return vs[0]
            return ("A", 0, vs)
        if k == "repeat":
            v = self.operand(st, r[1], span)
            t = self.term(v, st)
            return ("O", tid, ("rep", t) if t is not None else self.fresh(), self.labels(v), E0)
        return self.mk(tid, self.fresh())

    def length(self, st, v, l):
        """length of a slice/array behind pointer v"""
        if v is not None and v[0] == "P" and v[1][0] != "N":
            c = self.rd(st, v[1], v[2])
            if c is not None and c[0] == "O" and self.T[c[1]]["k"] == "array" and self.T[c[1]].get("len") is not None:
                return ("S", ("c", self.T[c[1]]["len"]), l)
            if v[1][0] == "X" and not v[2] and c is not None and c[0] == "O" and self.T[c[1]]["k"] == "slice" and not any(r[0] == "n" for r in c[4]):
                return ("S", self.op("slen", v[1][1]), l)
        t = self.term(v, st)
        return ("S", self.op("len", t) if t is not None else self.fresh(), l)

    def discr(self, st, v, t):
        if v is None:
            return ("S", self.fresh(), E0)
        if v[0] == "A":
            x = self.T[t] if t is not None else None
            dl = v[3] if len(v) > 3 else E0
            if x and x["k"] == "adt" and x["variants"]:
                return ("S", ("c", x["variants"][v[1]]["d"]), dl)
            return ("S", ("c", v[1]), dl)
        if v[0] == "O":
            return ("S", ("discr", v[2]), v[3])
        if v[0] == "S":
            return v
        return ("S", self.fresh(), E0)

    def cast(self, st, v, kind, tid):
        if v is None:
            return None
        x = self.T[tid]
        if v[0] == "S":
            if x["k"] in ("int", "uint", "char", "float", "bool"):
                return v
            if x["k"] in ("ptr", "ref"):
                return ("O", tid, v[1], v[2], E0)
            return v
        if v[0] == "O":
            if x["k"] in ("int", "uint") and kind == "IntToInt":
                return ("S", ("discr", v[2]), v[3])
            if x["k"] in ("int", "uint"):
                sx = self.T[v[1]]
                if sx["k"] == "adt" and sx["adt"] == "enum":
                    return ("S", ("discr", v[2]), v[3])
                return v         # pointer kept through an integer
            return ("O", tid, v[2], v[3], v[4])
        if v[0] == "A" and x["k"] in ("ptr", "ref") and len(v[2]) >= 1:
            for f in v[2]:
                if f is not None and f[0] in ("P", "O"):
                    return f
        if v[0] == "A" and x["k"] in ("int", "uint"):
            return ("S", ("c", v[1]), E0)
        return v

    NEG = {"Ne": "eq", "Gt": "lt", "Ge": "lt", "Le": "lt"}

    def signed(self, st, v, tid):
        """constants are kept as their bits: an ordering of signed ones needs the sign"""
        x = self.T[tid] if tid is not None else None
        if x is None or x["k"] != "int":
            return v
        t = self.term(v, st)
        if t is None or t[0] != "c" or t[1] < 1 << (8 * x["size"] - 1):
            return v
        return ("S", ("c", t[1] - (1 << (8 * x["size"]))), self.labels(v))

    def binop(self, st, op, a, b, tid):
        la = self.labels(a) | self.labels(b)
        ta, tb = self.term(a, st), self.term(b, st)
        if op.endswith("WithOverflow"):
            r = self.binop(st, op[:-12], a, b, None)
            return ("A", 0, (r, ("S", ("c", 0), E0)))
        op = op.replace("Unchecked", "")
        if ta is None or tb is None:
            return ("S", self.fresh(), la)
        ca = ta[1] if ta[0] == "c" else None
        cb = tb[1] if tb[0] == "c" else None
        if op in ("Eq", "Ne", "Lt", "Le", "Gt", "Ge", "Cmp"):
            if ca is not None and cb is not None and op != "Cmp":
                r = {"Eq": ca == cb, "Ne": ca != cb, "Lt": ca < cb, "Le": ca <= cb, "Gt": ca > cb, "Ge": ca >= cb}[op]
                return ("S", ("c", int(r)), la)
            if op in ("Eq", "Ne"):
                if ta == tb:
                    return ("S", ("c", int(op == "Eq")), la)
                if ta[0] == "lin" and cb is not None:
                    ta, tb = ta[1], ("c", (cb - ta[2]) & ((1 << 64) - 1))
                elif tb[0] == "lin" and ca is not None:
                    ta, tb = tb[1], ("c", (ca - tb[2]) & ((1 << 64) - 1))
                x, y = (ta, tb) if repr(ta) <= repr(tb) else (tb, ta)
                t = self.op("eq", x, y)
                return ("S", t if op == "Eq" else ("not", t), la)
            if op == "Cmp":
                return ("O", tid, self.op("cmp", ta, tb), la, E0) if tid is not None else ("S", self.fresh(), la)
            if op in ("Lt", "Ge"):
                t = self.op("lt", ta, tb)
            else:
                t = self.op("lt", tb, ta)
            return ("S", t if op in ("Lt", "Gt") else ("not", t), la)
        if ca is not None and cb is not None:
            m = (1 << 64) - 1
            try:
                r = {"Add": lambda: ca + cb, "Sub": lambda: ca - cb, "Mul": lambda: ca * cb, "BitAnd": lambda: ca & cb,
                     "BitOr": lambda: ca | cb, "BitXor": lambda: ca ^ cb, "Shl": lambda: ca << cb, "Shr": lambda: ca >> cb,
                     "Div": lambda: ca // cb, "Rem": lambda: ca % cb}[op]()
                if tid is not None and self.T[tid]["k"] == "uint":
                    r &= (1 << (8 * (self.T[tid].get("size") or 8))) - 1
                return ("S", ("c", r), la)
            except Exception:
                return ("S", self.fresh(), la)
        if op in ("Add", "Mul", "BitAnd", "BitOr", "BitXor") and (ca is not None):
            ta, tb, ca, cb = tb, ta, cb, ca
        # linear folding: (x + c1) + c2
        if op in ("Add", "Sub") and cb is not None:
            k = cb if op == "Add" else -cb
            if ta[0] == "lin":
                ta, k = ta[1], ta[2] + k
            return ("S", ta if k == 0 else ("lin", ta, k), la)
        return ("S", self.op(op, ta, tb), la)

    # ------------------------------------------------------------ conditions
    def eval_term(self, st, t):
        """constant value of a scalar term under the known facts, or None"""
        if t[0] == "c":
            return t[1]
        if t in st.facts:
            return st.facts[t]
        if t[0] == "not":
            r = self.eval_term(st, t[1])
            return None if r is None else 1 - r
        if t[0] in ("eq", "lt"):
            a, b = self.eval_term(st, t[1]), self.eval_term(st, t[2])
            if a is not None and b is not None:
                return int(a == b) if t[0] == "eq" else int(a < b)
            if t[0] == "eq" and t[1] == t[2]:
                return 1
            if t[0] == "eq" and t[1][0] == "lin" and t[2] == t[1][1] or t[0] == "eq" and t[2][0] == "lin" and t[1] == t[2][1]:
                return 0
            if t[0] == "eq":
                # a != c known through another fact on the same term
                for x, y in ((t[1], t[2]), (t[2], t[1])):
                    if y[0] == "c":
                        v = self.eval_term(st, x) if x[0] != "c" else None
                        if v is not None:
                            return int(v == y[1])
        if t[0] in ("BitAnd", "BitOr") and t in st.facts:
            return st.facts[t]
        r = self.eval_bits(st, t)
        return r

    def vers_in(self, st, t, out):
        if isinstance(t, tuple):
            if t and t[0] == "s":
                if t in st.bits:
                    out.add(t)
                else:
                    out.add(None)
            elif t and t[0] == "c":
                pass
            elif t and t[0] in ("eq", "lt", "not", "lin", "BitAnd", "BitOr", "BitXor", "Add", "Sub", "Mul", "Div", "Rem", "Shl", "Shr"):
                for x in t[1:]:
                    self.vers_in(st, x, out)
            elif t and isinstance(t[0], str):
                out.add(None)

    def conc(self, t, env):
        M = (1 << 64) - 1
        if isinstance(t, int):
            return t
        if t[0] == "c":
            return t[1]
        if t[0] == "s":
            return env[t]
        a = self.conc(t[1], env)
        if t[0] == "not":
            return 1 - a
        if t[0] == "lin":
            return (a + t[2]) & M
        b = self.conc(t[2], env)
        return {"eq": lambda: int(a == b), "lt": lambda: int(a < b), "BitAnd": lambda: a & b, "BitOr": lambda: a | b,
                "BitXor": lambda: a ^ b, "Add": lambda: (a + b) & M, "Sub": lambda: (a - b) & M, "Shl": lambda: (a << b) & M,
                "Shr": lambda: a >> b, "Mul": lambda: (a * b) & M, "Div": lambda: a // b if b else 0,
                "Rem": lambda: a % b if b else 0}[t[0]]()

    def bit_table(self, st, t):
        """for a term over one version word: {lowbits: value or None}"""
        vs = set()
        self.vers_in(st, t, vs)
        if len(vs) != 1 or None in vs:
            return None, None
        v = next(iter(vs))
        tab = {}
        for lo in st.bits[v]:
            r = {self.conc(t, {v: (h << 2) | lo}) for h in (0, 1, 6, 12345)}
            tab[lo] = r.pop() if len(r) == 1 else None
        return v, tab

    def eval_bits(self, st, t):
        if t[0] in ("s",):
            return None
        v, tab = self.bit_table(st, t)
        if not tab:
            return None
        vals = set(tab.values())
        if len(vals) == 1 and None not in vals:
            return vals.pop()
        return None

    def assume(self, st, t, val, labs, span):
        """refine st by t == val (val int); raises Dead when contradictory"""
        c = self.eval_term(st, t)
        if c is not None:
            if c != val:
                raise Dead()
            return
        if t[0] == "not":
            return self.assume(st, t[1], 1 - val, labs, span)
        if t[0] == "BitAnd" and val == 1 and t[2][0] != "c" and self.is_boolish(t[1]) and self.is_boolish(t[2]):
            self.assume(st, t[1], 1, labs, span)
            self.assume(st, t[2], 1, labs, span)
            return
        if t[0] == "BitOr" and val == 0 and self.is_boolish(t[1]) and self.is_boolish(t[2]):
            self.assume(st, t[1], 0, labs, span)
            self.assume(st, t[2], 0, labs, span)
            return
        # version words
        v, tab = self.bit_table(st, t)
        if tab and not any(x is None for x in tab.values()):
            keep = frozenset(lo for lo, x in tab.items() if x == val)
            if not keep:
                raise Dead()
            self.set_bits(st, v, keep, span)
            return
        if t[0] == "eq":
            if self.version_eq(st, t[1], t[2], val, span):
                return
            if val == 1:
                for x, y in ((t[1], t[2]), (t[2], t[1])):
                    if y[0] == "c" and x[0] != "c":
                        self.fact(st, x, y[1])
        self.fact(st, t, val)

    def fact(self, st, t, val):
        st.facts[t] = val
        if t[0] == "discr" and t[1] and isinstance(t[1], tuple):
            pass

    def is_boolish(self, t):
        return t[0] in ("eq", "lt", "not") or (t[0] in ("BitAnd", "BitOr") and self.is_boolish(t[1]))

    def ver_node(self, st, v):
        for nid, n in st.nodes.items():
            if v in n.vers:
                return nid
        return None

    def set_bits(self, st, v, keep, span):
        st.bits[v] = keep
        nid = self.ver_node(st, v)
        if nid is None:
            return
        if 0 not in keep:
            st.note(span, "node found locked or dead")
            self.set_cont(st, nid)
        elif keep == frozenset([0]):
            st.cont = st.cont - {nid}

    def set_cont(self, st, nid):
        st.cont = st.cont | {nid}

    def version_eq(self, st, a, b, val, span):
        if a[0] == "s" and b[0] == "s" and a in st.bits and b in st.bits:
            na, nb = self.ver_node(st, a), self.ver_node(st, b)
            if na is None or na != nb:
                return False
            vs = st.nodes[na].vers
            old, new = (a, b) if vs.index(a) < vs.index(b) else (b, a)
            if val:
                st.note(span, "version confirmed unchanged")
                self.count("validation", self.site(st, span))
                if 0 not in st.bits[old]:
                    raise Dead()
                self.validate(st, na, old)
                self.subst(st, new, old)
            else:
                st.note(span, "version changed")
                self.set_cont(st, na)
            return True
        return False

    def validate(self, st, nid, ver):
        """everything read from nid since ver was loaded is now confirmed"""
        n = st.nodes[nid]
        if ver not in n.vers:
            return
        i = n.vers.index(ver)
        good = set(n.vers[i:])

        def ok(l):
            return isinstance(l, tuple) and l[0] in ("D", "C") and l[1] == nid and l[2] in good
        st.P = frozenset(l for l in st.P if not ok(l))
        self.map_labels(st, lambda ls: frozenset(l for l in ls if not ok(l)))
        n = st.nmut(nid)
        n.facts = tuple((k, w, v if v not in good else ver) for (k, w, v) in n.facts)
        n.cnts = tuple((t, v if v not in good else ver) for (t, v) in n.cnts)

    def map_labels(self, st, f):
        cache = {}

        def g(ls):
            if not ls:
                return ls
            r = cache.get(ls)
            if r is None:
                r = cache[ls] = f(ls)
            return r

        def m(v):
            if v is None:
                return v
            k = v[0]
            if k == "S":
                n = g(v[2])
                return v if n is v[2] else ("S", v[1], n)
            if k == "O":
                n = g(v[3])
                return v if n is v[3] else ("O", v[1], v[2], n, v[4])
            if k == "P":
                n = g(v[3])
                pa = v[2]
                if any(el[0] == "i" and len(el) > 4 and el[4] for el in pa):
                    pa = tuple(el[:4] + (g(el[4]),) if el[0] == "i" and len(el) > 4 and el[4] else el for el in pa)
                elif n is v[3]:
                    return v
                return ("P", v[1], pa, n)
            if k == "A":
                ch = False
                out = []
                for x in v[2]:
                    y = m(x)
                    ch = ch or (y is not x)
                    out.append(y)
                if len(v) > 3:
                    n = g(v[3])
                    if ch or n is not v[3]:
                        return ("A", v[1], tuple(out), n) if n else ("A", v[1], tuple(out))
                    return v
                return ("A", v[1], tuple(out)) if ch else v
            if k == "U":
                n = m(v[2])
                return v if n is v[2] else ("U", v[1], n)
            return v
        for c in list(st.mem):
            w = st.mem[c]
            nv = m(w)
            if nv is not w:
                st.mem[c] = nv

    def subst(self, st, new, old):
        """unify two version words"""
        def s(t):
            if t == new:
                return old
            if isinstance(t, tuple) and t and t[0] not in ("c", "s", "n"):
                return tuple(s(x) if isinstance(x, tuple) else x for x in t)
            return t

        def m(v):
            if v is None:
                return v
            if v[0] == "S":
                t = s(v[1])
                return v if t == v[1] else ("S", t, v[2])
            if v[0] == "A":
                return ("A", v[1], tuple(m(x) for x in v[2])) + v[3:]
            if v[0] == "U":
                return ("U", v[1], m(v[2]))
            return v
        for c in list(st.mem):
            st.mem[c] = m(st.mem[c])
        st.facts = {s(k): v for k, v in st.facts.items()}
        for nid in list(st.nodes):
            n = st.nodes[nid]
            if new in n.vers:
                n = st.nmut(nid)
                n.vers = tuple(x for x in n.vers if x != new)
        st.bits.pop(new, None)

    # ------------------------------------------------------------ atomics
    def lockptr(self, st, v):
        """node id if v points at a node's lock word"""
        if v is not None and v[0] == "P" and v[1][0] == "N" and v[2] and self.region(v[2]) == "lock":
            return v[1][1]
        return None

    def atomic(self, st, name, args, span):
        """returns list of (state, value)"""
        nid = self.lockptr(st, args[0])
        if nid is None:
            return [(st, ("S", self.fresh(), E0))]
        self.touch(st, nid, args[0][3], span, "lock word")
        n = st.nodes[nid]
        if name == "load":
            self.count("version-load", self.site(st, span))
            if n.kind == "root" and not self.exclusive:
                self.restart(st, span)
            if n.held and n.held[1] & 2:
                self.report("C03", "wait-on-own-lock", st, span, "the lock word of a node this operation itself holds locked is read") if False else None
                return [(st, ("S", ("lin", n.held[0], n.held[1]), E0))]
            if n.kind == "fresh":
                return [(st, ("S", ("c", 0), E0))]
            n = st.nmut(nid)
            if self.exclusive:
                if n.vers:
                    return [(st, ("S", n.vers[-1], E0))]
                v = self.fresh()
                st.bits[v] = frozenset([0])
                n.vers = (v,)
                return [(st, ("S", v, E0))]
            v = self.fresh()
            st.bits[v] = frozenset([0, 1, 2, 3])
            n.vers = n.vers + (v,)
            return [(st, ("S", v, E0))]
        if name.startswith("compare_exchange"):
            self.count("lock-acquire", self.site(st, span))
            exp, new = self.term(args[1], st), self.term(args[2], st)
            n = st.nodes[nid]
            ok = st
            bad = st.copy()
            bad.note(span, "lock attempt failed")
            self.set_cont(bad, nid)
            if n.held and n.held[1] & 2:
                return [(bad, ("A", 1, (("S", self.fresh(), E0),)))]
            out = [(bad, ("A", 1, (("S", self.fresh(), E0),)))]
            if exp is None or exp not in n.vers:
                self.report("C02", "lock-not-revalidating", st, span, "the exclusive lock is taken by comparing with something other than the version the node was read under")
                # continue as if it locked, so that later rules still see the path
                if exp is None or exp[0] != "s":
                    exp = self.fresh()
                st.bits.setdefault(exp, frozenset([0]))
                n = st.nmut(nid)
                n.vers = n.vers + (exp,)
                delta = 2
            else:
                if st.bits.get(exp) != frozenset([0]):
                    self.report("C02", "lock-over-lock", st, span, "the exclusive lock is taken from a version word not known to be unlocked and alive")
                delta = self.delta(new, exp)
                if delta is None or delta & 3 != 2:
                    self.report("C02", "lock-bit-not-set", st, span, "the lock word installed by the compare-and-swap does not mark the node locked")
                    delta = 2
                elif delta != 2:
                    self.report("C02", "lock-word-changed", st, span, "taking the lock changes more than the lock bit") if delta < 0 else None
            ok.note(span, "node locked exclusively")
            self.validate(ok, nid, exp)
            n = ok.nmut(nid)
            i = n.vers.index(exp)
            n.held = (exp, delta)
            # lookups made before the version was loaded are not covered by the lock
            good = set(n.vers[i:])
            n.facts = tuple((k, w, "L") for (k, w, v) in n.facts if v in good)
            n.cnts = tuple((t, "L") for (t, v) in n.cnts if v in good)
            ok.cont = ok.cont - {nid}
            out.append((ok, ("A", 0, (("S", exp, E0),))))
            return out
        if name in ("fetch_add", "fetch_sub", "fetch_or", "fetch_and", "fetch_xor", "store", "swap"):
            n = st.nodes[nid]
            if n.kind == "fresh":
                return [(st, ("S", ("c", 0), E0))]
            arg = self.term(args[1], st)
            self.count("lock-word-update", self.site(st, span))
            if not n.held or not (n.held[1] & 2):
                if n.held and n.held[1] & 1:
                    return [(st, ("S", self.fresh(), E0))]
                self.report("C03", "release-without-hold", st, span, "the lock word is updated (%s) on a node this operation does not hold locked" % name)
                return [(st, ("S", self.fresh(), E0))]
            ver, c = n.held
            nd = None
            if arg is not None:
                if name in ("store", "swap"):
                    nd = self.delta(arg, ver)
                elif arg[0] == "c":
                    a = arg[1] if arg[1] < (1 << 63) else arg[1] - (1 << 64)
                    low = c & 3
                    if name == "fetch_add":
                        nd = c + a
                    elif name == "fetch_sub":
                        nd = c - a
                    elif name == "fetch_or" and 0 <= a <= 3:
                        nd = (c & ~3) | (low | a)
                    elif name == "fetch_xor" and 0 <= a <= 3:
                        nd = (c & ~3) | (low ^ a)
                    elif name == "fetch_and" and (a & ~3) == ~3:
                        nd = (c & ~3) | (low & a)
            old = ("S", ("lin", ver, c), E0)
            n = st.nmut(nid)
            if nd is None:
                self.report("C03", "unknown-lock-update", st, span, "the lock word is set to a value with no fixed relation to the locked version")
                n.held = None
                return [(st, old)]
            if nd & 1 and not (c & 1):
                st.note(span, "node marked dead")
                n.obs = True
            if c & 1 and not (nd & 1):
                self.report("C03", "revived", st, span, "a node marked dead is made alive again")
            if nd & 2:
                n.held = (ver, nd)
            else:
                st.note(span, "node unlocked")
                self.count("lock-release", self.site(st, span))
                if nd <= 0 or nd % (1 << 62) == 0:
                    self.report("C03", "version-reused", st, span, "the lock is released with a version word that does not differ from (or goes back behind) the one before it was taken")
                if nd & ~3 == 0:
                    self.report("C03", "version-reused", st, span, "the lock is released without a new version")
                n.held = ("rel", nd & 1) if nd & 1 else None
                n.facts = ()
                n.cnts = ()
                if nd & 1:
                    n.held = None
            return [(st, old)]
        return [(st, ("S", self.fresh(), E0))]

    def delta(self, t, ver):
        if t is None:
            return None
        if t == ver:
            return 0
        if t[0] == "lin" and t[1] == ver:
            return t[2]
        if t[0] == "lin":
            d = self.delta(t[1], ver)
            return None if d is None else d + t[2]
        if t[0] == "BitOr" and t[2][0] == "c" and 0 <= t[2][1] <= 3:
            d = self.delta(t[1], ver)
            return None if d is None else (d & ~3) | ((d | t[2][1]) & 3)
        if t[0] == "BitXor" and t[2][0] == "c" and 0 <= t[2][1] <= 3:
            d = self.delta(t[1], ver)
            return None if d is None else d ^ t[2][1]
        if t[0] == "Add" and t[2][0] == "c":
            d = self.delta(t[1], ver)
            return None if d is None else d + t[2][1]
        return None

    def restart(self, st, span):
        """the root's version word is read: a traversal begins"""
        if st.rootloads and st.cont:
            st.note(span, "operation starts over at the root")
            self.count("restart", self.site(st, span))
            held = [i for i, n in st.nodes.items() if n.held and n.held[1] & 2 and not n.held[1] & 1]
            if held:
                self.report("C03", "restart-holding-lock", st, span, "the operation starts over while it still holds a node locked")
                for i in held:
                    st.nmut(i).held = None
            if st.oom:
                self.report("C07", "retry-after-oom", st, span, "the operation starts over after the allocator reported exhaustion")
            self.check_leaks(st, span, "when the attempt is abandoned")
            # slots of the caller's buffer beyond the count that is returned may be left over; the count may not
            bufs = {b: st.mem[b] for b in st.mem if b[0] == "X" and (self.argterm(b[1]) or any(
                r[0] == "cell" and r[1][0] == "X" and self.argterm(r[1][1]) for r in self.xregs(st, b)))}
            self.map_labels(st, lambda ls: (ls - {"A"}) | {"Z"} if "A" in ls else ls)
            after = {b: st.mem[b] for b in st.mem}
            st.mem = dict(bufs)
            self.map_labels(st, lambda ls: ls - {"A"} if "A" in ls else ls)
            bufs = st.mem
            st.mem = after
            st.mem.update(bufs)
            st.P = E0
            st.cont = E0
            if st.eff:
                self.report("C14", "effect-then-retry", st, span, "the operation starts over although it already changed the map")
            st.cbs = ()
            st.pays = E0
        elif st.rootloads:
            # what was gathered so far was gathered by a traversal that came to its end
            self.map_labels(st, lambda ls: ls - {"A"} if "A" in ls else ls)
        st.rootloads = 1

    def check_leaks(self, st, span, when):
        for i, n in list(st.nodes.items()):
            if n.kind == "fresh" and not n.freed:
                self.report("C07", "leak", st, span, "memory obtained from the allocator is neither put into the tree nor given back %s" % when)
                st.nmut(i).freed = 1
