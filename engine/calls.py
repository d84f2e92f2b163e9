"""Calls: builtins, container events, allocation, callbacks, opaque calls."""
from interp import *

FNC = ("core::ops::function::Fn::call", "core::ops::function::FnMut::call_mut", "core::ops::function::FnOnce::call_once")


class Caller(Interp):
    panics_fork = True

    # -------------------------------------------------------------- helpers
    def ret(self, st, t, v):
        """store a result and continue at the call's target"""
        if t[4] is None:
            return []
        self.assign(st, t[3], v, t[6])
        return [self.goto(st, t[4])]

    def opty(self, st, o):
        if o[0] in ("copy", "move"):
            return o[1][2]
        if o[0] == "const":
            return o[1]["const"]["t"]
        return None

    def call(self, st, t):
        span = t[6]
        c = self.p.callee(t[1])
        args = [self.operand(st, o, span) for o in t[2]]
        atys = [self.opty(st, o) for o in t[2]]
        if c is None:
            # call through a function pointer: treated as caller-supplied code
            return self.callback(st, t, args, None)
        p = c["path"]
        if "ctor" in c:
            return self.ctor(st, t, c, args)
        r = self.builtin(st, t, c, p, args, atys)
        if r is not None:
            return r
        a = self.p.alloc_call(c, len(t[2]))
        if a and not (c.get("key") and c["key"] in self.inline_alloc):
            return self.alloc(st, t, a, args, c)
        key = c.get("key")
        f = self.p.fns.get(key) if key else None
        if p in FNC or (key and f and "{closure" in f["path"] and "blocks" in f):
            return self.call_fn(st, t, c, args, atys)
        if key and key in self.p.cops and key not in self.inline_ops and self.p.cops[key]["kind"] != "read":
            return self.container(st, t, self.p.cops[key], args, key)
        if key and f and "blocks" in f:
            if f["local"] or self.p.inter.get(key) or self.inline_core(key, c):
                return self.enter(st, t, key, args, atys)
        if c.get("unresolved") or c.get("virtual"):
            r = self.unresolved(st, t, c, p, args, atys)
            if r is not None:
                return r
        return self.opaque(st, t, c, args, atys)

    inline_alloc = ()

    def inline_core(self, key, c):
        k = key
        return any(k.startswith(x) for x in INLINE_CORE)

    def enter(self, st, t, key, args, atys):
        depth = sum(1 for fr in st.frames if fr.fn == key)
        if (self.lite or self.exclusive) and key in self.p.recursive():
            return self.modular(st, t, key, args, atys)
        if depth >= self.MAXREC:
            return self.cut(st, t, key, args, atys, depth)
        return [self.push(st, key, args, t[3], t[4], t[5])]

    def tuple_parts(self, v, ty, st):
        n = len(self.T[ty].get("f", [])) if ty is not None else 0
        if v is not None and v[0] == "A":
            return list(v[2])
        if v is None:
            return [None] * n
        return [self.project(v, ("f", i, "", self.T[ty]["f"][i], 0, ty), None, st) for i in range(n)]

    def call_fn(self, st, t, c, args, atys):
        key = c.get("key")
        f = self.p.fns.get(key) if key else None
        if f and "blocks" in f and "#Shim(FnPtr" not in key:
            if c["path"] in FNC and "{closure" in f["path"] and f.get("spread") is None:
                a = [args[0]] + self.tuple_parts(args[1], atys[1], st)
                if c["path"].endswith("call_once") and self.T[f["locals"][1]]["k"] == "ref":
                    # closure by value, body takes a reference: give it a cell
                    b = self.xcell(st, self.fresh(), args[0])
                    a[0] = ("P", b, (), E0)
                if len(a) == f["argc"]:
                    return self.enter(st, t, key, a, atys)
            if len(args) == f["argc"]:
                return self.enter(st, t, key, args, atys)
        # closure value known although the call is generic
        v = args[0] if args else None
        cell = v
        hops = 0
        while cell is not None and cell[0] == "P" and cell[1][0] != "N" and hops < 4:
            cell = self.rd(st, cell[1], cell[2])
            hops += 1
        fnp = None
        if cell is not None and cell[0] == "O" and isinstance(cell[2], tuple) and cell[2] and cell[2][0] == "fn":
            k2 = cell[2][1]
            if k2 in self.p.fns and "blocks" in self.p.fns[k2]:
                return self.enter(st, t, k2, self.tuple_parts(args[1], atys[1], st), atys)
            fnp = k2
            ctor = self.ctor_name(k2)
            parts = self.tuple_parts(args[1], atys[1], st)
            if fnp and ("::From::from" in fnp or "::Into::into" in fnp):
                return self.ret(st, t, self.conv(st, parts[0], t[3][2]))
            tm = [self.term(x, st) for x in parts]
            return self.ret(st, t, self.mk(t[3][2], self.op("call", ("k", fnp), *tm) if all(x is not None for x in tm) else self.fresh(), self.all_labels(parts, st), self.all_regs(parts, st)))
        return self.callback(st, t, args, atys)

    def ctor_name(self, k):
        return None

    def ctor(self, st, t, c, args):
        tid = t[3][2]
        x = self.T[tid]
        var = 0
        if x["k"] == "adt":
            nm = c["ctor"].rsplit("::", 1)[-1]
            for i, w in enumerate(x["variants"]):
                if w.get("n") == nm:
                    var = i
        return self.ret(st, t, ("A", var, tuple(args)))

    def all_labels(self, args, st):
        r = E0
        for a in args:
            r = r | self.deep_labels(a, st)
        return r

    def all_regs(self, args, st):
        r = E0
        for a in args:
            r = r | self.regs(a, st)
        return r

    def conv(self, st, v, tid):
        """conversion between a word and a user type: a function of its argument"""
        tm = self.term(v, st)
        if tm is None:
            tm = self.fresh()
        while tm[0] == "ref":
            tm = tm[1]
        if tm[0] == "conv":
            tm = tm[1]
        return self.mk(tid, ("conv", tm), self.deep_labels(v, st), E0)

    # -------------------------------------------------------------- builtins
    def builtin(self, st, t, c, p, args, atys):
        if p in ("core::convert::From::from", "core::convert::Into::into") and len(c.get("args", ())) == 2 and c["args"][0] == c["args"][1]:
            return self.ret(st, t, args[0])
        if p in ("core::convert::From::from", "core::convert::Into::into") and atys and atys[0] is not None and self.T[atys[0]]["k"] in ("ref", "ptr") \
                and self.T[t[3][2]].get("path", "").endswith("non_null::NonNull"):
            return self.ret(st, t, args[0])
        if p in ("core::convert::AsRef::as_ref", "core::convert::AsMut::as_mut", "core::borrow::Borrow::borrow") and atys and atys[0] is not None \
                and self.T[atys[0]]["k"] == "ref" and self.p.pointee(atys[0]) == self.p.pointee(t[3][2]):
            return self.ret(st, t, args[0])
        span = t[6]
        if p.startswith(ATOMIC):
            name = p.rsplit("::", 1)[-1]
            if name == "new":
                return self.ret(st, t, ("A", 0, (args[0],)))
            outs = self.atomic(st, name, args, span)
            res = []
            for s2, v in outs:
                res += self.ret(s2, t, v)
            return res
        if t[4] is None:
            if "unreachable_unchecked" in p:
                return []
            if p.endswith("process::abort") or p.endswith("process::exit"):
                return []
            if c.get("key") and self.p.fns.get(c["key"], {}).get("local"):
                return None
            return self.panic(st, t[5], span, p.rsplit("::", 1)[-1])
        if p in ("core::ptr::non_null::NonNull::<T>::as_ref", "core::ptr::non_null::NonNull::<T>::as_mut", "core::ptr::non_null::NonNull::<[T]>::as_ref"):
            return self.ret(st, t, self.through_load(st, args[0], self.p.pointee(atys[0]), span))
        if p in IDENT or (p.startswith("core::ptr") and p.endswith("::cast")):
            return self.ret(st, t, args[0])
        if p in NOOP or p.endswith("precondition_check"):
            return self.ret(st, t, ("A", 0, ()))
        last = p.rsplit("::", 1)[-1]
        if p.startswith("core::ptr::non_null::NonNull") and last == "new":
            if args[0] is not None and args[0][0] == "P":
                return self.ret(st, t, ("A", 1, (args[0],)))
            return self.null_fork(st, t, args[0])
        if p in ("core::ptr::mut_ptr::<impl *mut T>::is_null", "core::ptr::const_ptr::<impl *const T>::is_null"):
            v = args[0]
            if v is not None and v[0] == "P":
                return self.ret(st, t, ("S", ("c", 0), v[3]))
            return self.ret(st, t, ("S", self.op("eq", *sorted((self.term(v, st) or self.fresh(), ("null",)), key=repr)), self.labels(v)))
        if p in ("core::mem::forget", "core::mem::drop_unchecked"):
            return self.ret(st, t, ("A", 0, ()))
        if p in ("core::mem::size_of", "core::mem::align_of", "core::intrinsics::size_of", "core::intrinsics::align_of", "core::intrinsics::min_align_of"):
            x = self.T[c["args"][0]]
            w = x.get("size" if "size_of" in p else "align")
            return self.ret(st, t, ("S", ("c", w), E0) if w is not None else ("S", ("k", "layout", c["args"][0], last), E0))
        if last in ("size_of_val", "align_of_val") and p.startswith("core::mem"):
            pt = self.p.pointee(atys[0])
            w = self.T[pt].get("size" if "size" in last else "align") if pt is not None else None
            return self.ret(st, t, ("S", ("c", w), E0) if w is not None else ("S", self.fresh(), E0))
        if p in ("core::mem::replace", "core::ptr::replace"):
            old = self.through_load(st, args[0], self.p.pointee(atys[0]), span)
            self.through_store(st, args[0], self.p.pointee(atys[0]), args[1], span)
            return self.ret(st, t, old)
        if p == "core::mem::take":
            old = self.through_load(st, args[0], self.p.pointee(atys[0]), span)
            x = self.T[self.p.pointee(atys[0])]
            dv = ("A", 0, ()) if x["s"].startswith("core::option::Option") else self.mk(self.p.pointee(atys[0]), ("c", 0) if x["k"] in ("uint", "int", "bool") else self.fresh())
            self.through_store(st, args[0], self.p.pointee(atys[0]), dv, span)
            return self.ret(st, t, old)
        if p in ("core::mem::swap", "core::ptr::swap"):
            pt = self.p.pointee(atys[0])
            a, b = self.through_load(st, args[0], pt, span), self.through_load(st, args[1], pt, span)
            self.through_store(st, args[0], pt, b, span)
            self.through_store(st, args[1], pt, a, span)
            return self.ret(st, t, ("A", 0, ()))
        if p == "core::slice::<impl [T]>::len" and t[2][0][0] in ("copy", "move") and not t[2][0][1][1]:
            n = self.p.array_len(st.frames[-1].fn, t[2][0][1][0])
            if n is not None:
                return self.ret(st, t, ("S", ("c", n), E0))
        if p in ("core::slice::<impl [T]>::len", "core::slice::<impl [T]>::is_empty") and args[0] is not None and args[0][0] == "P" and args[0][1][0] == "X" and not args[0][2] \
                and not any(r[0] == "n" for r in self.xregs(st, args[0][1])):
            # how long a buffer is does not depend on what is in it
            tm = self.op("slen", args[0][1][1])
            if last == "is_empty":
                tm = self.op("eq", *sorted((tm, ("c", 0)), key=repr))
            return self.ret(st, t, ("S", tm, args[0][3]))
        if p in ("core::ptr::read", "core::ptr::read_unaligned", "core::ptr::read_volatile", "core::ptr::mut_ptr::<impl *mut T>::read", "core::ptr::const_ptr::<impl *const T>::read", "core::ptr::non_null::NonNull::<T>::read"):
            return self.ret(st, t, self.through_load(st, args[0], t[3][2], span))
        if p in ("core::ptr::write", "core::ptr::write_unaligned", "core::ptr::write_volatile", "core::ptr::mut_ptr::<impl *mut T>::write", "core::ptr::non_null::NonNull::<T>::write"):
            self.through_store(st, args[0], c["args"][0], args[1], span)
            return self.ret(st, t, ("A", 0, ()))
        if last == "write_bytes" and p.startswith("core::"):
            if args[0] is not None and args[0][0] == "P" and args[0][1][0] == "N":
                nid = args[0][1][1]
                n = st.nodes[nid]
                if n.kind == "fresh":
                    if self.term(args[1], st) == ("c", 0) and self.whole_node(st, n, atys[0], args[2]):
                        st.nmut(nid).zero = True
                else:
                    self.raw_write(st, nid, span, "filled")
            return self.ret(st, t, ("A", 0, ()))
        if p == "core::ptr::drop_in_place":
            pt = c["args"][0]
            if not self.p.drop_keys(pt) or args[0] is None or args[0][0] != "P":
                return self.ret(st, t, ("A", 0, ()))
            res = []
            for s2, steps in self.drop_plan(st, args[0][1], args[0][2], pt, span):
                if not steps:
                    res += self.ret(s2, t, ("A", 0, ()))
                else:
                    self.assign(s2, t[3], ("A", 0, ()), span)
                    s2.frames = s2.frames + (Frame("#seq", 0, (None, t[4]), t[5], tuple(steps)),)
                    res.append(s2)
            return res
        if p in ("core::mem::drop",):
            res = []
            b = self.xcell(st, self.fresh(), args[0])
            for s2, steps in self.drop_plan(st, b, (), c["args"][0], span):
                if not steps:
                    res += self.ret(s2, t, ("A", 0, ()))
                else:
                    self.assign(s2, t[3], ("A", 0, ()), span)
                    s2.frames = s2.frames + (Frame("#seq", 0, (None, t[4]), t[5], tuple(steps)),)
                    res.append(s2)
            return res
        if p in ("core::intrinsics::discriminant_value", "core::mem::discriminant"):
            pt = self.p.pointee(atys[0])
            v = self.through_load(st, args[0], pt, span)
            return self.ret(st, t, self.discr(st, v, pt))
        if c.get("intrinsic") in ("transmute", "transmute_unchecked") or p in ("core::mem::transmute", "core::intrinsics::transmute"):
            return self.ret(st, t, self.cast(st, args[0], "Transmute", t[3][2]))
        if p.startswith("core::alloc::layout::Layout::"):
            if last in ("from_size_align", "from_size_align_unchecked"):
                lay = ("A", 0, (args[0], args[1]))
                return self.ret(st, t, ("A", 0, (lay,)) if last == "from_size_align" else lay)
            if last == "new":
                x = self.T[c["args"][0]]
                if x.get("size") is not None:
                    return self.ret(st, t, ("A", 0, (C(x["size"]), C(x["align"]))))
                return self.ret(st, t, ("A", 0, (("S", ("k", "layout", c["args"][0], "size_of"), E0), ("S", ("k", "layout", c["args"][0], "align_of"), E0))))
            if last in ("size", "align"):
                v = self.through_load(st, args[0], self.p.pointee(atys[0]), span)
                if v is not None and v[0] == "A":
                    return self.ret(st, t, v[2][0 if last == "size" else 1])
                if v is not None and v[0] == "O":
                    return self.ret(st, t, ("S", ("fld", v[2], 0, last), v[3]))
        if p in ("alloc::alloc::alloc", "alloc::alloc::alloc_zeroed"):
            return self.raw_alloc(st, t, args, p)
        if p in ("alloc::alloc::dealloc",):
            self.raw_dealloc(st, t, args, span)
            return self.ret(st, t, ("A", 0, ()))
        if p == "crossbeam_epoch::default::pin":
            st.guards += 1
            st.note(span, "thread pinned")
            return self.ret(st, t, ("O", t[3][2], ("pin", self.fresh()), E0, E0))
        if p == "crossbeam_epoch::guard::unprotected":
            return self.ret(st, t, ("O", t[3][2], ("unprotected",), E0, E0))
        if p.startswith("crossbeam_epoch::guard::Guard::defer"):
            return self.defer(st, t, c, args, atys, span)
        if last in ("to_be_bytes", "from_be_bytes", "to_le_bytes", "from_le_bytes", "to_ne_bytes", "from_ne_bytes", "swap_bytes") and p.startswith("core::num"):
            tm = self.term(args[0], st)
            inv = {"to_be_bytes": "from_be_bytes", "from_be_bytes": "to_be_bytes"}
            if tm is not None and inv.get(last) == tm[0]:
                return self.ret(st, t, self.mk(t[3][2], tm[1], self.labels(args[0])))
            return self.ret(st, t, self.mk(t[3][2], self.op(last, tm) if tm is not None else self.fresh(), self.labels(args[0])))
        if p in ("core::hint::spin_loop",):
            return self.ret(st, t, ("A", 0, ()))
        return None

    def null_fork(self, st, t, v):
        tm = self.term(v, st) or self.fresh()
        e = self.op("eq", *sorted((tm, ("null",)), key=repr))
        out = []
        for val in (0, 1):
            s2 = st.copy()
            try:
                self.assume(s2, e, val, E0, t[6])
            except Dead:
                continue
            out += self.ret(s2, t, ("A", 0, ()) if val else ("A", 1, (v,)))
        return out

    def through_load(self, st, v, pt, span):
        P = self.as_ptr(st, v, pt, span)
        return self.load(st, P[1], P[2], pt, span, P[3])

    def through_store(self, st, v, pt, val, span):
        P = self.as_ptr(st, v, pt, span)
        self.store(st, P[1], P[2], val, span, P[3])

    # -------------------------------------------------------------- allocation
    def alloc(self, st, t, kind, args, c):
        span = t[6]
        if kind == "free":
            self.free(st, args[1], args[2], span)
            return self.ret(st, t, ("A", 0, ()))
        self.count("alloc", self.site(st, span))
        out = []
        bad = st.copy()
        bad.note(span, "allocator reports exhaustion")
        bad.oom = True
        out += self.ret(bad, t, ("A", 1, (("A", 0, ()),)))
        self.sym += 1
        nid = self.sym
        n = Node()
        n.kind = "fresh"
        n.term = ("new", nid)
        n.layout = args[1]
        n.zero = kind == "zalloc"
        n.org = self.site(st, span)
        st.nodes[nid] = n
        st.note(span, "node allocated")
        out += self.ret(st, t, ("A", 0, (("P", ("N", nid), (), E0),)))
        return out

    def free(self, st, ptr, layout, span):
        if ptr is None:
            return
        self.count("free", self.site(st, span))
        P = self.as_ptr(st, ptr, self.p.base_ty, span)
        if P[1][0] != "N":
            self.report("C04", "free-unknown", st, span, "memory is returned to the allocator that is not a node of this tree")
            return
        nid = P[1][1]
        n = st.nodes[nid]
        if any(isinstance(l, tuple) and l[0] == "D" for l in P[3]):
            self.report("C04", "free-unvalidated", st, span, "a node reached through an unconfirmed link is freed")
        tag = self.tag_of(st, nid)
        lay = self.lay(st, layout)
        if n.kind == "fresh":
            if n.freed:
                self.report("C04", "double-free", st, span, "a node that was never published is freed twice")
            n = st.nmut(nid)
            n.freed = 1
            al = self.lay(st, n.layout)
            if lay is not None and al is not None and lay != al:
                self.report("C09", "free-layout", st, span, "a node is returned to the allocator with a size or alignment other than the one it was requested with")
            self.agg["free"].add((tag, lay, self.site(st, span), span))
            st.note(span, "unpublished node freed")
            return
        self.agg["free"].add((tag, lay, self.site(st, span), span))
        if self.exclusive:
            if n.freed:
                self.report("C12", "double-free", st, span, "a node is returned to the allocator twice while the map is dropped")
            self.on_xfree(st, nid, span)
            st.nmut(nid).freed = 1
            st.note(span, "node freed")
            return
        if not st.deferred:
            self.report("C04", "free-not-deferred", st, span, "a node that was part of the tree is freed at once instead of after all readers are gone")
            st.nmut(nid).freed = 1
            return
        if not n.unl:
            self.report("C04", "free-linked", st, span, "a node is handed to reclamation although it was not taken out of the tree")
        if n.dfr:
            self.report("C04", "double-free", st, span, "the same node is handed to reclamation twice")
        st.nmut(nid).dfr += 1
        st.note(span, "node handed to deferred reclamation")

    def on_xfree(self, st, nid, span):
        pass

    def lay(self, st, v):
        if v is not None and v[0] == "P":
            v = self.rd(st, v[1], v[2])
        if v is not None and v[0] == "A" and len(v[2]) >= 2:
            a, b = self.term(v[2][0], st), self.term(v[2][1], st)
            return (a, b)
        return None

    def tag_key(self):
        for t in self.p.base_tys:
            for i, ft in enumerate(self.p.fields(t)):
                x = self.T[ft]
                if x["k"] == "adt" and x.get("adt") == "enum" and x.get("local"):
                    return (self.T[t]["path"], i), ft
        return None, None

    def tag_of(self, st, nid):
        key, ft = self.tag_key()
        if key is None:
            return None
        n = st.nodes[nid]
        v = n.imm.get(key)
        if v is not None and v[0] == "A":
            return v[1]
        t = ("discr", ("imm", ("n", nid), key)) if v is None else ("discr", v[2]) if v[0] == "O" else None
        if t is None:
            return None
        r = st.facts.get(t)
        if r is None:
            left = [w["d"] for w in self.T[ft]["variants"] if st.facts.get(self.op("eq", *sorted((t, ("c", w["d"])), key=repr))) != 0]
            return left[0] if len(left) == 1 else None
        for i, w in enumerate(self.T[ft]["variants"]):
            if w["d"] == r:
                return i
        return None

    def raw_alloc(self, st, t, args, p):
        st.allocs = ("raw", self.lay(st, args[0]))
        self.count("raw-alloc", self.site(st, t[6]))
        return self.ret(st, t, ("O", t[3][2], ("rawmem", self.fresh()), E0, E0))

    def raw_dealloc(self, st, t, args, span):
        self.count("raw-dealloc", self.site(st, span))
        st.drains = st.drains + (("dealloc", self.term(args[0], st), self.lay(st, args[1]) or self.term(args[1], st)),)

    # -------------------------------------------------------------- deferred reclamation
    def defer(self, st, t, c, args, atys, span):
        self.count("defer", self.site(st, span))
        g = self.term(args[0], st)
        while g is not None and g[0] in ("ref", "deref"):
            g = g[1]
        if g is not None and g[0] == "unprotected" and not self.exclusive:
            self.report("C05", "defer-unprotected", st, span, "reclamation is handed to a guard that does not pin the thread")
        ck = None
        if atys[1] is not None and self.T[atys[1]]["k"] == "closure":
            ck = self.T[atys[1]].get("call")
        if ck is None or ck not in self.p.fns or "blocks" not in self.p.fns[ck]:
            self.report("C04", "defer-unknown", st, span, "the deferred action cannot be resolved") if ck is None else None
            return self.ret(st, t, ("A", 0, ()))
        f = self.p.fns[ck]
        a = args[1]
        if self.T[f["locals"][1]]["k"] == "ref":
            a = ("P", self.xcell(st, self.fresh(), args[1]), (), E0)
        st.deferred += 1
        self.assign(st, t[3], ("A", 0, ()), span)
        return [self.push(st, ck, [a], None, t[4], "terminate", "deferred")]

    # -------------------------------------------------------------- callbacks
    def callback(self, st, t, args, atys):
        span = t[6]
        self.count("callback", self.site(st, span))
        argterms = []
        parts = args[1:]
        if len(parts) == 1 and parts[0] is not None and parts[0][0] == "A":
            parts = list(parts[0][2])
        elif len(parts) == 1 and atys and self.T[atys[1]]["k"] == "tuple":
            parts = self.tuple_parts(parts[0], atys[1], st)
        labs = E0
        for a in parts:
            labs = labs | self.deep_labels(a, st)
            argterms.append(self.term(a, st) or self.fresh())
        if any(isinstance(l, tuple) for l in labs):
            self.report("C01", "callback-unconfirmed", st, span, "the caller's closure is given a value that was not confirmed unchanged")
        at = argterms[0] if len(argterms) == 1 else ("agg", 0) + tuple(argterms)
        if self.exclusive:
            self.on_drain(st, parts, argterms, span)
            return self.ret(st, t, self.mk(t[3][2], self.fresh()))
        rt = ("cb", at, self.fresh())
        if self.tdepth(rt) > 7:
            rt = ("cb", self.fresh(), self.fresh())
        out = []
        if self.panics_fork and not st.unw and not st.cont:
            out += self.callback_panic(st.copy(), t[5], span)
        s2 = st
        s2.cbs = s2.cbs + ((at, rt),)
        l = frozenset(x for x in labs if x == "A" or x == "Z")
        out += self.ret(s2, t, self.mk(t[3][2], rt, l))
        return out

    def on_drain(self, st, parts, terms, span):
        pass

    # -------------------------------------------------------------- unresolved trait calls
    def unresolved(self, st, t, c, p, args, atys):
        last = p.rsplit("::", 1)[-1]
        if p in ("core::convert::From::from", "core::convert::Into::into"):
            return self.ret(st, t, self.conv(st, args[0], t[3][2]))
        if p == "core::clone::Clone::clone":
            pt = self.p.pointee(atys[0]) if atys[0] is not None else None
            v = self.through_load(st, args[0], pt, t[6])
            return self.ret(st, t, v)
        if p in ("core::ops::deref::Deref::deref", "core::borrow::Borrow::borrow", "core::convert::AsRef::as_ref"):
            return None
        return None

    # -------------------------------------------------------------- opaque calls
    def opaque(self, st, t, c, args, atys):
        span = t[6]
        p = c["path"]
        if p == "core::clone::Clone::clone" and atys and atys[0] is not None:
            pt = self.p.pointee(atys[0])
            v = self.through_load(st, args[0], pt, span)
            return self.ret(st, t, v)
        labs = E0
        regs = E0
        muts = []
        terms = []
        dirty = E0
        # effectful closures handed to code that is not modelled: run them zero or one time
        for a, ty in zip(args, atys):
            labs = labs | self.deep_labels(a, st)
            regs = regs | self.regs(a, st)
            x = self.T[ty] if ty is not None else None
            if x is not None and x["k"] in ("ref", "ptr") and x.get("mut"):
                muts.append((a, ty))
            terms.append(self.term(a, st))
        for a, ty in zip(args, atys):
            if a is not None and a[0] == "P" and a[1][0] == "N":
                nid = a[1][1]
                if self.region(a[2]) == "mut" or not a[2]:
                    self.touch(st, nid, a[3], span, "read")
                    dirty = dirty | self.dlabel(st, nid)
        for r in regs:
            if r[0] == "n" and r[2] == "mut" and r[1] in st.nodes:
                dirty = dirty | self.dlabel(st, r[1])
        if any(l for l in dirty if isinstance(l, tuple)):
            labs = labs | dirty
        elif dirty:
            labs = labs | dirty
        pure = not muts and all(x is not None for x in terms) and not any(isinstance(l, tuple) for l in dirty)
        hv = self.op("call", ("k", p, tuple(self.T[a]["s"] for a in c.get("args", []))), *[self.strip(x) for x in terms]) if all(x is not None for x in terms) else None
        for i, (a, ty) in enumerate(muts):
            self.havoc_through(st, a, self.p.pointee(ty), labs, regs, ("hv", i, hv) if hv is not None and hv[0] == "call" else None, span)
        tid = t[3][2]
        rt = hv if hv is not None and (pure or muts) and hv[0] == "call" else self.fresh()
        if muts:
            rt = self.fresh() if not (hv is not None and hv[0] == "call" and self.T[tid]["k"] in ("ref", "ptr")) else hv
        v = self.mk(tid, rt, labs | self.cl(st), regs if self.may_point(tid) else E0)
        closures = [(a, ty) for a, ty in zip(args, atys) if ty is not None and self.T[ty]["k"] == "closure" and self.p.inter.get(self.T[ty].get("call"))]
        if closures:
            out = []
            s2 = st.copy()
            out += self.ret(s2, t, v)
            a, ty = closures[0]
            ck = self.T[ty]["call"]
            f = self.p.fns[ck]
            if "blocks" in f:
                av = a
                if self.T[f["locals"][1]]["k"] == "ref":
                    av = ("P", self.xcell(st, self.fresh(), a), (), E0)
                rest = [self.mk(f["locals"][i], self.fresh(), labs, regs) for i in range(2, f["argc"] + 1)]
                self.assign(st, t[3], v, span)
                out.append(self.push(st, ck, [av] + rest, None, t[4], t[5]))
            return out
        return self.ret(st, t, v)

    def may_point(self, tid, depth=0):
        x = self.T[tid]
        if x["k"] in ("int", "uint", "bool", "char", "float", "str"):
            return False
        if x["k"] in ("ref", "ptr"):
            return True
        if x["k"] == "array":
            return self.may_point(x["to"], depth + 1)
        if x["k"] == "tuple":
            return any(self.may_point(f, depth + 1) for f in x.get("f", []))
        if x["k"] == "adt" and depth < 4:
            if x.get("adt") == "enum" or x.get("local") or x["path"].startswith("core::"):
                return any(self.may_point(f["t"], depth + 1) for w in x.get("variants", []) for f in w["f"]) or any(self.may_point(a, depth + 1) for a in x.get("args", []))
        return True

    def strip(self, t):
        return t

    def havoc_through(self, st, v, pt, labs, regs, tm, span):
        """v is a &mut handed to code that is not modelled: what it points to may change"""
        if v is None:
            return
        if v[0] == "P":
            if v[1][0] == "N":
                n = st.nodes[v[1][1]]
                self.touch(st, v[1][1], v[3], span, "write")
                if self.region(v[2]) == "lock":
                    return
                self.raw_write(st, v[1][1], span, "through a library call")
                return
            old = self.rd(st, v[1], v[2])
            if pt is None and old is not None and old[0] == "O":
                pt = old[1]
            if pt is None:
                return
            # a library call cannot retarget references stored behind the pointer
            nt = tm if tm is not None and self.tdepth(tm) <= 7 else self.fresh()
            nv = self.mk(pt, nt, labs | self.labels(old) | self.cl(st), (regs | self.regs(old, st)) if self.may_point(pt) else E0)
            if self.T[pt]["k"] == "slice" and old is not None and old[0] == "O":
                nv = ("O", old[1], nt, nv[3], nv[4])
            self.wr(st, v[1], v[2], nv)
            return
        if v[0] == "O":
            for r in v[4]:
                if r[0] == "n" and r[1] in st.nodes and r[2] == "mut" and not self.exclusive:
                    pass
                if r[0] == "cell" and r[1] in st.mem:
                    old = st.mem[r[1]]
                    if old is not None and old[0] in ("O", "A"):
                        ty = old[1] if old[0] == "O" else None
                        if ty is not None:
                            nt = self.op("hvc", tm, old[2]) if tm is not None else self.fresh()
                            st.mem[r[1]] = ("O", ty, nt, old[3] | labs, old[4])
                        else:
                            st.mem[r[1]] = self.addlabs(old, labs)
                    elif old is not None and old[0] == "S":
                        st.mem[r[1]] = ("S", self.fresh(), old[2] | labs)
            b = ("X", v[2])
            if b in st.mem and st.mem[b] is not None:
                old = st.mem[b]
                if old[0] == "O":
                    nt = self.op("hvc", tm, old[2]) if tm is not None else self.fresh()
                    st.mem[b] = ("O", old[1], nt, old[3] | labs, old[4])
                elif old[0] == "S":
                    st.mem[b] = ("S", self.fresh(), old[2] | labs)

    # -------------------------------------------------------------- recursion
    def cut(self, st, t, key, args, atys, depth):
        span = t[6]
        f = self.p.fns[key]
        self.count("recursion", self.site(st, span))
        for a, ty in zip(args, atys):
            if a is None:
                continue
            if any(isinstance(l, tuple) and l[0] == "D" for l in self.labels(a)) and self.has_node(ty):
                if depth < self.MAXREC + 1:
                    return [self.push(st, key, args, t[3], t[4], t[5])]
                self.report("C01", "unvalidated-link", st, span, "the traversal descends through a pointer that was read optimistically and not confirmed unchanged")
        self.on_cut(st, key, args, atys, span)
        for a, ty in zip(args, atys):
            x = self.T[ty] if ty is not None else None
            if x is not None and x["k"] in ("ref", "ptr") and x.get("mut") and a is not None and a[0] == "P" and a[1][0] != "N":
                old = self.rd(st, a[1], a[2])
                self.wr(st, a[1], a[2], self.havoc_scalars(old, x["to"], st, self.p.mods().get(key)))
        tid = t[3][2]
        x = self.T[tid]
        out = []
        if x["k"] == "adt" and x["path"] == "core::result::Result":
            if not self.exclusive:
                s2 = st.copy()
                s2.note(span, "recursive call reports contention")
                s2.cont = s2.cont | {"sub"}
                ev = self.mk(x["args"][1], self.fresh())
                out += self.ret(s2, t, ("A", 1, (ev,)))
            ov = ("A", 0, ()) if self.T[x["args"][0]]["k"] == "tuple" and not self.T[x["args"][0]].get("f") else self.mk(x["args"][0], self.fresh(), frozenset(["A"]))
            out += self.ret(st, t, ("A", 0, (ov,)))
            return out
        return self.ret(st, t, self.mk(tid, self.fresh(), frozenset(["A"])))

    def on_cut(self, st, key, args, atys, span):
        pass

    # a recursive function is analysed on its own, from every state it is entered in; its callers
    # rely only on what exit_sub checks at each of its returns
    def modular(self, st, t, key, args, atys):
        span = t[6]
        self.count("recursion", self.site(st, span))
        labs = E0
        for a in args:
            labs = labs | self.deep_labels(a, st)
        s = self.entry_state(st, key, args)
        self.on_entry(st, s, key, args, atys, span)
        self.subs.append((key, s))
        for a, ty in zip(args, atys):
            x = self.T[ty] if ty is not None else None
            if x is not None and x["k"] in ("ref", "ptr") and x.get("mut") and a is not None and a[0] == "P" and a[1][0] != "N":
                old = self.rd(st, a[1], a[2])
                self.wr(st, a[1], a[2], self.havoc_scalars(old, x["to"], st, self.p.mods().get(key), labs))
                for p in self.mut_pointers(old, x["to"]):
                    # what the callee writes through references kept behind its argument
                    if p[1][0] != "N" and st.mem.get(p[1]) is not None and (labs - self.labels(st.mem[p[1]])):
                        st.mem[p[1]] = self.addlabs(st.mem[p[1]], labs)
        tid = t[3][2]
        x = self.T[tid]
        labs = labs | frozenset(["A"])
        out = []
        if x["k"] == "adt" and x["path"] == "core::result::Result":
            if not self.exclusive:
                s2 = st.copy()
                s2.note(span, "call reports contention")
                s2.cont = s2.cont | {"sub"}
                out += self.ret(s2, t, ("A", 1, (self.mk(x["args"][1], self.fresh()),)))
            ov = ("A", 0, ()) if self.T[x["args"][0]]["k"] == "tuple" and not self.T[x["args"][0]].get("f") else self.mk(x["args"][0], self.fresh(), labs)
            return out + self.ret(st, t, ("A", 0, (ov,)))
        return self.ret(st, t, self.mk(tid, self.fresh(), labs))

    def mut_pointers(self, v, ty):
        if v is None or ty is None:
            return
        x = self.T[ty]
        if x["k"] in ("ref", "ptr"):
            if v[0] == "P" and x.get("mut"):
                yield v
        elif v[0] == "A":
            fs = self.p.fields(ty, v[1])
            for i, w in enumerate(v[2]):
                yield from self.mut_pointers(w, fs[i] if i < len(fs) else None)

    def on_entry(self, st, s, key, args, atys, span):
        pass

    def refy(self, tid):
        x = self.T[tid] if isinstance(tid, int) and tid < len(self.T) else None
        if x is None:
            return True
        return x["k"] in ("ref", "ptr") or x["k"] == "adt" and self.may_point(tid)

    def entry_state(self, st, key, args):
        s = st.copy()
        order = {}
        A = frozenset(["A"])

        def walk(v, d=0):
            for p in self.pointers(v):
                b = p[1]
                if b[0] != "N" and b not in order and b in s.mem:
                    if b[0] == "L" or b[1][0] == "cellof":
                        order[b] = ("X", ("cellof", len(order)))
                    else:
                        order[b] = b
                    walk(s.mem[b])
            for r in self.regs(v, s):
                if r[0] == "cell" and r[1] not in order and r[1] in s.mem:
                    b = r[1]
                    order[b] = ("X", ("cellof", len(order))) if b[0] == "L" or b[1][0] == "cellof" else b
                    walk(s.mem[b])
        for a in args:
            walk(a)

        def V(v):
            if v is None:
                return None
            k = v[0]
            if k == "S":
                return ("S", self.fresh(), (v[2] - {"Z"}) | A)
            if k == "O" and v[1] != self.p.np_ty and not self.argterm(v[2]) and not self.refy(v[1]):
                v = v[:2] + (self.fresh(), (v[3] - {"Z"}) | A, v[4])
            if k == "O" and v[4]:
                return v[:4] + (frozenset(("cell", order.get(r[1], r[1])) if r[0] == "cell" else r for r in v[4]),)
            if k == "A":
                return ("A", v[1], tuple(V(x) for x in v[2])) + v[3:]
            if k == "U":
                return ("U", v[1], V(v[2]))
            if k == "P" and v[1] in order:
                return ("P", order[v[1]], v[2], v[3])
            return v
        mem = {}
        for b in list(s.mem):
            if b in order:
                mem[order[b]] = V(s.mem[b])
            elif b[0] == "X" and b[1][0] != "cellof":
                mem[b] = V(s.mem[b])
        s.mem = mem
        s.frames = (Frame(key, 0, None, "continue", None),)
        for i, a in enumerate(args):
            s.mem[("L", 0, i + 1)] = V(a)
        s.iters = {}
        s.basis = frozenset(s.nodes)
        return s

    def has_node(self, ty, depth=0):
        if ty is None or depth > 5:
            return False
        if ty == self.p.np_ty or self.p.is_node_ptr_ty(ty):
            return True
        x = self.T[ty]
        if x["k"] == "adt":
            if x["path"].endswith("NonNull") or x.get("local") or x["path"].startswith("core::option"):
                return any(self.has_node(f["t"], depth + 1) for w in x.get("variants", []) for f in w["f"])
        if x["k"] == "tuple":
            return any(self.has_node(f, depth + 1) for f in x.get("f", []))
        return False

    def havoc_scalars(self, v, ty, st, mods=None, labs=E0):
        if v is None:
            return v
        A = frozenset(["A"]) | labs
        if v[0] == "S":
            return ("S", self.fresh(), v[2] | A)
        if ty is not None and self.T[ty]["k"] in ("ref", "ptr"):
            return v
        path = self.T[ty]["path"] if ty is not None and self.p.is_local_adt(ty) else None
        if v[0] == "O":
            if path is not None and mods is not None and not any(m[0] == path for m in mods):
                return v
            x = self.T[v[1]] if v[1] is not None and v[1] < len(self.T) else None
            if x is not None and x["k"] == "adt" and x.get("local"):
                return v if all(self.T[f]["k"] in ("ref", "ptr") for f in self.p.fields(v[1])) else ("O", v[1], self.fresh(), v[3] | A, v[4])
            return ("O", v[1], self.fresh(), v[3] | A, v[4])
        if v[0] == "A":
            fs = self.p.fields(ty, v[1]) if ty is not None else []
            whole = path is None or mods is None or (path, None) in mods
            return ("A", v[1], tuple(self.havoc_scalars(x, fs[i] if i < len(fs) else None, st, mods, labs) if whole or (path, i) in mods else x
                                     for i, x in enumerate(v[2])))
        return v

    # -------------------------------------------------------------- container events
    def node_arg(self, st, v, ty, span, what):
        P = self.as_ptr(st, v, ty if self.p.is_node_ty(ty) else self.p.base_ty, span)
        if P[1][0] == "N":
            self.touch(st, P[1][1], P[3], span, what)
            return P[1][1]
        if P[1][0] == "X" and P[2] == ():
            ns = {r[1] for r in self.xregs(st, P[1]) if r[0] == "n"}
            if len(ns) == 1:
                return next(iter(ns))
        raise Abort("container operation on something that is not a node (%s)" % span)

    def verlabel(self, st, nid):
        n = st.nodes[nid]
        if n.kind == "fresh":
            return "F", E0
        if n.held and n.held[1] & 2:
            return "L", frozenset(["A"])
        if self.exclusive:
            return "L", E0
        v = n.vers[-1] if n.vers else None
        return v, frozenset([("D", nid, v), "A"])

    def kt(self, st, v):
        t = self.term(v, st)
        return t if t is not None else self.fresh()

    def fact_of(self, n, key, vers):
        for (k, w, v) in n.facts:
            if k == key and v in vers:
                return w
        return False

    def container(self, st, t, op, args, key):
        span = t[6]
        kind = op["kind"]
        self.count("container-" + kind, self.site(st, span))
        if kind == "next":
            return self.c_next(st, t, op, args, span)
        na = [(self.node_arg(st, args[i], ty, span, kind), m, ty) for (i, m, ty) in op["nodes"]]
        nid, mut, nty = na[0]
        n = st.nodes[nid]
        kd = self.p.kinds.get(nty)
        for (x, m, ty) in na:
            if ty in self.p.kinds:
                self.kind_use(st, x, ty, span)
        if kind == "lookup":
            k = self.kt(st, args[op["u8s"][0]])
            ver, labs = self.verlabel(st, nid)
            labs = labs | self.labels(args[op["u8s"][0]])
            w = self.fact_of(n, k, (ver,))
            out = []
            if w is not False:
                v = ("A", 0, (), labs) if w == "absent" else ("A", 1, (self.np_val(w, labs),), labs)
                return self.ret(st, t, v)
            s2 = st.copy()
            n2 = s2.nmut(nid)
            n2.facts = n2.facts + ((k, "absent", ver),)
            s2.note(span, "child lookup: none")
            out += self.ret(s2, t, ("A", 0, (), labs))
            np = self.fresh()
            n1 = st.nmut(nid)
            n1.facts = n1.facts + ((k, np, ver),)
            st.note(span, "child lookup: found")
            out += self.ret(st, t, ("A", 1, (self.np_val(np, labs),), labs))
            return out
        if kind == "iter":
            ver, labs = self.verlabel(st, nid)
            it = self.fresh()
            st.enums = dict(st.enums)
            st.enums[it] = "open"
            self.on_iter(st, nid, it, [self.kt(st, args[i]) for i in op["u8s"]], span)
            return self.ret(st, t, ("O", op["ret"], it, labs, frozenset([("n", nid, "mut")])))
        if kind == "init":
            self.need_write(st, nid, span, "initialised")
            n = st.nmut(nid)
            n.inits = tuple(sorted(set(n.inits + ("init:%s" % self.T[nty]["path"],))))
            return self.ret(st, t, ("A", 0, ()))
        if kind == "rawwrite":
            self.raw_write(st, nid, span, "node operation")
            return self.ret(st, t, self.mk(t[3][2], self.fresh()))
        if kind == "copy":
            return self.c_copy(st, t, op, args, na, span)
        if kind == "insert":
            return self.c_insert(st, t, op, args, nid, nty, span)
        if kind == "change":
            return self.c_change(st, t, op, args, nid, nty, span)
        if kind == "remove":
            return self.c_remove(st, t, op, args, nid, nty, span)
        raise Abort("container op %s" % kind)

    def on_iter(self, st, nid, it, rng, span):
        pass

    def np_val(self, np, labs):
        return ("O", self.p.np_ty, np, labs, E0)

    def kind_use(self, st, nid, ty, span):
        n = st.nodes[nid]
        tag = self.tag_of(st, nid)
        if not self.sub_unknown(st, n):
            self.agg["use"].add((tag, self.T[ty]["s"], self.lay(st, n.layout) if n.kind == "fresh" else None, "root" if n.kind == "root" else "", self.site(st, span), span))

    def whole_node(self, st, n, ty, cnt):
        """a fill of that many elements covers everything that was requested"""
        lay = self.lay(st, n.layout) or (("fld", self.term(n.layout, st), 0, "size"),)
        pt = self.p.pointee(ty) if ty is not None else None
        sz = self.T[pt].get("size") if pt is not None else None
        tm = self.term(cnt, st)
        if tm is None or sz is None or lay[0] is None:
            return True
        if tm[0] == "c" and lay[0][0] == "c":
            return tm[1] * sz >= lay[0][1]
        return sz == 1 and tm == lay[0]

    def sub_unknown(self, st, n):
        return False

    def c_next(self, st, t, op, args, span):
        ia = op["iters"][0]
        P = self.as_ptr(st, args[ia], None, span)
        v = self.rd(st, P[1], P[2])
        nids = sorted({r[1] for r in self.regs(v, st) if r[0] == "n"})
        if not nids:
            raise Abort("iterator over an unknown node at %s" % span)
        nid = nids[0]
        self.touch(st, nid, E0, span, "enumerate")
        ver, labs = self.verlabel(st, nid)
        it = v[2] if v is not None and v[0] == "O" else None
        self.on_next(st, nid, it, span)
        s2 = st.copy()
        s2.note(span, "enumeration ends")
        self.on_end(s2, nid, it, span)
        out = self.ret(s2, t, ("A", 0, (), labs))
        k, np = self.fresh(), self.fresh()
        n = st.nmut(nid)
        n.facts = n.facts + ((k, np, ver),)
        st.note(span, "next child")
        self.on_child(st, nid, it, k, np, span)
        out += self.ret(st, t, ("A", 1, (("A", 0, (("S", k, labs), self.np_val(np, labs))),), labs))
        return out

    def on_next(self, st, nid, it, span):
        pass

    def on_end(self, st, nid, it, span):
        pass

    def on_child(self, st, nid, it, k, np, span):
        pass

    # writes -----------------------------------------------------------------
    def need_write(self, st, nid, span, what):
        self.count("node-write", self.site(st, span))
        if not self.may_write(st, nid):
            self.report("C02", "unlocked-write", st, span, "a shared node is %s without holding its exclusive lock" % what)
            return False
        n = st.nodes[nid]
        if n.kind != "fresh" and n.obs:
            self.report("C02", "write-dead-node", st, span, "a node already marked dead is %s" % what)
        return True

    def check_clean(self, st, span, vals, what):
        labs = E0
        for v in vals:
            labs = labs | self.labels(v)
        if any(isinstance(l, tuple) for l in labs):
            self.report("C02", "write-unconfirmed", st, span, "%s is based on content that was read optimistically and is not covered by a lock" % what)
        if any(isinstance(l, tuple) for l in st.P) and not st.cont:
            self.report("C02", "write-unconfirmed", st, span, "%s is decided by content that was read optimistically and is not covered by a lock" % what)
        if "Z" in labs or "Z" in st.P:
            self.report("C06", "stale-write", st, span, "%s uses something left over from an abandoned attempt" % what)

    def child_of(self, st, v):
        """('pay', term) / ('sub', nid) / ('np', term) for a child word value"""
        if v is None:
            return ("unknown",)
        if v[0] == "U":
            f = self.T[self.p.np_ty]["variants"][0]["f"][v[1]]["t"]
            x = v[2]
            if self.T[f]["k"] in ("uint", "int"):
                return ("pay", self.term(x, st) or self.fresh())
            if x is not None and x[0] == "P" and x[1][0] == "N":
                return ("sub", x[1][1])
            if x is not None and x[0] == "O":
                if x[2] and x[2][0] == "sub":
                    return ("np", x[2][1])
                return ("sub", self.node_of(st, x[2], ""))
            return ("unknown",)
        if v[0] == "O":
            return ("np", v[2])
        return ("unknown",)

    def payloads_in(self, st, nid, seen=None):
        """payload words newly brought in by an unpublished subtree, and the old nodes it links"""
        seen = seen if seen is not None else set()
        pays, olds = [], set()
        if nid in seen:
            return pays, olds
        seen.add(nid)
        n = st.nodes[nid]
        if n.kind != "fresh":
            olds.add(nid)
            return pays, olds
        for (k, v) in n.contents:
            if k == "all":
                olds.add(("all", v[1]))
                continue
            c = self.child_of(st, v)
            if c[0] == "pay":
                pays.append(c[1])
            elif c[0] == "sub":
                p2, o2 = self.payloads_in(st, c[1], seen)
                pays += p2
                olds |= o2
            elif c[0] == "np":
                olds.add(("np", c[1]))
        return pays, olds

    def publish(self, st, nid, span, seen=None):
        n = st.nodes[nid]
        if n.kind != "fresh":
            return
        if n.freed:
            self.report("C04", "publish-freed", st, span, "a node already given back to the allocator is put into the tree")
        n = st.nmut(nid)
        n.kind = "published"
        self.agg["made"].add((self.tag_of(st, nid), self.lay(st, n.layout), self.site(st, span), span))
        st.note(span, "new node put into the tree")
        self.count("publish", self.site(st, span))
        self.on_publish(st, nid, span)
        for (k, v) in n.contents:
            if k == "all":
                continue
            c = self.child_of(st, v)
            if c[0] == "sub" and c[1] in st.nodes:
                self.publish(st, c[1], span)

    def on_publish(self, st, nid, span):
        pass

    def effect(self, st, kind, old, new, span):
        st.note(span, "takes effect: %s" % kind)
        self.count("effect-" + kind, self.site(st, span))
        if st.eff:
            self.report("C14", "two-effects", st, span, "one operation changes the map twice")
        if st.oom:
            self.report("C07", "effect-after-oom", st, span, "the operation changes the map after the allocator reported exhaustion")
        st.eff = st.eff + ((kind, old, new),)

    def c_insert(self, st, t, op, args, nid, nty, span):
        k = self.kt(st, args[op["u8s"][0]])
        v = args[op["nps"][0]]
        n = st.nodes[nid]
        if n.kind == "fresh":
            if n.freed:
                self.report("C04", "use-after-free", st, span, "node memory is written after it was returned to the allocator")
            n = st.nmut(nid)
            n.contents = n.contents + ((k, v),)
            n.nins += 1
            kd = self.p.kinds.get(nty)
            base = 0
            for (kk, vv) in n.contents:
                if kk == "all":
                    base = max(base, vv[2] or 0)
            if kd and base + n.nins > kd["cap"]:
                self.report("C09", "over-capacity", st, span, "more children are put into a new node than its kind has slots")
            self.check_init(st, nid, nty, span)
            return self.ret(st, t, ("A", 0, ()))
        if self.need_write(st, nid, span, "given a new child"):
            self.check_clean(st, span, [args[op["u8s"][0]], v], "adding a child")
            w = self.fact_of(n, k, ("L",))
            if w != "absent":
                self.report("C02", "insert-not-known-absent", st, span, "a child is added without the lock covering that there was none under this byte")
            kd = self.p.kinds.get(nty)
            # 256 slots: a byte that has no child has a free slot
            if kd and kd["cap"] < 256 and not self.not_full(st, n, kd["cap"]):
                self.report("C09", "insert-maybe-full", st, span, "a child is added to a node that is not known to have a free slot of its kind")
        self.link(st, nid, v, None, span)
        n = st.nmut(nid)
        n.facts = tuple(f for f in n.facts if f[0] != k)
        n.cnts = ()
        return self.ret(st, t, ("A", 0, ()))

    def listed(self, nty):
        """a kind with one key byte per child: only the first so many of them, as the header counts, are looked at"""
        cap = self.p.kinds[nty]["cap"]
        return any(self.T[f]["k"] == "array" and self.T[f].get("len") == cap and self.T[self.T[f]["to"]]["k"] == "uint" and self.T[self.T[f]["to"]].get("size") == 1
                   for f in self.p.fields(nty) if self.T[f].get("to") is not None)

    def check_init(self, st, nid, nty, span):
        n = st.nodes[nid]
        inits = [o for o in self.p.cops.values() if o["kind"] == "init" and o["nodes"][0][2] == nty]
        if inits and "init:%s" % self.T[nty]["path"] not in n.inits:
            self.report("C09", "not-initialised", st, span, "children are put into a new node before its kind's own initialisation ran")
        if "base" not in n.inits:
            self.report("C09", "no-header", st, span, "children are put into a new node before its header was written")
        if not n.zero and not inits and not self.listed(nty):
            self.report("C09", "not-zeroed", st, span, "children are put into a new node whose memory was not cleared")

    def not_full(self, st, n, cap):
        for (tm, v) in n.cnts:
            if v != "L":
                continue
            for k, val in st.facts.items():
                if k[0] == "eq" and val == 0 and tm in k and ("c", cap) in k:
                    return True
                if k[0] == "eq" and val == 1 and tm in k:
                    o = k[2] if k[1] == tm else k[1]
                    if o[0] == "c" and o[1] < cap:
                        return True
                if k[0] == "lt" and val == 1 and k[1] == tm and k[2][0] == "c" and k[2][1] <= cap:
                    return True
                if k[0] == "lt" and val == 0 and k[2] == tm and k[1][0] == "c" and k[1][1] < cap:
                    return True
                if k[0] == "lt" and val == 1 and k[1] == ("lin", tm, 1) and k[2][0] == "c" and k[2][1] <= cap + 1:
                    return True
        return False

    def at_least(self, st, n, val):
        for (tm, v) in n.cnts:
            if v != "L":
                continue
            for k, x in st.facts.items():
                if k == tm and x >= val:
                    return True
                if k[0] == "eq" and x == 1 and tm in k:
                    o = k[2] if k[1] == tm else k[1]
                    if o[0] == "c" and o[1] >= val:
                        return True
                if k[0] == "lt" and x == 0 and k[1] == tm and k[2][0] == "c" and k[2][1] >= val:
                    return True
                if k[0] == "lt" and x == 1 and k[2] == tm and k[1][0] == "c" and k[1][1] >= val - 1:
                    return True
                if k[0] == "lt" and x == 0 and k[1] == ("lin", tm, 1) and k[2][0] == "c" and k[2][1] >= val + 1:
                    return True
        return False

    def pinned_below(self, st, n, val):
        return any(v == "L" and k[0] == "eq" and x == 1 and tm in k and [o[1] for o in k[1:] if o[0] == "c" and o[1] < val]
                   for (tm, v) in n.cnts for k, x in st.facts.items())

    def count_is(self, st, n, val):
        for (tm, v) in n.cnts:
            if v != "L":
                continue
            for k, x in st.facts.items():
                if k == tm and x == val:
                    return True
                if k[0] == "eq" and x == 1 and tm in k and ("c", val) in k:
                    return True
                if val == 1 and k[0] == "lt" and x == 1 and k[1] == tm and k[2] == ("c", 2):
                    return True
                if val == 1 and k[0] == "lt" and x == 0 and k[2] == tm and k[1] == ("c", 1):
                    return True
        return False

    def link(self, st, nid, v, oldnp, span):
        """a child word is stored into a shared node; oldnp: the word it replaces (None for a free slot)"""
        c = self.child_of(st, v)
        old = None
        if oldnp is not None:
            old = st.np2n.get(("sub", oldnp))
        if c[0] == "pay":
            if oldnp is None:
                self.effect(st, "ins", None, c[1], span)
            elif old is not None:
                self.report("C17", "value-over-subtree", st, span, "a subtree is replaced by a value")
            else:
                self.effect(st, "rep", ("pay", oldnp), c[1], span)
            return
        if c[0] == "np":
            if c[1] == oldnp:
                return
            self.report("C17", "moved-child", st, span, "a child is linked in a second place")
            return
        if c[0] != "sub":
            self.report("C17", "unknown-child", st, span, "what is linked into the tree is not known")
            return
        cid = c[1]
        cn = st.nodes[cid]
        if cn.kind != "fresh":
            if cid == old:
                return
            self.report("C04", "relinked", st, span, "a node that is already part of the tree is linked into it a second time")
            return
        pays, olds = self.payloads_in(st, cid)
        if not cn.contents:
            st.lost = True
            self.report("C19", "empty-node", st, span, "a node without children is put into the tree")
        if oldnp is not None:
            if old is None:
                # the replaced word was never looked at as a node: it is a value or an unknown subtree
                if ("np", oldnp) not in olds:
                    st.lost = True
                    self.report("C17", "child-lost", st, span, "a child is replaced by a new node that does not contain it")
            elif old in olds or ("np", oldnp) in olds:
                pass
            else:
                on = st.nodes[old]
                if ("all", old) not in olds:
                    st.lost = True
                    self.report("C17", "children-lost", st, span, "a node is replaced by a new one that did not take over its children")
                self.unlinked(st, old, span, "replaced")
        for x in olds:
            if isinstance(x, int) and x != old and not (oldnp is None):
                self.report("C04", "relinked", st, span, "a node that is already part of the tree is linked into it a second time")
            if isinstance(x, tuple) and x[0] == "all" and x[1] != old:
                self.report("C04", "relinked", st, span, "the children of a node that stays in the tree are linked a second time")
        for pt in pays:
            self.effect(st, "ins", None, pt, span)
        self.publish(st, cid, span)

    def unlinked(self, st, old, span, how):
        on = st.nodes[old]
        st.note(span, "node taken out of the tree")
        self.count("unlink", self.site(st, span))
        if not self.exclusive and not (on.held and on.held[1] & 2):
            self.report("C02", "unlink-unlocked", st, span, "a node is %s although it is not locked, so changes made to it meanwhile are lost" % how)
        if on.unl:
            self.report("C04", "double-unlink", st, span, "a node is taken out of the tree twice")
        st.nmut(old).unl = True

    def c_change(self, st, t, op, args, nid, nty, span):
        k = self.kt(st, args[op["u8s"][0]])
        v = args[op["nps"][0]]
        n = st.nodes[nid]
        oldv = self.np_val(self.fresh(), E0)
        if n.kind == "fresh":
            self.report("C17", "change-in-new-node", st, span, "a child of a new node is replaced")
            return self.ret(st, t, oldv)
        if self.need_write(st, nid, span, "given a different child"):
            self.check_clean(st, span, [args[op["u8s"][0]], v], "replacing a child")
            w = self.fact_of(n, k, ("L",))
            if w in (False, "absent"):
                st.lost = True
                self.report("C02", "change-not-known-present", st, span, "a child is replaced without the lock covering which child was there")
                self.link(st, nid, v, self.fresh(), span) if False else None
                n = st.nmut(nid)
                n.facts = tuple(f for f in n.facts if f[0] != k)
                c = self.child_of(st, v)
                if c[0] == "sub":
                    self.publish(st, c[1], span)
                return self.ret(st, t, oldv)
            oldv = self.np_val(w, E0)
            self.link(st, nid, v, w, span)
        n = st.nmut(nid)
        n.facts = tuple(f for f in n.facts if f[0] != k)
        return self.ret(st, t, oldv)

    def c_remove(self, st, t, op, args, nid, nty, span):
        k = self.kt(st, args[op["u8s"][0]])
        n = st.nodes[nid]
        if n.kind != "fresh" and self.need_write(st, nid, span, "deprived of a child"):
            self.check_clean(st, span, [args[op["u8s"][0]]], "removing a child")
            w = self.fact_of(n, k, ("L",))
            if w in (False, "absent"):
                self.report("C02", "remove-not-known-present", st, span, "a child is removed without the lock covering which child was there")
            else:
                old = st.np2n.get(("sub", w))
                if old is None:
                    self.effect(st, "del", ("pay", w), None, span)
                else:
                    on = st.nodes[old]
                    if self.count_is(st, on, 1):
                        pres = [f for f in on.facts if f[2] == "L" and f[1] != "absent"]
                        if not pres:
                            self.report("C14", "subtree-unknown", st, span, "a subtree is taken out without the lock covering which entry it holds")
                        else:
                            w2 = pres[0][1]
                            if ("sub", w2) in st.np2n:
                                st.lost = True
                                self.report("C14", "subtree-lost", st, span, "a subtree that is not a single entry is taken out")
                            else:
                                self.effect(st, "del", ("pay", w2), None, span)
                    elif self.count_is(st, on, 0):
                        pass
                    else:
                        st.lost = True
                        self.report("C14", "subtree-lost", st, span, "a subtree is taken out without the lock covering that it holds no other entry")
                    self.unlinked(st, old, span, "taken out")
        n = st.nmut(nid)
        n.facts = tuple(f for f in n.facts if f[0] != k)
        n.cnts = ()
        return self.ret(st, t, self.mk(t[3][2], self.fresh()) if self.T[t[3][2]]["k"] != "tuple" else ("A", 0, ()))

    def c_copy(self, st, t, op, args, na, span):
        src = [x for x in na if not x[1]]
        dst = [x for x in na if x[1]]
        if not src or not dst:
            raise Abort("copy between nodes at %s" % span)
        s, d = src[0], dst[0]
        sn, dn = st.nodes[s[0]], st.nodes[d[0]]
        if sn.kind != "fresh" and not self.may_write(st, s[0]):
            self.report("C02", "copy-unlocked", st, span, "a node's children are copied while it is not locked")
        if dn.kind != "fresh":
            self.need_write(st, d[0], span, "filled")
        ck, dk = self.p.kinds.get(s[2]), self.p.kinds.get(d[2])
        if ck and dk:
            self.count("grow", "%s->%s" % (ck["name"], dk["name"]))
            if ck["cap"] >= dk["cap"] and ck["cap"] < 256:
                self.report("C09", "grow-smaller", st, span, "%s grows into %s, which has no more slots" % (ck["name"], dk["name"]))
            self.agg["grow"].add((ck["name"], dk["name"]))
            if sn.kind in ("shared", "root") and not self.at_least(st, sn, ck["cap"]) and (ck["cap"] < 256 or self.pinned_below(st, sn, 256)):
                self.report("C09", "grow-not-full", st, span, "a node is replaced by a bigger one although it is not known to have used up its slots")
        n = st.nmut(d[0])
        n.contents = n.contents + (("all", ("n", s[0], ck["cap"] if ck else 0)),)
        if d[2] in self.p.kinds and n.kind == "fresh":
            self.check_init(st, d[0], d[2], span)
        return self.ret(st, t, ("A", 0, ()))
