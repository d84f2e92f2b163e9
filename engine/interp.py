"""Statement/terminator execution, calls, container events, exploration."""
import time
from absint import *

IDENT = ("core::ptr::non_null::NonNull::<T>::as_ptr",
         "core::ptr::non_null::NonNull::<T>::new_unchecked", "core::ptr::non_null::NonNull::<T>::cast", "core::ptr::non_null::NonNull::<T>::from_ref",
         "core::ptr::non_null::NonNull::<T>::from_mut", "core::ptr::from_ref", "core::ptr::from_mut",
         "core::ptr::mut_ptr::<impl *mut T>::cast", "core::ptr::const_ptr::<impl *const T>::cast", "core::ptr::const_ptr::<impl *const T>::cast_mut",
         "core::ptr::mut_ptr::<impl *mut T>::cast_const", "core::ptr::slice_from_raw_parts_mut", "core::ptr::slice_from_raw_parts",
         "core::hint::black_box", "core::convert::identity",
         "core::ptr::non_null::NonNull::<[T]>::as_mut_ptr", "core::ptr::non_null::NonNull::<[T]>::as_non_null_ptr",
         "core::ptr::non_null::NonNull::<[T]>::cast", "core::mem::maybe_uninit::MaybeUninit::<T>::assume_init",
         "core::cell::UnsafeCell::<T>::get", "core::cell::UnsafeCell::<T>::new",
         "core::ptr::mut_ptr::<impl *mut T>::as_mut_unchecked", "core::ptr::const_ptr::<impl *const T>::as_ref_unchecked",
         "core::ptr::non_null::NonNull::<[T]>::slice_from_raw_parts",
         "core::ptr::non_null::NonNull::<T>::cast_array")
NOOP = ("crossbeam_epoch::guard::Guard::flush", "core::hint::spin_loop", "std::thread::yield_now", "std::thread::functions::yield_now",
        "core::intrinsics::assume", "core::hint::assert_unchecked", "crossbeam_epoch::guard::Guard::repin", "core::intrinsics::cold_path",
        "core::ub_checks::assert_unsafe_precondition")


class Interp(Engine):
    MAXREC = 1

    # ------------------------------------------------------------ driver
    def new_state(self, fnk):
        st = State()
        st.mem = {}; st.frames = (); st.nodes = {}; st.facts = {}; st.np2n = {}; st.P = E0; st.oom = False; st.lost = False; st.cont = E0
        st.eff = (); st.guards = 0; st.pinarg = False; st.deferred = 0; st.bits = {}; st.unw = False; st.trace = None
        st.iters = {}; st.rootloads = 0; st.drains = (); st.enums = {}; st.seen = None; st.allocs = 0; st.dec = E0
        st.pays = E0; st.cbs = (); st.after = 0; st.basis = E0
        return st

    def run_root(self, key, args=None, label=None):
        f = self.p.fns[key]
        self.root = label or f["path"]
        st = self.new_state(key)
        st.frames = (Frame(key, 0, None, "continue", None),)
        for i in range(1, f["argc"] + 1):
            t = f["locals"][i]
            v = args[i - 1] if args and args[i - 1] is not None else self.mk(t, ("arg", i - 1))
            st.mem[("L", 0, i)] = v
            pt = self.p.pointee(t)
            if pt is not None and self.T[pt]["k"] == "adt" and self.T[pt].get("path") == "crossbeam_epoch::guard::Guard":
                st.pinarg = True
        self.subs = []
        self.explore(st)
        done = set()
        while self.subs:
            key, s = self.subs.pop()
            self.gc(s)
            k = self.canon(s)
            if k in done:
                continue
            done.add(k)
            self.count("entry-state", "%s #%d" % (self.p.fns[key]["path"], len(done)))
            self.explore(s)

    def explore(self, st0):
        work = [st0]
        seen = set()
        t0 = time.time()
        while work:
            st = work.pop()
            top = st.frames[-1]
            if top.fn[0] != "#":
                cf = self.p.cfg(top.fn)
                if cf["join"][top.blk] or top.blk == 0 or top.blk in cf["heads"]:
                    self.gc(st)
                    if top.blk in cf["heads"]:
                        self.widen_state(st)
                    k = self.canon(st)
                    if k in seen:
                        continue
                    seen.add(k)
                    self.nstates += 1
                    if self.nstates > self.max_states:
                        raise Abort("state budget exhausted in %s" % self.root)
            try:
                work.extend(self.step(st))
            except Dead:
                continue
            self.steps += 1

    # ------------------------------------------------------------ gc / canonical form
    def gc(self, st):
        d = len(st.frames) - 1
        live = {}
        for i, fr in enumerate(st.frames):
            if fr.fn[0] == "#":
                continue
            cf = self.p.cfg(fr.fn)
            if i == d:
                ls = cf["live"][fr.blk]
            else:
                ls = set()
                nx = st.frames[i + 1]
                j = i + 1
                tgt, unw = nx.ret[1] if nx.ret else None, nx.unwind
                if tgt is not None:
                    ls |= cf["live"][tgt]
                if isinstance(unw, int):
                    ls |= cf["live"][unw]
                if nx.ret and nx.ret[0] is not None:
                    ls.add(nx.ret[0][0])
                    for e in nx.ret[0][1]:
                        if e[0] == "i":
                            ls.add(e[1])
            live[i] = (ls, cf["borrowed"])
        for c in list(st.mem):
            if c[0] == "L":
                if c[1] not in live:
                    if c[1] > d:
                        del st.mem[c]
                    continue
                ls, bo = live[c[1]]
                if c[2] not in ls and c[2] not in bo:
                    del st.mem[c]
        if (st.cont or st.oom or st.eff) and not any(n.held and n.held[1] & 2 and not n.obs for n in st.nodes.values()) \
                and not any(n.kind == "fresh" and not n.freed for n in st.nodes.values()):
            # the attempt is over: what was learnt about nodes is of no further use
            for nid, n in list(st.nodes.items()):
                if n.facts or n.cnts:
                    n = st.nmut(nid)
                    n.facts = ()
                    n.cnts = ()
            for k in list(st.facts):
                if self.nids_in(k):
                    del st.facts[k]
        if self.lite:
            st.pays = E0
            for nid, n in list(st.nodes.items()):
                if n.facts or n.cnts:
                    n = st.nmut(nid)
                    n.facts = ()
                    n.cnts = ()
            for k in list(st.facts):
                if k[0] != "discr":
                    del st.facts[k]
        # reachable terms / nodes
        terms, nids, xs = set(), set(), set()
        seenv = set()
        hold = set()
        if self.hold_pays and not st.cont:
            for k in st.facts:
                if k[0] == "eq" and any(self.pay_in(k, t) for t in st.pays):
                    hold.add(k)

        def visit_term(t):
            if not isinstance(t, tuple) or t in terms:
                return
            terms.add(t)
            if not t:
                return
            if t[0] == "n":
                nids.add(t[1])
                return
            if t[0] in ("c", "s"):
                return
            for x in t[1:]:
                if isinstance(x, tuple):
                    visit_term(x)

        def visit(v):
            if v is None or id(v) in seenv:
                return
            k = v[0]
            if k == "S":
                visit_term(v[1])
            elif k == "O":
                visit_term(v[2])
                for r in v[4]:
                    if r[0] == "n":
                        nids.add(r[1])
            elif k == "A":
                for x in v[2]:
                    visit(x)
            elif k == "U":
                visit(v[2])
            elif k == "P":
                if v[1][0] == "N":
                    nids.add(v[1][1])
                else:
                    xs.add(v[1])
                for el in v[2]:
                    if el[0] == "i" and el[1] is not None:
                        visit_term(el[1])
        for c, v in st.mem.items():
            if c[0] != "X":
                visit(v)
        for k in hold:
            visit_term(k)
        for k, v in st.iters.items():
            if k[0] != "ob":
                nids.add(k[1])
            if isinstance(v, tuple):
                for x in v:
                    if isinstance(x, tuple):
                        visit_term(x)
                    elif isinstance(x, int):
                        nids.add(x)
        for e in st.eff:
            for x in e:
                visit_term(x)
        for cb in st.cbs:
            for x in cb:
                visit_term(x)
        for fr in st.frames:
            if fr.fn[0] == "#" and fr.ctx:
                for x in fr.ctx:
                    if isinstance(x, tuple) and len(x) > 1 and x[0] == "step":
                        visit(x[2])
        # obligations keep nodes
        changed = True
        done = set()
        donex = set()
        while changed:
            changed = False
            for nid, n in st.nodes.items():
                if nid in done:
                    continue
                keep = nid in nids or n.kind == "root" or (n.kind == "fresh" and not n.freed) or (n.held and n.held[1] & 2 and not n.obs) or ((n.unl or n.obs or n.dfr) and not (n.unl and n.obs and n.dfr))
                if not keep and n.term in terms:
                    keep = True
                if keep:
                    done.add(nid)
                    nids.add(nid)
                    changed = True
                    visit_term(n.term)
                    for v in n.imm.values():
                        visit(v)
                    if n.layout:
                        visit(n.layout)
                    for (kt, v) in n.contents:
                        visit(v) if v is not None and v[0] != "n" else visit_term(v)
                        visit_term(kt) if isinstance(kt, tuple) else None
            for b in list(st.mem):
                if b[0] == "X" and b not in donex:
                    if b in xs or b[1] in terms or self.argterm(b[1]):
                        donex.add(b)
                        changed = True
                        visit_term(b[1])
                        visit(st.mem[b])
        for b in list(st.mem):
            if b[0] == "X" and b not in donex:
                del st.mem[b]
        for nid in list(st.nodes):
            if nid not in done:
                del st.nodes[nid]
        for t in list(st.np2n):
            if st.np2n[t] not in st.nodes:
                del st.np2n[t]
        syms = {t for t in terms if t and t[0] == "s"}
        for nid in list(st.nodes):
            n = st.nodes[nid]
            for v in n.vers:
                syms.add(v)
            # facts stay while key and child are still nameable
            def alive(t):
                return t is None or t in terms or self.syms_in(t) <= syms
            nf = tuple(f for f in n.facts if (not isinstance(f[2], tuple) or f[2] in terms) and (alive(f[0]) or isinstance(f[1], tuple) and alive(f[1])))
            if nf != n.facts:
                st.nmut(nid).facts = nf
            for f in nf:
                for t in (f[0], f[1]):
                    if isinstance(t, tuple):
                        syms |= self.syms_in(t)
            if n.cnts:
                n = st.nodes[nid]
                nc = []
                for (t, v) in n.cnts:
                    if isinstance(v, tuple) and v not in terms:
                        continue
                    if t in syms or any(t in self.syms_in(k) for k in st.facts):
                        nc.append((t, v))
                        syms.add(t)
                if tuple(nc) != n.cnts:
                    st.nmut(nid).cnts = tuple(nc)
            # keep only the versions that something still refers to, and the last one
        used = self.used_labels(st)
        for nid in list(st.nodes):
            n = st.nodes[nid]
            vs = tuple(v for i, v in enumerate(n.vers) if i == len(n.vers) - 1 or v in terms or (nid, v) in used or (n.held and n.held[0] == v)
                       or any(f[2] == v for f in n.facts) or any(c[1] == v for c in n.cnts))
            if vs != n.vers:
                st.nmut(nid).vers = vs
        for k in list(st.facts):
            if not self.syms_in(k) <= syms or any(n not in st.nodes for n in self.nids_in(k)):
                del st.facts[k]
            elif k in hold:
                continue
            elif self.has_call(k) and k not in terms and not (k[0] == "eq" and (k[1] in terms or k[2] in terms)):
                # what an opaque call returned is forgotten with the value itself
                del st.facts[k]
        if any(c != "sub" and c not in st.nodes for c in st.cont):
            st.cont = frozenset(c if c == "sub" or c in st.nodes else "sub" for c in st.cont)
        for k in list(st.enums):
            if k not in terms:
                del st.enums[k]
        for k in list(st.bits):
            if k not in syms:
                del st.bits[k]
        if st.pays:
            st.pays = frozenset(t for t in st.pays if t in terms or self.syms_in(t) <= syms)

    hold_pays = False

    def pay_in(self, k, t):
        if not isinstance(k, tuple) or not k:
            return False
        if k[0] == "pay" and k[1] == t:
            return True
        return any(self.pay_in(x, t) for x in k[1:] if isinstance(x, tuple))

    def argterm(self, t):
        while isinstance(t, tuple) and t and t[0] in ("fld", "deref", "ref", "idx"):
            t = t[1]
        return isinstance(t, tuple) and t and t[0] == "arg"

    def used_labels(self, st):
        out = set()
        cache = set()

        def g(ls):
            if id(ls) in cache or not ls:
                return
            cache.add(id(ls))
            for l in ls:
                if isinstance(l, tuple):
                    out.add((l[1], l[2]))

        def m(v):
            if v is None:
                return
            if v[0] == "S":
                g(v[2])
            elif v[0] in ("O", "P"):
                g(v[3])
            elif v[0] == "A":
                for x in v[2]:
                    m(x)
                if len(v) > 3:
                    g(v[3])
            elif v[0] == "U":
                m(v[2])
        for v in st.mem.values():
            m(v)
        g(st.P)
        return out

    _sc = {}

    def syms_in(self, t):
        r = self._sc.get(t)
        if r is None:
            if not isinstance(t, tuple) or not t or t[0] == "c":
                r = frozenset()
            elif t[0] == "s":
                r = frozenset([t])
            else:
                r = frozenset()
                for x in t[1:]:
                    if isinstance(x, tuple):
                        r = r | self.syms_in(x)
            if len(self._sc) > 200000:
                self._sc.clear()
            self._sc[t] = r
        return r

    _rf = {}

    def result_fact(self, t):
        """a fact about arguments, closure answers or entry values"""
        r = self._rf.get(t)
        if r is None:
            r = isinstance(t, tuple) and bool(t) and (t[0] in ("arg", "cb", "pay", "conv") or any(isinstance(x, tuple) and self.result_fact(x) for x in t[1:]))
            if len(self._rf) > 200000:
                self._rf.clear()
            self._rf[t] = r
        return r

    _hc = {}

    def has_call(self, t):
        r = self._hc.get(t)
        if r is None:
            r = isinstance(t, tuple) and bool(t) and (t[0] in ("call", "hv", "pun") or any(isinstance(x, tuple) and self.has_call(x) for x in t[1:]))
            if len(self._hc) > 200000:
                self._hc.clear()
            self._hc[t] = r
        return r

    _nc = {}

    def nids_in(self, t):
        r = self._nc.get(t)
        if r is None:
            if not isinstance(t, tuple) or not t or t[0] in ("c", "s"):
                r = frozenset()
            elif t[0] == "n":
                r = frozenset([t[1]])
            else:
                r = frozenset()
                for x in t[1:]:
                    if isinstance(x, tuple):
                        r = r | self.nids_in(x)
            if len(self._nc) > 200000:
                self._nc.clear()
            self._nc[t] = r
        return r

    def canon(self, st):
        ren, nren = {}, {}

        def T(t):
            if not isinstance(t, tuple) or not t:
                return t
            h = t[0]
            if h == "c":
                return t
            if h == "s":
                r = ren.get(t)
                if r is None:
                    r = ren[t] = ("s", len(ren))
                return r
            if h == "n":
                return ("n", N(t[1]))
            return (h,) + tuple(T(x) if isinstance(x, tuple) else x for x in t[1:])

        def N(i):
            if i not in st.nodes:
                return -1
            r = nren.get(i)
            if r is None:
                r = nren[i] = len(nren)
            return r

        def L(ls):
            if not ls:
                return ()
            out = []
            for l in ls:
                if isinstance(l, tuple):
                    if l[1] not in st.nodes or (l[2] is not None and l[2] not in st.nodes[l[1]].vers):
                        out.append(("D", "x"))
                    else:
                        out.append((l[0], N(l[1]), T(l[2]) if l[2] is not None else None))
                else:
                    out.append((l,))
            return tuple(sorted(set(out), key=repr))

        def R(rs):
            if not rs:
                return ()
            out = []
            for r in rs:
                if r[0] == "n":
                    out.append(("n", N(r[1]), r[2]))
                else:
                    out.append(("cell", B(r[1])))
            return tuple(sorted(out, key=repr))

        def B(b):
            if b[0] == "N":
                return ("N", N(b[1]))
            if b[0] == "X":
                return ("X", T(b[1]))
            return b

        def V(v):
            if v is None:
                return None
            k = v[0]
            if k == "S":
                return ("S", T(v[1]), L(v[2]))
            if k == "O":
                return ("O", T(v[2]), L(v[3]), R(v[4]))
            if k == "A":
                return ("A", v[1], tuple(V(x) for x in v[2]), L(v[3]) if len(v) > 3 else ())
            if k == "U":
                return ("U", v[1], V(v[2]))
            if k == "P":
                return ("P", B(v[1]), tuple((e[0], e[1] if e[0] == "f" else (T(e[1]) if e[0] == "i" and e[1] is not None else None), L(e[4]) if e[0] == "i" and len(e) > 4 else ()) for e in v[2]), L(v[3]))
            return v
        out = []
        for fr in st.frames:
            out.append((fr.fn, fr.blk, fr.ret[1] if fr.ret else None, fr.unwind,
                        tuple(V(x[2]) if isinstance(x, tuple) and x and x[0] == "step" else x for x in fr.ctx) if isinstance(fr.ctx, tuple) else fr.ctx))
        for c in sorted((c for c in st.mem if c[0] == "L"), key=lambda c: (c[1], c[2])):
            out.append((c, V(st.mem[c])))
        xs = [c for c in st.mem if c[0] == "X"]
        xs.sort(key=lambda c: repr(T2(c[1], ren)))
        for c in xs:
            out.append((B(c), V(st.mem[c])))
        nodes = []
        # nodes reached so far get numbers in visiting order; the rest by signature
        todo = [i for i in sorted(st.nodes, key=lambda i: nren.get(i, 1 << 30))]
        for i in todo:
            n = st.nodes[i]
            me = N(i)
            nodes.append((me, n.kind, tuple(T(v) for v in n.vers), (T(n.held[0]), n.held[1]) if n.held else None, n.obs, n.unl, n.dfr, n.freed,
                          tuple(sorted(((k, V(v)) for k, v in n.imm.items()), key=lambda x: x[0])),
                          tuple(sorted(((T(a), T(b), T(v) if isinstance(v, tuple) else v) for a, b, v in n.facts), key=repr)),
                          tuple(sorted(((T(a), T(v) if isinstance(v, tuple) else v) for a, v in n.cnts), key=repr)),
                          tuple((T(a) if isinstance(a, tuple) else a, V(v) if v is not None and v[0] != "n" else T(v)) for a, v in n.contents),
                          V(n.layout), n.zero, n.inits, n.nins))
        out.append(tuple(nodes))
        out.append(tuple(sorted(((T(k), v) for k, v in st.facts.items()), key=repr)))
        out.append(tuple(sorted(((T(k), tuple(sorted(v))) for k, v in st.bits.items()), key=repr)))
        out.append(tuple(sorted(((T(k), N(v)) for k, v in st.np2n.items()), key=repr)))
        out.append((L(st.P), st.oom, st.lost, tuple(sorted((str(N(c)) if isinstance(c, int) else c for c in st.cont))), tuple(tuple(T(x) if isinstance(x, tuple) else x for x in e) for e in st.eff),
                    st.guards, st.deferred, st.unw, st.rootloads, tuple(tuple(T(x) if isinstance(x, tuple) else x for x in e) for e in st.cbs),
                    tuple(sorted((T(x) for x in st.pays), key=repr)), tuple(sorted(((T(k), T(v) if isinstance(v, tuple) else v) for k, v in st.enums.items()), key=repr)), tuple(sorted(N(i) for i in st.basis if i in st.nodes)) if st.basis else (),
                    tuple(sorted(((k[0], N(k[1]) if k[0] != "ob" else k[1], tuple(T(x) if isinstance(x, tuple) else (N(x) if isinstance(x, int) else x) for x in v) if isinstance(v, tuple) else v)
                                  for k, v in st.iters.items()), key=repr)) if st.iters else ()))
        return tuple(out)

    # ------------------------------------------------------------ widening
    def shape(self, t):
        if not isinstance(t, tuple) or not t:
            return t
        if t[0] == "s":
            return "s"
        if t[0] in ("c",):
            return t
        return (t[0],) + tuple(self.shape(x) if isinstance(x, tuple) else x for x in t[1:])

    def widen_state(self, st):
        """terms that keep growing at a loop head become fresh symbols, everywhere at once"""
        sig = tuple((f.fn, f.blk) for f in st.frames)
        # only what the function with the loop can reach changes from one round to the next
        d = len(st.frames) - 1
        reach = {c for c in st.mem if c[0] == "L" and c[1] == d}
        todo = list(reach)
        while todo:
            v = st.mem.get(todo.pop())
            cells = {p[1] for p in self.pointers(v)}
            cells |= {r[1] for r in self.regs(v, st) if r[0] == "cell"}
            for c in cells:
                if c in st.mem and c not in reach:
                    reach.add(c)
                    todo.append(c)
        for _ in range(40):
            cand = []

            def look(v, key):
                if v is None:
                    return
                if v[0] in ("S", "O"):
                    t = v[1] if v[0] == "S" else v[2]
                    if t[0] == "s":
                        return
                    w = self.widen[key]
                    sh = self.shape(t)
                    if sh in w:
                        return
                    if all(isinstance(x, tuple) and x and x[0] == "s" for x in t[1:]) or t[0] != "idx" and self.argterm(t):
                        return
                    if len(w) >= 1:
                        cand.append((self.tdepth(t), key, t))
                elif v[0] == "A":
                    for i, x in enumerate(v[2]):
                        look(x, (key, v[1], i))
                elif v[0] == "U":
                    look(v[2], (key, "u"))
            for c in reach & set(st.mem):
                look(st.mem[c], (sig, c if c[0] == "L" else ("X", self.shape(c[1]))))
            if not cand:
                break
            consts = {x[1] for x in cand if x[2][0] == "c"}
            if consts:
                # a constant is widened where it stands, not everywhere it occurs
                def wide(v, key):
                    if v is None:
                        return v
                    if v[0] in ("S", "O"):
                        if key in consts:
                            return ("S", self.fresh(), v[2]) if v[0] == "S" else ("O", v[1], self.fresh(), v[3], v[4])
                        return v
                    if v[0] == "A":
                        return ("A", v[1], tuple(wide(x, (key, v[1], i)) for i, x in enumerate(v[2]))) + v[3:]
                    if v[0] == "U":
                        return ("U", v[1], wide(v[2], (key, "u")))
                    return v
                for c in reach & set(st.mem):
                    st.mem[c] = wide(st.mem[c], (sig, c if c[0] == "L" else ("X", self.shape(c[1]))))
                continue
            dm = min(x[0] for x in cand)
            self.replace_terms(st, {x[2]: None for x in cand if x[0] == dm})

        def note(v, key):
            if v is None:
                return
            if v[0] in ("S", "O"):
                t = v[1] if v[0] == "S" else v[2]
                if t[0] != "s":
                    self.widen[key].add(self.shape(t))
            elif v[0] == "A":
                for i, x in enumerate(v[2]):
                    note(x, (key, v[1], i))
            elif v[0] == "U":
                note(v[2], (key, "u"))
        for c in reach & set(st.mem):
            note(st.mem[c], (sig, c if c[0] == "L" else ("X", self.shape(c[1]))))

    def replace_terms(self, st, m):
        for t in m:
            if m[t] is None:
                m[t] = self.fresh()
        cache = {}

        def T(t):
            if not isinstance(t, tuple) or not t or t[0] in ("c", "s", "n"):
                return m.get(t, t) if isinstance(t, tuple) else t
            r = cache.get(t)
            if r is None:
                r = m.get(t)
                if r is None:
                    r = (t[0],) + tuple(T(x) if isinstance(x, tuple) else x for x in t[1:])
                    if r == t:
                        r = t
                cache[t] = r
            return r

        def B(b):
            if b[0] == "X":
                return ("X", T(b[1]))
            return b

        def PA(p):
            return tuple((e[0], T(e[1])) + tuple(e[2:]) if e[0] == "i" and e[1] is not None else e for e in p)

        def R(rs):
            if any(r[0] == "cell" and r[1][0] == "X" for r in rs):
                return frozenset(("cell", B(r[1])) if r[0] == "cell" else r for r in rs)
            return rs

        def V(v):
            if v is None:
                return None
            k = v[0]
            if k == "S":
                return ("S", T(v[1]), v[2])
            if k == "O":
                return ("O", v[1], T(v[2]), v[3], R(v[4]))
            if k == "A":
                return ("A", v[1], tuple(V(x) for x in v[2])) + v[3:]
            if k == "U":
                return ("U", v[1], V(v[2]))
            if k == "P":
                return ("P", B(v[1]), PA(v[2]), v[3])
            return v
        st.mem = {B(c): V(v) for c, v in st.mem.items()}
        for nid in list(st.nodes):
            n = st.nmut(nid)
            n.term = T(n.term) if n.term is not None else None
            n.imm = {k: V(v) for k, v in n.imm.items()}
            n.facts = tuple((T(a), T(b) if isinstance(b, tuple) else b, v) for a, b, v in n.facts)
            n.cnts = tuple((T(a), v) for a, v in n.cnts)
            n.contents = tuple((T(a) if isinstance(a, tuple) else a, V(v) if v is not None and v[0] != "n" else v) for a, v in n.contents)
            if n.layout:
                n.layout = V(n.layout)
        st.facts = {T(k): v for k, v in st.facts.items()}
        st.np2n = {T(k): v for k, v in st.np2n.items()}
        st.pays = frozenset(T(t) for t in st.pays)
        st.eff = tuple(tuple(T(x) if isinstance(x, tuple) else x for x in e) for e in st.eff)
        st.cbs = tuple(tuple(T(x) if isinstance(x, tuple) else x for x in e) for e in st.cbs)
        st.enums = {T(k): (T(v) if isinstance(v, tuple) else v) for k, v in st.enums.items()}
        fr = []
        for f in st.frames:
            if f.fn[0] == "#" and f.ctx:
                fr.append(f._replace(ctx=tuple((x[0], x[1], V(x[2])) + tuple(x[3:]) if isinstance(x, tuple) and x and x[0] == "step" else x for x in f.ctx)))
            else:
                fr.append(f)
        st.frames = tuple(fr)

    # ------------------------------------------------------------ stepping
    def step(self, st):
        top = st.frames[-1]
        if top.fn == "#seq":
            return self.step_seq(st)
        f = self.p.fns[top.fn]
        self.visited_fns.add(top.fn)
        b = f["blocks"][top.blk]
        span = ""
        for s in b["s"]:
            if s[0] == "=":
                span = s[3]
                v = self.rvalue(st, s[2], s[1][2], span)
                self.assign(st, s[1], v, span)
            elif s[0] == "dead":
                st.mem.pop(("L", len(st.frames) - 1, s[1]), None)
            elif s[0] == "setd":
                base, path, tid, plabs = self.resolve(st, s[1], s[3])
                v = self.load(st, base, path, tid, s[3], plabs)
                fs = v[2] if v is not None and v[0] == "A" else (None,) * len(self.p.fields(tid, s[2]))
                self.store(st, base, path, ("A", s[2], fs), s[3], plabs)
            elif s[0] == "copy_nonoverlapping":
                src = self.operand(st, s[1], s[4])
                dst = self.operand(st, s[2], s[4])
                self.havoc_through(st, dst, None, self.deep_labels(src, st), self.regs(src, st), ("copy", self.term(src, st)), s[4])
        return self.terminator(st, b["t"])

    def assign(self, st, pl, v, span):
        if not pl[1]:
            st.mem[("L", len(st.frames) - 1, pl[0])] = v
            return
        base, path, tid, plabs = self.resolve(st, pl, span)
        self.store(st, base, path, v, span, plabs)

    def goto(self, st, b):
        fr = st.frames[-1]
        st.frames = st.frames[:-1] + (fr._replace(blk=b),)
        return st

    def terminator(self, st, t):
        k = t[0]
        if k == "goto":
            return [self.goto(st, t[1])]
        if k == "switch":
            return self.switch(st, t)
        if k == "return":
            return self.do_return(st, t[1])
        if k == "resume":
            return self.unwind(st)
        if k in ("abort", "unreachable"):
            return []
        if k == "assert":
            v = self.operand(st, t[1], t[6])
            lv = self.labels(v)
            if any(isinstance(l, tuple) for l in lv):
                self.report("C06", "panic-on-unconfirmed", st, t[6], "a check that panics depends on a value read optimistically and not confirmed")
            tv = self.term(v, st)
            if tv is not None and tv[0] == "c" and tv[1] != int(t[2]):
                return self.panic(st, t[5], t[6], "assertion")
            return [self.goto(st, t[4])]
        if k == "drop":
            return self.drop(st, t)
        if k == "call":
            return self.call(st, t)
        raise Abort("terminator %s" % k)

    def switch(self, st, t):
        P, st.P = st.P, E0
        v = self.operand(st, t[1], t[5])
        st.P = P
        if v is not None and v[0] == "A":
            v = self.discr(st, v, t[4])
        if v is None or v[0] != "S":
            tm, labs = self.term(v, st) or self.fresh(), self.labels(v)
        else:
            tm, labs = v[1], v[2]
        st.dec = labs
        labs = labs | self.cl(st)
        if labs and not st.cont:
            st.P = st.P | labs
        c = self.eval_term(st, tm)
        vals = t[2]
        if c is not None:
            for (x, b) in vals:
                if x == c:
                    return [self.goto(st, b)]
            return [self.goto(st, t[3])]
        out = []
        isbool = self.T[t[4]]["k"] == "bool"
        neg = []
        for (x, b) in vals:
            s2 = st.copy()
            try:
                self.assume(s2, tm, x, labs, t[5]) if (isbool or True) and x in (0, 1) and self.boolish_or_bool(tm, isbool) else self.assume_val(s2, tm, x, labs, t[5])
                s2.note(t[5], "branch %s" % self.nice(tm, x)) if isbool else None
                out.append(self.goto(s2, b))
            except Dead:
                pass
            neg.append(x)
        # otherwise
        s2 = st
        try:
            if isbool:
                self.assume(s2, tm, 1 if neg == [0] else 0, labs, t[5])
            else:
                # an exhaustive enum has one value left
                left = self.remaining(s2, tm, neg)
                if left is not None:
                    if not left:
                        raise Dead()
                    if len(left) == 1:
                        self.assume_val(s2, tm, left[0], labs, t[5])
                for x in neg:
                    e = self.op("eq", *sorted((tm, ("c", x)), key=repr))
                    ev = self.eval_term(s2, e)
                    if ev == 1:
                        raise Dead()
                    s2.facts[e] = 0
            out.append(self.goto(s2, t[3]))
        except Dead:
            pass
        return out

    def nice(self, tm, x):
        return "%s=%s" % (tm[0], x)

    def boolish_or_bool(self, tm, isbool):
        return isbool

    def remaining(self, st, tm, neg):
        if tm[0] == "discr":
            dt = self.discr_ty.get(tm[1])
            if dt is not None:
                ds = [w["d"] for w in self.T[dt]["variants"]]
                return [d for d in ds if d not in neg and st.facts.get(self.op("eq", *sorted((tm, ("c", d)), key=repr))) != 0]
        return None

    discr_ty = {}

    def discr(self, st, v, t):
        if v is not None and v[0] == "O" and t is not None and self.T[t]["k"] == "adt" and self.T[t].get("adt") == "enum":
            self.discr_ty[v[2]] = t
        return super().discr(st, v, t)

    def assume_val(self, st, tm, x, labs, span):
        e = self.op("eq", *sorted((tm, ("c", x)), key=repr))
        c = self.eval_term(st, e)
        if c == 0:
            raise Dead()
        st.facts[e] = 1
        if tm[0] not in ("c",):
            st.facts[tm] = x

    # ------------------------------------------------------------ frames
    def push(self, st, key, args, dest, target, unwind, ctx=None):
        f = self.p.fns[key]
        d = len(st.frames)
        if d > 60:
            raise Abort("call depth")
        st.frames = st.frames + (Frame(key, 0, (dest, target), unwind, ctx),)
        if f.get("spread") and len(args) != f["argc"]:
            raise Abort("spread")
        for i, a in enumerate(args):
            st.mem[("L", d, i + 1)] = a
        return st

    def do_return(self, st, span):
        d = len(st.frames) - 1
        fr = st.frames[-1]
        v = st.mem.get(("L", d, 0))
        if v is None:
            v = ("A", 0, ())
        v = self.detach(st, v, d)
        if d == 0:
            self.exit(st, v, span)
            return []
        for c in list(st.mem):
            if c[0] == "L" and c[1] == d:
                del st.mem[c]
        st.frames = st.frames[:-1]
        if fr.ctx == "deferred":
            st.deferred -= 1
        if fr.ctx == "freecheck":
            pass
        if fr.ret is None:
            return [st]
        dest, target = fr.ret
        if dest is not None:
            self.assign(st, dest, v, span)
        if st.frames[-1].fn[0] == "#":
            return [st]
        if target is None:
            return []
        return [self.goto(st, target)]

    def detach(self, st, v, d):
        """promote pointers to locals of the returning frame that hold caller data"""
        return v

    def unwind(self, st):
        st.unw = True
        while True:
            fr = st.frames[-1]
            d = len(st.frames) - 1
            for c in list(st.mem):
                if c[0] == "L" and c[1] == d:
                    del st.mem[c]
            if fr.ctx == "deferred":
                st.deferred -= 1
            if d == 0:
                st.frames = ()
                st2 = st
                st2.frames = (fr,)
                self.exit_unwind(st2)
                return []
            st.frames = st.frames[:-1]
            u = fr.unwind
            if isinstance(u, int):
                return [self.goto(st, u)]
            if u in ("terminate", "unreachable"):
                return []

    def panic(self, st, unwind, span, why):
        if st.unw:
            return []
        if any(isinstance(l, tuple) for l in st.dec) and not st.cont:
            self.report("C06", "panic-on-unconfirmed", st, span, "a panic (%s) is decided by content read optimistically and not confirmed" % why)
        if st.cont:
            self.report("C06", "panic-on-contention", st, span, "the operation panics (%s) because another thread locked or changed a node" % why)
        if st.oom:
            self.report("C07", "panic-on-oom", st, span, "the operation panics (%s) because the allocator reported exhaustion" % why)
        return []

    def callback_panic(self, st, unwind, span):
        st.note(span, "the caller's closure panics")
        st.unw = True
        if isinstance(unwind, int):
            return [self.goto(st, unwind)]
        if unwind in ("terminate", "unreachable"):
            return []
        return self.unwind(st)

    # ------------------------------------------------------------ drops
    def step_seq(self, st):
        fr = st.frames[-1]
        steps = fr.ctx
        if not steps:
            st.frames = st.frames[:-1]
            return [self.goto(st, fr.ret[1])] if fr.ret[1] is not None else []
        s0 = steps[0]
        st.frames = st.frames[:-1] + (fr._replace(ctx=steps[1:]),)
        if s0[1] == "#unpin":
            st.guards = max(0, st.guards - 1)
            if st.guards == 0:
                st.after = 1
            return [st]
        return [self.push(st, s0[1], [s0[2]], None, None, "continue")]

    def drop(self, st, t):
        pl, target, unw, span = t[1], t[2], t[3], t[4]
        if not self.p.drop_keys(pl[2]):
            return [self.goto(st, target)]
        base, path, tid, plabs = self.resolve(st, pl, span)
        outs = self.drop_plan(st, base, path, tid, span)
        res = []
        for s2, steps in outs:
            if not steps:
                res.append(self.goto(s2, target))
            else:
                s2.frames = s2.frames + (Frame("#seq", 0, (None, target), unw, tuple(steps)),)
                res.append(s2)
        return res

    def drop_plan(self, st, base, path, tid, span, depth=0):
        """[(state, steps)]: the drop glue of a place, forking on enum variants that are not known"""
        if not self.p.drop_keys(tid) or depth > 6:
            return [(st, [])]
        x = self.T[tid]
        if x["k"] == "adt" and x.get("path") == "crossbeam_epoch::guard::Guard":
            return [(st, [("step", "#unpin", None)])]
        outs = [(st, [])]
        if x["k"] == "adt" and "drop" in x:
            outs = [(st, [("step", x["drop"], ("P", base, path, E0))])]
        if base[0] == "N":
            return outs
        if x["k"] == "adt" and x.get("adt") == "enum":
            v = self.rd(st, base, path)
            res = []
            if v is not None and v[0] == "A":
                variants = [v[1]]
            else:
                variants = list(range(len(x["variants"])))
            for i, vi in enumerate(variants):
                if not any(self.p.drop_keys(f["t"]) for f in x["variants"][vi]["f"]):
                    if len(variants) > 1:
                        s2 = st.copy()
                        try:
                            if v is not None:
                                self.assume_val(s2, ("discr", v[2]), x["variants"][vi]["d"], E0, span)
                            res.append((s2, []))
                        except Dead:
                            pass
                    else:
                        res.append((st, []))
                    continue
                s2 = st.copy() if len(variants) > 1 else st
                try:
                    if len(variants) > 1 and v is not None:
                        self.assume_val(s2, ("discr", v[2]), x["variants"][vi]["d"], E0, span)
                except Dead:
                    continue
                cur = [(s2, [])]
                for j, f in enumerate(x["variants"][vi]["f"]):
                    nxt = []
                    for s3, steps in cur:
                        for s4, st4 in self.drop_plan(s3, base, path + (("f", j, "", f["t"], vi, tid),), f["t"], span, depth + 1):
                            nxt.append((s4, steps + st4))
                    cur = nxt
                res += cur
            return res
        if x["k"] == "adt" and not x.get("local") and not (x["path"].startswith("core::option") or x["path"].startswith("core::result") or x["path"].startswith("core::ops")):
            return outs
        fs = self.p.fields(tid)
        for j, ft in enumerate(fs):
            if not self.p.drop_keys(ft):
                continue
            nxt = []
            for s3, steps in outs:
                for s4, st4 in self.drop_plan(s3, base, path + (("f", j, "", ft, 0, tid),), ft, span, depth + 1):
                    nxt.append((s4, steps + st4))
            outs = nxt
        return outs


def T2(t, ren):
    if not isinstance(t, tuple) or not t:
        return t
    if t[0] == "s":
        return ren.get(t, ("s", "?"))
    if t[0] in ("c",):
        return t
    return (t[0],) + tuple(T2(x, ren) if isinstance(x, tuple) else x for x in t[1:])
