"""Dropping a map (C12): nothing else can reach the tree, every child met is drained or freed exactly once.

Obligations: a child handed out by the enumeration of a node is pending until it is
consumed: an entry by the drain callback, a sub-tree by a recursive call or by being
freed.  A recursive function takes over the obligations for what it is passed and must
have met them at every return.
"""
from rules import *


class DropChecker(Checker):
    def __init__(self, p, **kw):
        super().__init__(p, exclusive=True, **kw)

    def report(self, prop, rule, st, span, msg, fn=None):
        if prop == "C04":
            super().report("C12", rule, st, span, msg, fn)
        super().report(prop, rule, st, span, msg, fn)

    # st.iters: ("kid", nid) -> (np, key byte term) pending; ("ob", i) -> obligations of this activation
    def pend(self, st):
        return {k: v for k, v in st.iters.items() if k[0] == "kid"}

    def on_iter(self, st, nid, it, rng, span):
        self.count("enumeration", self.site(st, span))
        if len(rng) == 2 and rng != [("c", 0), ("c", 255)]:
            self.report("C12", "partial-enumeration", st, span, "only some of a node's children are visited while the map is dropped")

    def missing(self, st, span):
        for k, (np, b) in self.pend(st).items():
            self.report("C12", "child-skipped", st, span, "a child met while the map is dropped is neither drained nor freed")
            st.iters.pop(k)

    def on_child(self, st, nid, it, k, np, span):
        self.missing(st, span)
        self.count("child-obligation", self.site(st, span))
        st.iters = dict(st.iters)
        st.iters[("kid", nid)] = (np, k)
        st.iters[("enum", nid)] = "open"

    def on_end(self, st, nid, it, span):
        self.missing(st, span)
        st.iters = dict(st.iters)
        st.iters[("enum", nid)] = "done"

    def on_xfree(self, st, nid, span):
        n = st.nodes[nid]
        self.count("free-in-drop", self.site(st, span))
        if st.iters.get(("enum", nid)) != "done":
            self.report("C12", "freed-before-children", st, span, "a node is freed before all of its children were drained or freed")

    def leaves(self, v, ty, out, d=0):
        if v is None or d > 5:
            return
        if v[0] == "A":
            fs = self.p.fields(ty, v[1]) if ty is not None else []
            for i, x in enumerate(v[2]):
                self.leaves(x, fs[i] if i < len(fs) else None, out, d + 1)
        else:
            out.append((v, ty if ty is not None else (v[1] if v[0] == "O" else None)))

    def is_key(self, v, ty):
        t = v[1] if v[0] == "O" and isinstance(v[1], int) else ty
        return t is not None and self.T[t]["k"] == "array" and self.T[self.T[t]["to"]]["k"] == "uint"

    def key_ok(self, st, nid, kb, kt):
        """the key handed out is the node's path followed by the child's byte"""
        def has(t, f):
            return f(t) or isinstance(t, tuple) and any(has(x, f) for x in t[1:] if isinstance(x, tuple))
        byte = has(kt, lambda x: isinstance(x, tuple) and x and x[0] == "upd" and x[3] == kb)
        path = has(kt, lambda x: isinstance(x, tuple) and x == ("n", nid))
        return byte and path

    def on_entry(self, st, s, key, args, atys, span):
        lv = []
        for a, ty in zip(args, atys):
            self.leaves(a, ty, lv)
        keys = [v for v, ty in lv if self.is_key(v, ty)]
        s.iters = {}
        for v, ty in lv:
            tm = self.term(v, st) if v[0] != "P" else None
            for kk, (np, kb) in list(self.pend(st).items()):
                if tm == ("pay", np):
                    self.count("handed-on", self.site(st, span))
                    st.iters = dict(st.iters)
                    st.iters.pop(kk)
                    kt = None
                    if len(keys) == 1:
                        kt = self.term(keys[0], st)
                        if kt is None or not self.key_ok(st, kk[1], kb, kt):
                            self.report("C12", "wrong-key", st, span, "the key handed to the drain callback is not the path of the node followed by the child's byte")
                    s.iters[("ob", len(s.iters))] = ("drain", kk[1])
                elif tm == ("sub", np):
                    self.count("handed-on", self.site(st, span))
                    st.iters = dict(st.iters)
                    st.iters.pop(kk)
                    s.iters[("ob", len(s.iters))] = ("free", self.node_of(s, tm, span))
            nid = None
            if v[0] == "P" and v[1][0] == "N":
                nid = v[1][1]
            elif v[0] == "O" and st.np2n.get(v[2]) is not None and st.nodes[st.np2n[v[2]]].kind == "root":
                nid = st.np2n[v[2]]
            elif v[0] == "O" and self.is_self_term(v[2]) and ty is not None and self.p.is_node_ptr_ty(ty):
                nid = self.node_of(st, v[2], span)
                if nid not in s.nodes:
                    s.nodes[nid] = st.nodes[nid].copy()
                    s.np2n[v[2]] = nid
            if nid is not None and st.nodes[nid].kind == "root" and not any(k[0] == "enum" for k in st.iters):
                s.iters[("ob", len(s.iters))] = ("free", nid)
                if st.nodes[nid].freed:
                    self.report("C12", "double-free", st, span, "the root is freed twice")
                st.nmut(nid).freed = 1
        s.basis = s.basis | frozenset(s.nodes)
        # scalars of an entry are the entry's value
        self.keep_entry(s, args, key)

    def keep_entry(self, s, args, key):
        ob = [v for k, v in s.iters.items() if k[0] == "ob" and v[0] == "drain"]
        if not ob:
            return
        names = {}

        def m(v, ty, d=0):
            if v is None or d > 5:
                return v
            if v[0] == "A":
                fs = self.p.fields(ty, v[1]) if ty is not None else []
                return ("A", v[1], tuple(m(x, fs[i] if i < len(fs) else None, d + 1) for i, x in enumerate(v[2]))) + v[3:]
            if v[0] == "S" and ty is not None and self.T[ty]["k"] == "uint":
                return ("S", ("entry", "value"), v[2])
            if v[0] == "O" and self.is_key(v, ty):
                return ("O", v[1], ("entry", "key"), v[3], v[4])
            return v
        f = self.p.fns[key]
        for i in range(len(args)):
            ty = f["locals"][i + 1]
            if self.T[ty]["k"] == "uint":
                # a bare word next to the entry (a depth): the value is the one that carried the payload
                if self.term(args[i], s) is None or self.term(args[i], s)[0] != "pay":
                    continue
            s.mem[("L", 0, i + 1)] = m(s.mem[("L", 0, i + 1)], ty)

    def on_drain(self, st, parts, terms, span):
        self.count("drain", self.site(st, span))
        for kk, (np, kb) in list(self.pend(st).items()):
            if ("pay", np) in terms:
                st.iters = dict(st.iters)
                st.iters.pop(kk)
                i = 1 - terms.index(("pay", np)) if len(terms) == 2 else None
                if i is not None and not self.key_ok(st, kk[1], kb, terms[i]):
                    self.report("C12", "wrong-key", st, span, "the key handed to the drain callback is not the path of the node followed by the child's byte")
                return
        obs = [(k, v) for k, v in st.iters.items() if k[0] == "ob" and v[0] == "drain"]
        if obs:
            self.count("obligation-checked", "%s drain" % self.root)
            if terms != [("entry", "key"), ("entry", "value")]:
                self.report("C12", "wrong-entry", st, span, "the drain callback is given something other than the entry's key and value")
            st.iters = dict(st.iters)
            st.iters.pop(obs[0][0])
            st.iters[("did", 0)] = 1
            return
        if ("did", 0) in st.iters:
            self.report("C12", "drained-twice", st, span, "the drain callback is called twice for one entry")
            return
        self.report("C12", "drain-unknown", st, span, "the drain callback is called for something that is not an entry just met")

    def exit_sub(self, st, v, span):
        self.count("sub-exit", "%s %s" % (st.frames[-1].fn, span))
        if v is not None and v[0] == "A" and v[1] == 1 and self.T[self.p.fns[st.frames[-1].fn]["locals"][0]].get("path") == "core::result::Result":
            self.report("C12", "gives-up", st, span, "the traversal that drops the map stops with an error although nobody else can reach the tree")
        self.met(st, span)
        self.common_exit(st, span)

    def met(self, st, span):
        self.missing(st, span)
        for k, v in list(st.iters.items()):
            if k[0] != "ob":
                continue
            self.count("obligation-checked", "%s %s" % (self.p.fns[st.frames[-1].fn]["path"], v[0]))
            if v[0] == "drain":
                self.report("C12", "not-drained", st, span, "an entry is passed over without calling the drain callback")
            elif v[1] in st.nodes and not st.nodes[v[1]].freed:
                self.report("C12", "not-freed", st, span, "a node is not returned to the allocator when the map is dropped")

    def exit(self, st, v, span):
        span = span or "exit"
        if st.basis:
            return self.exit_sub(st, v, span)
        self.count("exit", self.root)
        self.met(st, span)
        for i, n in st.nodes.items():
            if n.kind == "root" and not n.freed:
                self.report("C12", "not-freed", st, span, "the root is not returned to the allocator when the map is dropped")
        if not any(n.kind == "root" for n in st.nodes.values()):
            self.report("C12", "root-not-visited", st, span, "dropping the map does not visit the root")
        self.common_exit(st, span)
        self.returns.append(1)

    def panic(self, st, unwind, span, why):
        self.count("panic-path", self.site(st, span))
        return super().panic(st, unwind, span, why)


def drop_roots(p):
    out = []
    for l in p.local:
        if l.get("trait") == "core::ops::drop::Drop" and l["key"] in p.fns and "blocks" in p.fns[l["key"]]:
            f = p.fns[l["key"]]
            pt = p.pointee(f["locals"][1])
            if pt is None or not p.is_local_adt(pt):
                continue
            if owns_root(p, pt):
                out.append(l["key"])
    return out


def owns_root(p, ty):
    """a struct with a bare pointer to a node and the allocator: the tree itself"""
    fs = p.fields(ty)
    return any(p.is_node_ptr_ty(t) for t in fs) and len(fs) >= 3
