"""What must hold when an operation ends, and which operations are analysed."""
from calls import *


class Checker(Caller):
    cas_root = False
    mutating = False
    ret_shape = None

    # -------------------------------------------------------------- return values
    def opt(self, st, v):
        """Option value: ('none',) / ('some', payload) / ('?',)"""
        if v is None:
            return ("?",)
        if v[0] == "A":
            return ("some", v[2][0]) if v[1] == 1 else ("none",)
        if v[0] == "O":
            d = self.eval_term(st, ("discr", v[2]))
            if d == 0:
                return ("none",)
            if d == 1:
                return ("some", self.project(v, ("f", 0, "", self.p.fields(v[1], 1)[0], 1, v[1]), None, st))
        return ("?",)

    def norm(self, t):
        while isinstance(t, tuple) and t and t[0] in ("conv", "ref", "deref"):
            t = t[1]
        if isinstance(t, tuple) and t and t[0] not in ("c", "s", "n", "k", "fn"):
            return (t[0],) + tuple(self.norm(x) if isinstance(x, tuple) else x for x in t[1:])
        return t

    def same(self, st, a, b):
        if a is None or b is None:
            return False
        x, y = self.norm(a), self.norm(b)
        if x == y:
            return True
        for k, v in st.facts.items():
            if v == 1 and k[0] == "eq":
                p, q = self.norm(k[1]), self.norm(k[2])
                if {repr(p), repr(q)} == {repr(x), repr(y)}:
                    return True
        return False

    def differ(self, st, a, b):
        x, y = self.norm(a), self.norm(b)
        for k, v in st.facts.items():
            if v == 0 and k[0] == "eq":
                p, q = self.norm(k[1]), self.norm(k[2])
                if {repr(p), repr(q)} == {repr(x), repr(y)}:
                    return True
        return False

    def fact_terms(self, st):
        pass

    # -------------------------------------------------------------- exits
    def exit_sub(self, st, v, span):
        """a recursive function returns: what its callers rely on"""
        self.count("sub-exit", "%s %s" % (st.frames[-1].fn, span))
        if v is not None and v[0] == "A" and v[1] == 1 and self.T[self.p.fns[st.frames[-1].fn]["locals"][0]]["path"] == "core::result::Result":
            return self.common_exit(st, span)
        labs = self.deep_labels(v, st) if v is not None else E0
        for b in st.mem:
            if b[0] == "X":
                labs = labs | self.labels(st.mem[b])
        if not st.cont:
            labs = labs | st.P
        if st.cont:
            self.report("C06", "result-after-contention", st, span, "a traversal returns normally although a node was found locked or changed")
        elif any(isinstance(l, tuple) and l[1] not in st.basis for l in labs):
            self.report("C01", "unconfirmed-result", st, span, "what a traversal collected or decided depends on content read optimistically that was not confirmed unchanged before it returns")
        self.common_exit(st, span)

    def exit(self, st, v, span):
        span = span or "exit"
        if st.basis:
            return self.exit_sub(st, v, span)
        self.count("exit", "%s %s" % (self.root, span))
        labs = self.deep_labels(v, st) if v is not None else E0
        if not st.cont:
            labs = labs | st.P
        for b in list(st.mem):
            # buffers of the caller that were filled on the way
            if b[0] == "X" and self.argterm(b[1]):
                labs = labs | (self.labels(st.mem[b]) - {"Z"})
        if st.cont:
            self.report("C06", "result-after-contention", st, span, "the operation returns although a node was found locked or changed and the attempt was not redone")
        elif any(isinstance(l, tuple) for l in labs):
            self.report("C01", "unconfirmed-result", st, span, "the result depends on content read optimistically that was not confirmed unchanged afterwards")
        if "Z" in labs:
            self.report("C06", "stale-result", st, span, "the result contains something collected by an attempt that was abandoned")
        self.common_exit(st, span)
        self.returns.append(1)
        if self.ret_shape:
            self.judge(st, v, span)

    def common_exit(self, st, span):
        how = "panics in the caller's closure" if st.unw else "returns"
        for i, n in st.nodes.items():
            if n.held and n.held[1] & 2 and not n.obs:
                self.report("C03", "lock-leaked", st, span, "the operation %s while it still holds a node locked" % how)
            if n.unl and not n.obs:
                self.report("C04", "unlinked-alive", st, span, "a node was taken out of the tree but not marked dead, so others may still change it")
            if n.unl and not n.dfr and not n.freed:
                self.report("C04", "unlinked-not-reclaimed", st, span, "a node was taken out of the tree but is never handed to reclamation")
            if n.obs and not n.unl and not self.exclusive:
                self.report("C04", "dead-but-linked", st, span, "a node was marked dead but is still linked into the tree")
            if n.obs and not (n.held and n.held[1] & 2) and not n.unl:
                pass
        self.check_leaks(st, span, "when the operation %s" % how)
        if st.unw and st.eff:
            pass

    def exit_unwind(self, st):
        self.count("unwind-exit", self.root)
        if st.trace:
            span = st.trace[1]
        else:
            span = "unwind"
        self.common_exit(st, span)

    # -------------------------------------------------------------- results against effects
    def judge(self, st, v, span):
        shape = self.ret_shape
        err = None
        val = v
        if shape.get("oom"):
            r = self.opt(st, v) if False else None
            if v is not None and v[0] == "A":
                if v[1] == 1:
                    err = True
                else:
                    err = False
                    val = v[2][0]
            elif v is not None and v[0] == "O":
                d = self.eval_term(st, ("discr", v[2]))
                err = None if d is None else bool(d)
                if d == 0:
                    val = self.project(v, ("f", 0, "", self.p.fields(v[1], 0)[0], 0, v[1]), None, st)
            if st.oom:
                if err is not True:
                    self.report("C07", "oom-swallowed", st, span, "the allocator reported exhaustion but the operation does not return the out-of-memory error")
                if st.lost or st.eff:
                    self.report("C07", "changed-on-oom", st, span, "the operation had already changed the map when the allocator reported exhaustion")
                return
            if err:
                self.report("C06", "error-without-oom", st, span, "the operation returns an error although the allocator did not fail")
                return
            if err is None:
                return
        elif st.oom and self.mutating:
            self.report("C07", "oom-hidden", st, span, "the allocator reported exhaustion but the operation has no way to say so")
        if not self.mutating or st.cont:
            return
        if shape["kind"] == "cas":
            return self.judge_cas(st, v, span)
        e = st.eff[0] if st.eff else None
        o = self.opt(st, val)
        self.count("result-vs-effect", "%s %s" % (self.root, span))
        if o[0] == "?":
            self.report("C14", "result-unknown", st, span, "what the operation reports is not tied to what it did")
            return
        rep_new = None
        if o[0] == "some":
            x = o[1]
            if shape["kind"] == "pair":
                if x is not None and x[0] == "A" and len(x[2]) == 2:
                    x, rn = x[2]
                    rep_new = self.opt(st, rn)
                else:
                    self.report("C14", "result-unknown", st, span, "what the operation reports is not tied to what it did")
                    return
            old = self.term(x, st)
        if e is None:
            if o[0] == "none":
                if shape.get("always"):
                    self.report("C14", "no-effect", st, span, "the operation reports that the key was new but stored nothing")
                return
            # no effect: the value must have been left as it is on purpose
            if shape["kind"] == "pair":
                if rep_new[0] == "none":
                    self.report("C14", "claims-removal", st, span, "the operation reports a removal that did not happen")
                    return
                if rep_new[0] == "some" and not self.same(st, self.term(rep_new[1], st), old):
                    self.report("C14", "claims-update", st, span, "the operation reports a new value but changed nothing")
                    return
                self.wanted(st, old, rep_new, span)
            elif shape.get("always"):
                nv = self.wanted_new(st, old, ("some",))
                if nv is not None and not any(self.same(st, w, old) for w in nv):
                    self.report("C14", "not-stored", st, span, "the operation reports the old value but did not store the new one, which may differ")
            else:
                self.report("C14", "claims-removal", st, span, "the operation reports a removal that did not happen")
            if not self.is_pay(old):
                self.report("C14", "old-not-seen", st, span, "the value reported as old is not the one found under the key")
            return
        kind, eo, en = e
        if kind == "ins":
            if o[0] != "none":
                self.report("C14", "ins-reported-old", st, span, "a new entry was added but the operation reports an old value")
            nv = self.wanted_new(st, None, ("none",))
            if nv is not None and not any(self.same(st, w, en) for w in nv):
                self.report("C14", "wrong-value", st, span, "the value stored is not the one supplied or computed")
            return
        if o[0] == "none":
            self.report("C14", "hidden-effect", st, span, "an existing entry was %s but the operation reports that there was none" % ("replaced" if kind == "rep" else "removed"))
            return
        if not self.same(st, old, eo):
            self.report("C14", "wrong-old", st, span, "the value reported as old is not the one that was %s" % ("replaced" if kind == "rep" else "removed"))
        if kind == "rep":
            if shape["kind"] == "old" and not shape.get("always"):
                self.report("C14", "replaced-not-removed", st, span, "the operation replaces the entry instead of removing it")
            nv = self.wanted_new(st, eo, ("some",))
            if nv is not None and not any(self.same(st, w, en) for w in nv):
                self.report("C14", "wrong-value", st, span, "the value stored is not the one supplied, or not the one computed from the value that was replaced")
            if shape["kind"] == "pair" and (rep_new[0] != "some" or not self.same(st, self.term(rep_new[1], st), en)):
                self.report("C14", "wrong-new", st, span, "the value reported as new is not the one that was stored")
        else:
            if shape.get("always"):
                self.report("C14", "removed", st, span, "an insertion removed an entry")
            if shape["kind"] == "pair":
                if rep_new[0] != "none":
                    self.report("C14", "wrong-new", st, span, "an entry was removed but the operation reports a new value")
                self.wanted(st, eo, rep_new, span)

    def is_pay(self, t):
        t = self.norm(t)
        return isinstance(t, tuple) and t and t[0] == "pay"

    def arg_ok(self, st, arg, old, form):
        """the callback argument stands for `old` (None: no entry)"""
        if self.ret_shape["kind"] == "pair":
            return self.same(st, arg, old)
        a = arg
        while isinstance(a, tuple) and a and a[0] == "ref":
            a = a[1]
        if not (isinstance(a, tuple) and a and a[0] == "agg"):
            return False
        if old is None:
            return a[1] == 0
        return a[1] == 1 and self.same(st, a[2], old)

    def wanted_new(self, st, old, form):
        """terms the stored value may be; None when nothing is known"""
        if self.ret_shape.get("value") is not None:
            return [self.ret_shape["value"]]
        out = []
        for (arg, rt) in st.cbs:
            if self.arg_ok(st, arg, old, form):
                if self.ret_shape["kind"] == "pair":
                    out.append(("fld", rt, 1, 0))
                else:
                    out.append(rt)
        return out

    def wanted(self, st, old, rep_new, span):
        """compute_if_present: the callback, given old, answered rep_new"""
        for (arg, rt) in st.cbs:
            if not self.same(st, arg, old):
                continue
            d = self.eval_term(st, ("discr", rt))
            if rep_new[0] == "none" and d == 0:
                return
            if rep_new[0] == "some" and d == 1 and self.same(st, ("fld", rt, 1, 0), self.term(rep_new[1], st)):
                return
        if self.ret_shape["kind"] == "pair":
            self.report("C14", "not-asked", st, span, "what was done is not what the closure answered for the value it was done to")

    # compare_exchange: Result<Option<V>, Option<V>>
    def judge_cas(self, st, v, span):
        self.count("result-vs-effect", "%s %s" % (self.root, span))
        sh = self.ret_shape
        e = st.eff[0] if st.eff else None
        if v is None or v[0] != "A":
            self.report("C15", "result-unknown", st, span, "success or failure is not tied to what was done")
            return
        ok = v[1] == 0
        o = self.opt(st, v[2][0])
        exp = sh["expected"]
        newarg = sh["new"]
        nd = self.eval_term(st, ("discr", newarg))
        nw = ("fld", newarg, 1, 0)
        if e is not None:
            kind, eo, en = e
            if not ok:
                self.report("C15", "changed-on-failure", st, span, "compare_exchange reports failure although it changed the entry")
            if eo is None or not self.same(st, eo, exp):
                self.report("C15", "changed-without-match", st, span, "compare_exchange changes an entry that is not known to hold the expected value")
            if kind == "ins":
                self.report("C15", "inserted", st, span, "compare_exchange adds an entry")
            if kind == "rep" and not self.same(st, en, nw):
                self.report("C15", "wrong-new", st, span, "compare_exchange stores something other than the new value")
            if kind == "rep" and nd == 0 or kind == "del" and nd == 1:
                self.report("C15", "wrong-kind", st, span, "compare_exchange %s although the new state asked for is the other one" % ("stores a value" if kind == "rep" else "removes the entry"))
            if ok:
                if o[0] == "?":
                    if self.same(st, self.term(v[2][0], st), newarg):
                        return
                    self.report("C15", "wrong-report", st, span, "the state reported on success is not the new state")
                elif o[0] == "none" and nd != 0 or o[0] == "some" and not self.same(st, self.term(o[1], st), nw):
                    self.report("C15", "wrong-report", st, span, "the state reported on success is not the new state")
            return
        # nothing changed
        pays = st.pays
        if ok:
            # only if the entry already holds exactly the new value and it is the expected one
            good = False
            for p in self.all_pays(st):
                if self.same(st, p, exp) and nd == 1 and (self.same(st, nw, p) or self.same(st, nw, exp)):
                    good = True
            if not good:
                self.report("C15", "success-without-change", st, span, "compare_exchange reports success although it changed nothing")
            return
        if o[0] == "some":
            x = self.term(o[1], st)
            if not self.is_pay(x) and not any(self.same(st, x, p) for p in self.all_pays(st)):
                self.report("C15", "wrong-current", st, span, "the value reported on failure is not the one found under the key")
            elif self.same(st, x, exp) and not self.unequal_seen(st, x, exp):
                self.report("C15", "failed-on-match", st, span, "compare_exchange fails although the entry holds the expected value")
            elif not self.unequal_seen(st, x, exp):
                self.report("C15", "failed-unchecked", st, span, "compare_exchange fails without having found that the entry differs from the expected value")
        elif o[0] == "none":
            if self.all_pays(st):
                self.report("C15", "hides-current", st, span, "compare_exchange reports that the key is absent although it found a value")
        else:
            self.report("C15", "result-unknown", st, span, "the current value is not what is reported on failure")

    def unequal_seen(self, st, x, exp):
        return self.differ(st, x, exp)

    def all_pays(self, st):
        return [("pay", t) for t in st.pays]


# ------------------------------------------------------------------ roots
def oom_type(p):
    """error type of the allocator trait"""
    for l in p.local:
        pass
    return None
