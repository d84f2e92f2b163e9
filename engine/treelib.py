"""What library functions do to bytes, slices, iterators and keys, for the tree walk analysis."""
from treepath import *

ANY = ("X", ("any",))
ITERS = ("IT", "KIDS", "ENUM", "MAP", "ZIP", "TAKE", "SKIP", "FILTER", "TAKEWHILE", "SKIPWHILE", "RNG", "RREF", "OPQ", "COPIED", "CHAIN", "PEEK", "FLAT")
LESS, EQUAL, GREATER = ("A", 0, ()), ("A", 1, ()), ("A", 2, ())
IDENT = ("core::hint::black_box", "core::convert::identity", "core::ptr::from_ref", "core::ptr::from_mut", "core::slice::<impl [T]>::as_ptr", "core::slice::<impl [T]>::as_mut_ptr",
         "core::slice::<impl [T]>::as_slice", "core::array::<impl [T; N]>::as_slice", "core::array::<impl [T; N]>::as_mut_slice", "core::borrow::Borrow::borrow",
         "core::mem::ManuallyDrop::<T>::new")


class Lib(Tree):
    def model(self, st, c, p, args, atys, rt):
        a0 = args[0] if args else None
        name = p.rsplit("::", 1)[-1]
        local = c.get("key") in self.p.fns and self.p.fns[c["key"]].get("local")
        if a0 is not None and a0[0] == "A" and not local:
            tp = self.T[atys[0]].get("path") if name in ("branch", "from_residual") and "try_trait" in p else None
            if name == "branch" and tp == "core::result::Result":
                return [(st, ("A", 0, a0[2]) if a0[1] == 0 else ("A", 1, (("A", 1, a0[2]),)))]
            if name == "branch" and tp == "core::option::Option":
                return [(st, ("A", 0, a0[2]) if a0[1] == 1 else ("A", 1, (("A", 0, ()),)))]
            if name == "from_residual" and tp == self.T[rt].get("path") == "core::result::Result" and a0[1] == 1 and self.p.fields(atys[0], 1)[0] == self.p.fields(rt, 1)[0]:
                return [(st, ("A", 1, a0[2]))]
        if p in IDENT:
            return [(st, a0)]
        if "panicking" in p or p.endswith("unwrap_failed") or p.endswith("expect_failed") or p.startswith("core::slice::index::slice_") or p.startswith("std::rt::begin_panic"):
            self.panic(st, "a panic can be reached")
            return []
        if p.startswith(("core::fmt", "alloc::fmt", "std::io")):
            return [(st, None)]
        if p in ("core::hint::assert_unchecked", "core::intrinsics::assume"):
            return [(s, UNIT) for s in (self.assume(st, a0[1], True) if a0 is not None and a0[0] == "B" else [st])]
        if p in ("core::intrinsics::cold_path", "core::hint::spin_loop", "core::intrinsics::likely", "core::intrinsics::unlikely"):
            return [(st, a0 if args else UNIT)]
        if p == "core::hint::unreachable_unchecked":
            self.panic(st, "code declared unreachable can be reached")
            return []
        if local:
            if name == "next" and p.startswith("core::iter::") and a0 is not None:
                it = self.deref_all(st, a0)
                if it is not None and it[0] in ITERS:
                    return self.iters(st, c, p, name, args, atys, rt)
            if not p.startswith("core::iter::traits::iterator::Iterator::"):
                return None
        if p.endswith("precondition_check"):
            return [(st, UNIT)]
        if p.startswith("core::alloc::layout::"):
            return [(st, ("A", 0, (ANY,)) if self.T[rt].get("path") == "core::result::Result" else ANY)]
        if p in ("core::mem::size_of", "core::mem::align_of", "core::mem::size_of_val", "core::mem::needs_drop"):
            return [(st, ANY)]
        if "::atomic::" in p:
            if name.startswith("compare_exchange") or name == "fetch_update":
                return [(st, ("A", 0, (ANY,))), (st.copy(), ("A", 1, (ANY,)))]
            return [(st, UNIT if name == "store" else ANY)]
        if p.startswith("core::cell::"):
            return [(st, {"set": UNIT}.get(name, ANY if name != "new" else ("X", ("cell",))))]
        if p.startswith("crossbeam_epoch::"):
            return [(st, UNIT if name.startswith("defer") or name == "flush" else ("X", ("guard",)))]
        if p.startswith("alloc::vec::Vec"):
            if name in ("new", "with_capacity"):
                return [(st, ("X", ("vec",)))]
            if name in ("push", "clear"):
                return [(st, UNIT)]
            return None
        if p in ("core::ops::deref::Deref::deref", "core::ops::deref::DerefMut::deref_mut") and a0 is not None:
            pt = self.p.pointee(atys[0])
            if pt is not None and "ManuallyDrop" in str(self.T[pt].get("path")):
                return None         # its body is followed
            v = a0
            if v[0] == "R":
                w = self.rd(st, v[1], v[2], None)
                if w is not None and w[0] == "X":
                    return [(st, ("X", ("deref", w[1])))]
                if w is not None and w[0] == "A" and len(w[2]) == 1:
                    return [(st, w[2][0])]
            return [(st, v)] if v[0] == "X" else None
        if p.startswith("core::mem::") or p.startswith("core::ptr::"):
            r = self.mem_model(st, p, name, args, atys, rt)
            if r is not None:
                return r
        if p == "core::clone::Clone::clone" and a0 is not None:
            v = self.rd(st, a0[1], a0[2], self.p.pointee(atys[0])) if a0[0] == "R" else ("X", ("clone", a0[1])) if a0[0] == "X" else None
            return [(st, v)]
        if p.startswith(("core::cmp::PartialEq::", "core::cmp::PartialOrd::", "core::cmp::Ord::")) and len(args) == 2 and name in ("eq", "ne", "lt", "le", "gt", "ge", "cmp", "partial_cmp"):
            r = self.order(st, name, args, atys)
            if r is not None:
                return r
        if name in ("min", "max") and p.startswith("core::cmp::") and len(args) == 2 and self.lin(a0) and self.lin(args[1]):
            out = []
            for val in (True, False):
                for s in self.assume(st.copy(), ("le", a0, args[1]), val):
                    out.append((s, a0 if val == (name == "min") else args[1]))
            return out
        if p.startswith("core::num::"):
            r = self.nums(st, p, name, args, atys, rt)
            if r is not None:
                return r
        if p.startswith("core::convert::") and len(args) == 1 and name in ("from", "into"):
            return [(st, self.conv(a0))] if not (c.get("key") in self.p.fns and "blocks" in self.p.fns[c["key"]] and a0 is not None and a0[0] not in ("X", "I", "Y", "PAY")) else None
        if p.startswith("core::convert::AsRef") or p.startswith("core::convert::AsMut"):
            return [(st, a0)] if a0 is not None and a0[0] in ("SL", "R") and self.toslice(st, a0) is not None else None
        if p.startswith("core::convert::TryFrom") or p.startswith("core::convert::TryInto"):
            # a slice of the right length as an array
            v = self.toslice(st, a0)
            x = self.T[rt]
            if v is not None and isinstance(v[3], int) and isinstance(v[4], int) and x["k"] == "adt":
                to = self.T[self.p.fields(rt, 0)[0]]
                if to["k"] == "array" and to.get("len") is not None:
                    if v[4] - v[3] != to["len"]:
                        return [(st, ("A", 1, (None,)))]
                    e = self.seq(st, v)
                    return [(st, ("A", 0, (("A", 0, tuple(e)),)))] if e is not None else None
            return None
        if p.startswith(("core::slice::", "core::array::", "core::ops::index::")):
            r = self.slices(st, c, p, name, args, atys, rt)
            if r is not None:
                return r
        if p.startswith(("core::iter::", "core::ops::range::")):
            r = self.iters(st, c, p, name, args, atys, rt)
            if r is not None:
                return r
        return None

    # ------------------------------------------------------------ pointers
    def deref_all(self, st, v):
        n = 0
        while v is not None and v[0] == "R" and n < 5:
            v = self.rd(st, v[1], v[2], None)
            n += 1
        return v

    def mem_model(self, st, p, name, args, atys, rt):
        a0 = args[0] if args else None
        if p in ("core::mem::replace", "core::ptr::replace", "core::mem::take") and a0 is not None and a0[0] == "R":
            old = self.load(st, a0[1], a0[2], rt)
            new = args[1] if len(args) > 1 else None
            if p == "core::mem::take":
                x = self.T[rt]
                new = N(0) if x["k"] in ("uint", "int") else NONE if x.get("path") == "core::option::Option" else FALSE if x["k"] == "bool" else None
            self.store(st, a0[1], a0[2], new)
            return [(st, old)]
        if p in ("core::mem::swap", "core::ptr::swap") and a0 is not None and args[1] is not None and a0[0] == args[1][0] == "R":
            x, y = self.load(st, a0[1], a0[2], None), self.load(st, args[1][1], args[1][2], None)
            self.store(st, a0[1], a0[2], y)
            self.store(st, args[1][1], args[1][2], x)
            return [(st, UNIT)]
        P = self.ptr(a0) if a0 is not None and a0[0] in ("R", "A") else None
        if name in ("read", "read_unaligned", "read_volatile") and P is not None:
            return [(st, self.load(st, P[0], P[1], rt))]
        if name in ("write", "write_unaligned", "write_volatile") and P is not None:
            self.store(st, P[0], P[1], args[1])
            return [(st, UNIT)]
        if name in ("write_bytes", "drop_in_place"):
            return [(st, UNIT)]
        if p in ("core::mem::forget", "core::mem::drop"):
            return [(st, UNIT)]
        if name == "is_null" and a0 is not None and a0[0] in ("R", "SL"):
            return [(st, FALSE)]
        if p == "core::ptr::non_null::NonNull::<T>::new" and a0 is not None and (a0[0] in ("R", "SL") or a0[0] == "A" and P is not None):
            return [(st, some(("A", 0, (a0,))))]
        if "NonNull" in p and name in ("as_ptr", "as_ref", "as_mut", "cast", "from", "new_unchecked", "dangling"):
            return None
        if name in ("cast", "cast_mut", "cast_const", "as_ref_unchecked") and a0 is not None and a0[0] in ("R", "SL"):
            return [(st, a0)]
        if name in ("as_ref", "as_mut") and a0 is not None and a0[0] == "R" and self.T[rt].get("path") == "core::option::Option":
            return [(st, some(a0))]
        if name in ("slice_from_raw_parts", "slice_from_raw_parts_mut") and a0 is not None:
            if a0[0] == "SL":
                return [(st, self.reslice(a0, args[1]))]
            if a0[0] == "R" and a0[1][0] != "N":
                return [(st, self.make_slice(st, a0, args[1]))]
            return [(st, a0)]
        if name in ("add", "offset", "sub") and a0 is not None and a0[0] in ("R", "SL") and args[1] is not None:
            sg = -1 if name == "sub" else 1
            if a0[0] == "SL":
                e = self.plus(self.iv(a0[3]), args[1], sg)
                return [(st, ("R", a0[1], a0[2] + (("x", e),)))] if e is not None else None
            if a0[2] and a0[2][-1][0] == "x":
                e = self.plus(a0[2][-1][1], args[1], sg)
                return [(st, ("R", a0[1], a0[2][:-1] + (("x", e),)))] if e is not None else None
        return None

    def reslice(self, v, n):
        hi = self.plus(self.iv(v[3]), n)
        return ("SL", v[1], v[2], v[3], self.vi(hi)) if hi is not None else None

    # ------------------------------------------------------------ comparisons
    def bytes_of(self, st, v):
        """the bytes of a key, most significant first, whatever form it has"""
        e = self.seq(st, v)
        if e is not None:
            return tuple(e)
        v = self.deref_all(st, v)
        if v is None:
            return None
        if v[0] == "A" and v[2]:
            return tuple(v[2])
        if v[0] == "X":
            return self.be_bytes(st, v[1])
        return None

    def be_bytes(self, st, t):
        t = self.norm(t)
        if isinstance(t, tuple) and t and t[0] == "be":
            return t[1]
        if isinstance(t, tuple) and t and t[0] == "low":
            b = self.be_bytes(st, t[2])
            return (N(0),) * (KEY - t[1]) + tuple(b[-t[1]:]) if b is not None else None
        if isinstance(t, tuple) and t and t[0] == "bswap":
            b = self.be_bytes(st, t[1])
            return tuple(reversed(b)) if b is not None else None
        if isinstance(t, tuple) and t and (t[0] == "any" or has(t, lambda q: q == ("any",))):
            return None
        f = t[1] if isinstance(t, tuple) and t and t[0] == "arg" else t
        return tuple(self.byte(st, ("k", f, i)) for i in range(KEY))

    def order(self, st, name, args, atys):
        x, y = [self.deref_all(st, v) for v in args]
        if x is None or y is None:
            return None
        if self.lin(x) and self.lin(y):
            if name in ("cmp", "partial_cmp"):
                out = []
                for s in self.assume(st.copy(), ("lt", x, y), True):
                    out.append((s, LESS))
                for s in self.assume(st.copy(), ("eq", x, y), True):
                    out.append((s, EQUAL))
                for s in self.assume(st.copy(), ("lt", y, x), True):
                    out.append((s, GREATER))
                return [(s, v if name == "cmp" else some(v)) for s, v in out]
            return [(st, self.compare(st, name.capitalize(), x, y))]
        if x[0] == "A" and y[0] == "A" and not x[2] and not y[2] and name in ("eq", "ne"):
            return [(st, TRUE if (x[1] == y[1]) == (name == "eq") else FALSE)]
        if x == ANY or y == ANY:
            return [(st, ("B", ("any",)))] if name not in ("cmp", "partial_cmp") else None
        if x[0] in ("PAY",) or y[0] in ("PAY",):
            return [(st, self.compare(st, name.capitalize(), x, y))] if name in ("eq", "ne") else None
        if x[0] == "X" and y[0] == "X" and not self.keyish(x) and not self.keyish(y):
            return [(st, self.compare(st, name.capitalize(), x, y))] if name in ("eq", "ne") else None
        a, b = self.bytes_of(st, args[0]), self.bytes_of(st, args[1])
        if a is None or b is None or not all(self.lin(q) for q in a + b):
            return None
        return self.seq_order(st, name, a, b)

    def keyish(self, v):
        t = self.norm(v[1])
        return isinstance(t, tuple) and t and t[0] in ("be", "arg", "bswap")

    def seq_order(self, st, name, a, b):
        if name in ("eq", "ne"):
            if len(a) != len(b):
                return [(st, FALSE if name == "eq" else TRUE)]
            if self.lex_known(st, a, b, True) or self.lex_known(st, b, a, True):
                return [(st, FALSE if name == "eq" else TRUE)]
            out = []
            st.gh["cmp"] = (tuple(a), tuple(b))
            cur = [st]
            for i in range(len(a)):
                nxt = []
                for s in cur:
                    # bytes may have been merged on the way: the state keeps the current names
                    x, y = s.gh["cmp"][0][i], s.gh["cmp"][1][i]
                    r = self.decide(s, ("eq", x, y))
                    if r is True:
                        nxt.append(s)
                        continue
                    if r is False:
                        out.append((s, FALSE if name == "eq" else TRUE))
                        continue
                    for s2 in self.assume(s.copy(), ("eq", x, y), False):
                        out.append((s2, FALSE if name == "eq" else TRUE))
                    nxt += self.assume(s, ("eq", x, y), True)
                cur = nxt
            for s in cur + [s for s, v in out]:
                s.gh.pop("cmp", None)
            return out + [(s, TRUE if name == "eq" else FALSE) for s in cur]
        if name in ("cmp", "partial_cmp"):
            out = []
            for s in self.assume(st.copy(), ("lex", a, b, True), True):
                out.append((s, LESS))
            for s in self.assume(st.copy(), ("lex", b, a, True), True):
                out.append((s, GREATER))
            eq = st.copy()
            for s, v in self.seq_order(eq, "eq", a, b):
                if v == TRUE:
                    out.append((s, EQUAL))
            return [(s, v if name == "cmp" else some(v)) for s, v in out]
        c = {"lt": ("lex", a, b, True), "le": ("lex", a, b, False), "gt": ("lex", b, a, True), "ge": ("lex", b, a, False)}[name]
        r = self.decide(st, c)
        return [(st, ("B", c if r is None else r))]

    def lexdec(self, st, a, b):
        """-1: a < b, 0: equal, 1: a > b, as far as the first len(a) bytes tell; '<=' , '>=' ; None"""
        le = ge = True
        for x, y in zip(a, b):
            if x is None or y is None:
                return None
            if le and self.ent_le(st, x, y, -1):
                return -1
            if ge and self.ent_le(st, y, x, -1):
                return 1
            le = le and self.ent_le(st, x, y)
            ge = ge and self.ent_le(st, y, x)
            if not le and not ge:
                return None
        return 0 if le and ge else "<=" if le else ">="

    def lex_known(self, st, a, b, strict):
        """a < b (or a <= b) is certain"""
        d = self.lexdec(st, a, b)
        if d == -1 or not strict and d in (0, "<="):
            return True
        for (x, y, s) in st.gh.get("lex", ()):
            if (s or not strict) and len(x) == len(a) and len(y) == len(b):
                # a <= x < y <= b
                d1, d2 = (0 if x == a else self.lexdec(st, a, x)), (0 if y == b else self.lexdec(st, y, b))
                if d1 in (-1, 0, "<=") and d2 in (-1, 0, "<="):
                    return True
            elif s and len(x) == len(y) < min(len(a), len(b)):
                # the first bytes tell already
                d1, d2 = (0 if x == a[:len(x)] else self.lexdec(st, a[:len(x)], x)), (0 if y == b[:len(x)] else self.lexdec(st, y, b[:len(x)]))
                if d1 in (-1, 0, "<=") and d2 in (-1, 0, "<="):
                    return True
        return False

    def assume(self, st, c, val):
        if c is not None and c is not True and c is not False:
            if c[0] == "any":
                return [st]
            if c[0] == "lex":
                a, b, strict = c[1], c[2], c[3]
                if not val:
                    a, b, strict = b, a, not strict
                if self.lex_known(st, b, a, not strict):
                    return []
                if not self.lex_known(st, a, b, strict):
                    st.gh["lex"] = tuple(sorted(set(st.gh.get("lex", ())) | {(a, b, strict)}, key=repr))
                return [st]
            if c[0] in ("and", "or"):
                if (c[0] == "and") == val:
                    return [s2 for s in self.assume(st, c[1], val) for s2 in self.assume(s, c[2], val)]
                return self.assume(st.copy(), c[1], val) + [s2 for s in self.assume(st.copy(), c[1], not val) for s2 in self.assume(s, c[2], val)]
        out = super().assume(st, c, val)
        if st.gh.get("lex"):
            out = [s for s in out if self.lex_ok(s)]
        return out

    def lex_ok(self, st):
        for (x, y, s) in st.gh.get("lex", ()):
            d = self.lexdec(st, x, y)
            if d == 1 or s and d in (0, ">="):
                return False
        return True

    def assume_other(self, st, c, val):
        for a, b in ((c[1], c[2]), (c[2], c[1])) if len(c) > 2 else ():
            if a is not None and a[0] == "X" and a[1][0] == "count" and b is not None and b[0] == "I":
                # count == 0, or count < 1, is known now
                if c[0] == "eq" and b[1] == 0 and val or c[0] == "le" and (a is c[1] and b[1] == 0 and val or a is c[2] and b[1] == 1 and not val):
                    self.on_empty(st, a[1][1])
                return [st]
        return super().assume_other(st, c, val)

    def compare(self, st, op, a, b):
        if a is not None and b is not None and (has(a, lambda q: q == ("any",)) or has(b, lambda q: q == ("any",))):
            return ("B", ("any",))
        if a is not None and b is not None and a[0] == "X" and b[0] == "X" and op not in ("Eq", "Ne") and (self.keyish(a) or self.keyish(b)):
            x, y = self.be_bytes(st, a[1]), self.be_bytes(st, b[1])
            if x and y:
                c = {"Lt": ("lex", x, y, True), "Le": ("lex", x, y, False), "Gt": ("lex", y, x, True), "Ge": ("lex", y, x, False)}[op]
                r = self.decide(st, c)
                return ("B", c if r is None else r)
        return super().compare(st, op, a, b)

    # ------------------------------------------------------------ numbers
    def nums(self, st, p, name, args, atys, rt):
        a = args[0] if args else None
        b = args[1] if len(args) > 1 else None
        if name in ("to_be_bytes", "to_le_bytes", "to_ne_bytes") and a is not None:
            n = self.T[rt].get("len")
            if a[0] == "X" and n and n < KEY and a[1][0] == "low" and a[1][1] == n:
                e = self.be_bytes(st, a[1][2])
                if e is not None:
                    e = tuple(e[-n:])
                    return [(st, ("A", 0, e if name == "to_be_bytes" else tuple(reversed(e))))]
            if a[0] == "X" and n == KEY:
                e = self.be_bytes(st, a[1])
                if e is None:
                    return [(st, None)]
                return [(st, ("A", 0, e if name == "to_be_bytes" else tuple(reversed(e))))]
            if a[0] == "I" and n:
                e = tuple(N(x) for x in a[1].to_bytes(n, "big"))
                return [(st, ("A", 0, e if name == "to_be_bytes" else tuple(reversed(e))))]
            return [(st, None)]
        if name in ("from_be_bytes", "from_le_bytes", "from_ne_bytes"):
            if a is None:
                return [(st, None)]
            if a[0] == "X":
                return [(st, ("X", ("be" + ("" if name == "from_be_bytes" else "-reversed"), a[1])))]
            e = tuple(a[2]) if a[0] == "A" else None
            if e is None or any(x is None for x in e):
                return [(st, None)]
            if name != "from_be_bytes":
                e = tuple(reversed(e))
            if len(e) == KEY and all(x[0] == "Y" and x[2] == 0 and x[1][0] == "k" for x in e) and len({x[1][1] for x in e}) == 1 and [x[1][2] for x in e] == list(range(KEY)):
                f = e[0][1][1]
                return [(st, ("X", ("arg", f) if isinstance(f, int) else f))]
            return [(st, ("X", ("be", e)))]
        if a is not None and a[0] == "X" and name in ("swap_bytes", "to_be", "from_be"):
            t = a[1]
            return [(st, ("X", t[1] if t[0] == "bswap" else ("bswap", t)))]
        if a is not None and a[0] == "X" and name in ("to_le", "from_le"):
            return [(st, a)]
        if a is not None and b is not None and self.lin(a) and self.lin(b):
            if name in ("wrapping_add", "wrapping_sub", "unchecked_add", "unchecked_sub"):
                return [(st, self.binop(st, "Add" if "add" in name else "Sub", a, b, rt, atys[0]))]
            if name in ("saturating_sub",):
                out = []
                for val in (True, False):
                    for s in self.assume(st.copy(), ("le", b, a), val):
                        out.append((s, self.plus(a, b, -1) if val else N(0)))
                return out
            if name == "saturating_add":
                r = self.plus(a, b)
                top = (1 << (8 * self.T[rt].get("size", 8))) - 1
                out = []
                if r is None:
                    return None
                for val in (True, False):
                    for s in self.assume(st.copy(), ("le", r, N(top)), val):
                        out.append((s, r if val else N(top)))
                return out
            if name in ("checked_add", "checked_sub"):
                sub = name == "checked_sub"
                r = self.plus(a, b, -1 if sub else 1)
                if r is None:
                    return None
                top = (1 << (8 * (self.T[atys[0]].get("size") or 8))) - 1
                out = []
                for val in (True, False):
                    for s in self.assume(st.copy(), ("le", N(0), r) if sub else ("le", r, N(top)), val):
                        out.append((s, some(r) if val else NONE))
                return out
        if a is not None and a[0] == "X":
            return [(st, ("X", ("num", name) + tuple(args)))] if all(x is not None for x in args) else [(st, None)]
        return None

    # ------------------------------------------------------------ slices
    def toslice(self, st, v):
        n = 0
        while v is not None and v[0] == "R" and n < 5:
            w = self.rd(st, v[1], v[2], None)
            if w is None:
                return None
            if w[0] == "A":
                return ("SL", v[1], v[2], 0, len(w[2]))
            v = w
            n += 1
        return v if v is not None and v[0] == "SL" else None

    def rng(self, i, ty):
        """(lo, hi) of a range value; None: to the end"""
        x = self.T[ty] if ty is not None else {}
        q = x.get("path", "")
        if i is None:
            return None
        if q.endswith("RangeFull"):
            return N(0), None
        if i[0] == "RNG":
            return i[1], i[2]
        if i[0] != "A":
            return None
        if q.endswith("::Range"):
            return i[2][0], i[2][1]
        if q.endswith("::RangeTo"):
            return N(0), i[2][0]
        if q.endswith("::RangeFrom"):
            return i[2][0], None
        if q.endswith("::RangeInclusive"):
            return i[2][0], self.plus(i[2][1], N(1))
        if q.endswith("::RangeToInclusive"):
            return N(0), self.plus(i[2][0], N(1))
        return None

    def sub(self, st, v, e, cell, path, tid):
        if cell[0] == "BUF":
            return None
        return super().sub(st, v, e, cell, path, tid)

    def slen(self, v):
        return self.plus(self.iv(v[4]), self.iv(v[3]), -1)

    def elem(self, st, v, i, how):
        """reference to an element: how is 'index' (panics), 'get' or 'unchecked'"""
        if i is None:
            if how == "get":
                return [(st, some(("R", v[1], v[2] + (("x", ("?",)),)))), (st.copy(), NONE)]
            return [(st, ("R", v[1], v[2] + (("x", ("?",)),)))]
        n = self.slen(v)
        out = []
        c = ("lt", i, n) if n is not None and self.lin(i) and self.lin(n) else None
        pos = self.plus(self.iv(v[3]), i)
        ok = ("R", v[1], v[2] + (("x", pos),)) if pos is not None else None
        for s in self.assume(st.copy(), c, False) if how != "unchecked" or c is not None else []:
            if how == "get":
                out.append((s, NONE))
            else:
                self.outside(s, v, i)
        for s in self.assume(st.copy(), c, True):
            out.append((s, some(ok) if how == "get" else ok))
        return out

    def outside(self, st, v, i):
        self.panic(st, "an index can be out of range")

    def slices(self, st, c, p, name, args, atys, rt):
        a0 = args[0] if args else None
        if p.startswith("core::ops::index::") and a0 is not None and a0[0] == "X":
            return [(st, None)]
        if p in ("core::slice::raw::from_raw_parts", "core::slice::raw::from_raw_parts_mut"):
            if a0 is not None and a0[0] == "SL":
                return [(st, self.reslice(a0, args[1]))]
            if a0 is not None and a0[0] == "R" and a0[1][0] != "N" and args[1] is not None:
                return [(st, self.make_slice(st, a0, args[1]))]
            return [(st, None)]
        v = self.toslice(st, a0)
        if v is None:
            if name in ("iter", "iter_mut"):
                return [(st, ("OPQ",))]
            return None
        if name in ("iter", "iter_mut"):
            return [(st, self.as_iter(st, v))]
        if name == "len":
            return [(st, self.slen(v))]
        if name == "is_empty":
            return [(st, self.compare(st, "Eq", self.slen(v), N(0)))]
        if name in ("get_unchecked", "get_unchecked_mut", "get", "get_mut", "index", "index_mut") and len(args) == 2:
            how = "unchecked" if "unchecked" in name else name.split("_")[0]
            ity = self.T[atys[1]]
            if ity["k"] in ("uint", "int"):
                return self.elem(st, v, args[1], how)
            r = self.rng(args[1], atys[1])
            if r is None:
                return [(st, None)]
            lo, hi = r
            n = self.slen(v)
            hi = n if hi is None else hi
            if lo is None or hi is None or not (self.lin(lo) and self.lin(hi) and self.lin(n)):
                return [(st, None)]
            out = []
            for s in self.assume(st.copy(), ("and", ("le", lo, hi), ("le", hi, n)), False):
                if how == "get":
                    out.append((s, NONE))
                else:
                    self.outside(s, v, hi)
            for s in self.assume(st.copy(), ("and", ("le", lo, hi), ("le", hi, n)), True):
                w = ("SL", v[1], v[2], self.vi(self.plus(self.iv(v[3]), lo)), self.vi(self.plus(self.iv(v[3]), hi)))
                out.append((s, some(w) if how == "get" else w))
            return out
        if name in ("first", "last", "first_mut", "last_mut"):
            n = self.slen(v)
            i = N(0) if name.startswith("first") else self.plus(n, N(1), -1)
            return self.elem(st, v, i, "get") if not (n is not None and n == N(0)) else [(st, NONE)]
        if name in ("split_at", "split_at_mut", "split_at_unchecked"):
            i = args[1]
            if i is None or i[0] != "I" or not isinstance(v[4], int):
                return None
            if i[1] > v[4] - v[3]:
                self.panic(st, "a slice can be split outside")
                return []
            return [(st, ("A", 0, (("SL", v[1], v[2], v[3], v[3] + i[1]), ("SL", v[1], v[2], v[3] + i[1], v[4]))))]
        if name in ("split_first", "split_last"):
            if not isinstance(v[4], int):
                return None
            if v[4] == v[3]:
                return [(st, NONE)]
            if name == "split_first":
                return [(st, some(("A", 0, (("R", v[1], v[2] + (("x", N(v[3])),)), ("SL", v[1], v[2], v[3] + 1, v[4])))))]
            return [(st, some(("A", 0, (("R", v[1], v[2] + (("x", N(v[4] - 1)),)), ("SL", v[1], v[2], v[3], v[4] - 1)))))]
        if name in ("copy_from_slice", "clone_from_slice"):
            w = self.toslice(st, args[1])
            if not isinstance(v[3], int) or not isinstance(v[4], int) or w is None:
                self.store(st, v[1], v[2], None)
                return [(st, UNIT)]
            e = self.seq(st, w)
            if not isinstance(w[4], int) or v[4] - v[3] != w[4] - w[3]:
                self.panic(st, "slices of different length are copied")
                return []
            for i in range(v[3], v[4]):
                self.store(st, v[1], v[2] + (("x", N(i)),), e[i - v[3]] if e is not None else None)
            return [(st, UNIT)]
        if name == "fill" and isinstance(v[4], int):
            for i in range(v[3], v[4]):
                self.store(st, v[1], v[2] + (("x", N(i)),), args[1])
            return [(st, UNIT)]
        if name in ("starts_with", "ends_with"):
            x, y = self.seq(st, v), self.seq(st, args[1])
            if x is None or y is None:
                return [(st, None)]
            if len(y) > len(x):
                return [(st, FALSE)]
            x = x[:len(y)] if name == "starts_with" else x[len(x) - len(y):]
            return self.seq_order(st, "eq", tuple(x), tuple(y))
        if name in ("to_vec", "to_owned"):
            return [(st, None)]
        return None

    # ------------------------------------------------------------ iterators
    def as_iter(self, st, v, ty=None):
        if v is not None and v[0] in ITERS:
            return v
        if v is not None and v[0] == "SL" and not (isinstance(v[3], int) and isinstance(v[4], int)):
            return ("RREF", v[1], v[2], ("RNG", self.iv(v[3]), self.iv(v[4])))
        r = super().as_iter(st, v, ty)
        if r is None and v is not None and v[0] == "R":
            w = self.rd(st, v[1], v[2], None)
            if w is not None and w[0] in ("SL",):
                return self.as_iter(st, w)
            if w is not None and w[0] in ITERS:
                return w
            pt = self.p.pointee(ty) if ty is not None else None
            if w is not None and w[0] == "A" and pt is not None and self.T[pt].get("path", "").startswith("core::ops::range::"):
                return super().as_iter(st, w, pt)
        if r is None and v is not None and v[0] == "X":
            return ("OPQ",)
        return r

    def next(self, st, it):
        if it is None:
            self.give("an iterator that is not tracked")
        k = it[0]
        if k == "OPQ":
            s2 = st.copy()
            return [(s2, it, NONE), (st, it, some(("X", ("elem",))))]
        if k == "RREF":
            return [(s, ("RREF", it[1], it[2], j), some(("R", it[1], it[2] + (("x", x[2][0]),))) if x[1] == 1 else NONE) for s, j, x in self.next(st, it[3])]
        if k == "COPIED":
            out = []
            for s, j, x in self.next(st, it[1]):
                out.append((s, ("COPIED", j), some(self.deref1(s, x[2][0])) if x[1] == 1 else NONE))
            return out
        if k == "SKIP":
            if it[2] <= 0:
                return [(s, j, x) for s, j, x in self.next(st, it[1])]
            out = []
            for s, j, x in self.next(st, it[1]):
                if x[1] == 0:
                    out.append((s, ("SKIP", j, 0), NONE))
                else:
                    out += self.next(s, ("SKIP", j, it[2] - 1))
            return out
        if k == "CHAIN":
            out = []
            for s, j, x in self.next(st, it[1]):
                if x[1] == 1:
                    out.append((s, ("CHAIN", j, it[2]), x))
                else:
                    out += self.next(s, it[2])
            return out
        if k == "PEEK":
            if it[2] is not None:
                return [(st, ("PEEK", it[1], None), it[2])]
            return [(s, ("PEEK", j, None), x) for s, j, x in self.next(st, it[1])]
        if k == "ENUM":
            fin = it[2] is not None and it[2][0] == "I" and it[2][1] <= KEY
            return [(s, ("ENUM", i2, self.plus(it[2], N(1)) if fin else None), (some(("A", 0, (it[2], x[2][0]))) if x[1] == 1 else NONE)) for s, i2, x in self.next(st, it[1])]
        return super().next(st, it)

    def deref1(self, st, v):
        return self.rd(st, v[1], v[2], None) if v is not None and v[0] == "R" else None

    def take(self, st, it, n):
        k = it[0]
        if n is not None and n[0] == "I":
            if k == "IT":
                return ("IT", it[1][:n[1]])
            if k in ("ENUM",):
                i = self.take(st, it[1], n)
                return ("ENUM", i, it[2])
            if k in ("ZIP",):
                return ("ZIP", self.take(st, it[1], n), it[2])
            if k in ("MAP", "COPIED"):
                return (k, self.take(st, it[1], n)) + it[2:]
        if k == "RNG" and n is not None and it[1] is not None:
            e = self.plus(it[1], n)
            if e is not None and it[2] is not None and self.ent_le(st, e, it[2]):
                return ("RNG", it[1], e)
            if e is not None and it[2] is not None and self.ent_le(st, it[2], e):
                return it
        if k == "RREF" and n is not None:
            return it[:3] + (self.take(st, it[3], n),)
        return ("TAKE", it, n)

    def drop_n(self, st, it, n):
        k = it[0]
        if n is not None and n[0] == "I":
            if k == "IT":
                return ("IT", it[1][n[1]:])
            if k == "COPIED":
                return ("COPIED", self.drop_n(st, it[1], n))
            if k == "ZIP":
                return ("ZIP", self.drop_n(st, it[1], n), self.drop_n(st, it[2], n))
            if k == "ENUM" and it[2] is not None:
                return ("ENUM", self.drop_n(st, it[1], n), self.plus(it[2], n))
            if k == "RNG" and it[1] is not None and it[1][0] == "I":
                return ("RNG", N(it[1][1] + n[1]), it[2])
            if n[1] <= KEY:
                return ("SKIP", it, n[1])
        self.give("skip by an unknown number")

    def rev(self, it):
        if it[0] == "IT":
            return ("IT", tuple(reversed(it[1])))
        if it[0] == "COPIED":
            return ("COPIED", self.rev(it[1]))
        if it[0] == "ZIP" and it[1][0] == "IT" and it[2][0] == "IT":
            n = min(len(it[1][1]), len(it[2][1]))
            return ("ZIP", ("IT", tuple(reversed(it[1][1][:n]))), ("IT", tuple(reversed(it[2][1][:n]))))
        if it[0] == "ENUM" and it[1][0] == "IT" and it[2] == N(0):
            n = len(it[1][1])
            return ("IT", tuple(("A", 0, (N(i), x)) for i, x in reversed(list(enumerate(it[1][1])))))
        if it[0] == "RNG" and it[1] is not None and it[2] is not None and it[1][0] == "I" and it[2][0] == "I" and it[2][1] - it[1][1] <= 16:
            return ("IT", tuple(N(i) for i in range(it[2][1] - 1, it[1][1] - 1, -1)))
        self.give("an iterator run backwards")

    def iters(self, st, c, p, name, args, atys, rt):
        a0 = args[0] if args else None
        if p.endswith("RangeInclusive::<Idx>::new"):
            return [(st, ("A", 0, (args[0], args[1], FALSE)))]
        if name == "contains" and p.startswith("core::ops::range"):
            r = self.deref_all(st, a0)
            rr = self.rng(r, self.p.pointee(atys[0]))
            x = args[1]
            if rr is None:
                return None
            q = self.T[self.p.pointee(atys[0])]["path"]
            lo, hi = (r[2][0], r[2][1]) if q.endswith(("::Range", "::RangeInclusive")) else (rr[0], rr[1])
            out = []
            for s, v in self.order(st.copy(), "le", [lo, x], atys) or []:
                for s2 in self.assume(s.copy(), v[1], False):
                    out.append((s2, FALSE))
                for s2 in self.assume(s.copy(), v[1], True):
                    if hi is None:
                        out.append((s2, TRUE))
                        continue
                    for s3, w in self.order(s2, "le" if "Inclusive" in q else "lt", [x, hi], atys) or []:
                        for val in (True, False):
                            for s4 in self.assume(s3.copy(), w[1], val):
                                out.append((s4, TRUE if val else FALSE))
            return out or None
        if p == "core::iter::traits::collect::IntoIterator::into_iter":
            v = self.as_iter(st, a0, atys[0])
            return [(st, v)] if v is not None else None
        if name in ("next", "next_back", "nth", "peek") and a0 is not None and a0[0] == "R":
            it = self.as_iter(st, self.rd(st, a0[1], a0[2], None), self.p.pointee(atys[0]))
            if it is None:
                return None
            ref = a0
            w = self.rd(st, a0[1], a0[2], None)
            while w is not None and w[0] == "R":
                ref, w = w, self.rd(st, w[1], w[2], None)
            if name == "next_back":
                if it[0] == "IT":
                    self.store(st, ref[1], ref[2], ("IT", it[1][:-1]))
                    return [(st, some(it[1][-1]) if it[1] else NONE)]
                self.give("an iterator run backwards")
            if name == "nth":
                it = self.drop_n(st, it, args[1])
            out = []
            if name == "peek":
                for s, j, x in ([(st, ("PEEK", it[1], None), it[2])] if it[0] == "PEEK" and it[2] is not None else self.next(st, it[1] if it[0] == "PEEK" else it)):
                    inner = j[1] if j[0] == "PEEK" else j
                    self.store(s, ref[1], ref[2], ("PEEK", inner, x))
                    if x[1] == 1:
                        cell = ("PK", len(self.stack))
                        s.mem[cell] = x[2][0]
                        out.append((s, some(("R", cell, ()))))
                    else:
                        out.append((s, NONE))
                return out
            for s, j, x in self.next(st, it):
                self.store(s, ref[1], ref[2], j)
                out.append((s, x))
            return out
        if not p.startswith("core::iter::"):
            return None
        if p in ("core::iter::sources::once::once",):
            return [(st, ("IT", (a0,)))]
        if p in ("core::iter::sources::empty::empty",):
            return [(st, ("IT", ()))]
        if not p.startswith("core::iter::traits::"):
            return None
        it, byref = a0, None
        if it is not None and it[0] == "R":
            byref = it
            it = self.as_iter(st, self.deref_all(st, it), self.p.pointee(atys[0]))
            if name == "by_ref":
                return [(st, a0)]
        else:
            it = self.as_iter(st, it, atys[0] if atys else None)
        if it is None:
            return None

        def fin(s, j, v):
            if byref is not None:
                self.store(s, byref[1], byref[2], j)
            return (s, v)
        if name == "take":
            return [(st, self.take(st, it, args[1]))]
        if name == "skip":
            return [(st, self.drop_n(st, it, args[1]))]
        if name == "enumerate":
            return [(st, ("ENUM", it, N(0)))]
        if name == "zip":
            o = self.as_iter(st, args[1], atys[1])
            return [(st, ("ZIP", it, o))] if o is not None else None
        if name == "chain":
            o = self.as_iter(st, args[1], atys[1])
            return [(st, ("CHAIN", it, o))] if o is not None else None
        if name in ("copied", "cloned"):
            return [(st, ("COPIED", it))]
        if name in ("fuse", "inspect") and name == "fuse":
            return [(st, it)]
        if name == "peekable":
            return [(st, ("PEEK", it, None))]
        if name == "rev":
            return [(st, self.rev(it))]
        if name == "map":
            return [(st, ("MAP", it, args[1]))]
        if name in ("filter", "take_while", "skip_while"):
            return [(st, ({"filter": "FILTER", "take_while": "TAKEWHILE", "skip_while": "SKIPWHILE"}[name], it, args[1]))]
        if name in ("any", "all", "position", "find"):
            def pred(s, x):
                res = []
                arg = x
                if name == "find":
                    cell = ("FA", len(self.stack))
                    s.mem[cell] = x
                    arg = ("R", cell, ())
                for s2, v in self.callv(s, args[1], [arg]):
                    cnd = v[1] if v is not None and v[0] == "B" else None
                    for val in (True, False):
                        for s3 in self.assume(s2.copy(), cnd, val):
                            res.append((s3, x if name == "find" else ("hit",)) if val == (name != "all") else (s3, "go"))
                return res
            src = ("ENUM", it, N(0)) if name == "position" else it
            if name == "position":
                def f(s, x):
                    return [(s2, x[2][0] if v == ("hit",) else v) for s2, v in pred(s, x[2][1])]
            else:
                f = pred
            out = []
            for s, j, v in self.run_iter(st, src, f):
                j = j[1] if name == "position" and j[0] == "ENUM" else j
                if name in ("any", "all"):
                    out.append(fin(s, j, TRUE if (v is not None) == (name == "any") else FALSE))
                else:
                    out.append(fin(s, j, NONE if v is None and not (name == "position" and v is not None) else some(v)))
            return out
        if name == "for_each":
            return [(s, UNIT) for s, j, v in self.run_iter(st, it, lambda s, x: [(s2, "go") for s2, w in self.callv(s, args[1], [x])])]
        if name in ("try_for_each",):
            def g(s, x):
                res = []
                for s2, v in self.callv(s, args[1], [x]):
                    if v is None or v[0] != "A":
                        self.give("try_for_each")
                    opt = self.T[rt].get("path") == "core::option::Option"
                    res.append((s2, "go") if (v[1] == 1) == opt else (s2, v))
                return res
            done = ("A", 1, (UNIT,)) if self.T[rt].get("path") == "core::option::Option" else ("A", 0, (UNIT,))
            return [fin(s, j, done if v is None else v) for s, j, v in self.run_iter(st, it, g)]
        if name in ("count", "last", "sum", "fold", "collect", "min", "max"):
            return [(s, None) for s, j, v in self.run_iter(st, it, lambda s, x: [(s, "go")])] if name == "count" else None
        if name in ("eq", "ne"):
            o = self.as_iter(st, args[1], atys[1])
            if it[0] in ("IT", "COPIED") and o is not None and o[0] in ("IT", "COPIED"):
                x, y = self.plain(st, it), self.plain(st, o)
                if x is not None and y is not None:
                    return self.seq_order(st, name, x, y)
            return None
        if name == "size_hint":
            return [(st, None)]
        return None

    def plain(self, st, it):
        if it[0] == "COPIED":
            it = it[1]
        e = [self.deref_all(st, x) for x in it[1]] if it[0] == "IT" else None
        return tuple(e) if e is not None and all(self.lin(x) for x in e) else None
