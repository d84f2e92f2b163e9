"""C11: type-level witnesses.

Each question is a pair of generic programs that differ in one bound: the one with all bounds has
to be accepted by the type checker, the one without has to be rejected, and for the lack of that
bound.  They are generic in the type arguments, so the answer holds for every program: rustc
accepts the generic one exactly when the bound follows from the declared ones for all types.
The programs are only type-checked, against the metadata of the library's current source.
"""
import json
import os
import subprocess
import re
import time
from concurrent.futures import ThreadPoolExecutor

NEED = "fn send<T: Send>() {}\nfn share<T: Sync>() {}\n"
BOTH = "Send + Sync"


def congee(call, k, v, a):
    return NEED + "pub fn w<K, V, A>() where K: Clone + From<usize> + %s, V: Clone + From<usize> + %s, A: congee::Allocator + Clone + 'static + %s, usize: From<K>, usize: From<V> { %s::<congee::Congee<K, V, A>>(); }\n" % (k, v, a, call)


def u64c(call, v, a):
    return NEED + "pub fn w<V, A>() where V: Clone + From<usize> + Into<usize> + %s, A: congee::Allocator + Clone + 'static + %s { %s::<congee::U64Congee<V, A>>(); }\n" % (v, a, call)


def make(a):
    return "pub fn w<A>(a: A) -> congee::Congee<usize, usize, A> where A: congee::Allocator + Clone + 'static + %s { congee::Congee::new(a) }\n" % a


def drain(f, k="usize", v="usize"):
    return "pub fn w<F, A>(a: A, f: F) -> congee::Congee<%s, %s, A> where A: congee::Allocator + Clone + Send + Sync + 'static, F: Fn(%s, %s) + 'static + %s { congee::Congee::new_with_drainer(a, f) }\n" % (k, v, k, v, f)


N = "Sized"
# (what, rejected program or None, accepted twin)
PAIRS = [
    ("Congee is sent only with a key type that may be sent", congee("send", "Sync", BOTH, BOTH), congee("send", "Send", "Send", "Send")),
    ("Congee is sent only with a value type that may be sent", congee("send", BOTH, "Sync", BOTH), congee("send", "Send", "Send", "Send")),
    ("Congee is sent only with an allocator that may be sent", congee("send", BOTH, BOTH, "Sync"), congee("send", "Send", "Send", "Send")),
    ("Congee is shared only with a key type that may be shared", congee("share", "Send", BOTH, BOTH), congee("share", BOTH, BOTH, BOTH)),
    ("Congee is shared only with a value type that may be shared", congee("share", BOTH, "Send", BOTH), congee("share", BOTH, BOTH, BOTH)),
    ("Congee is shared only with an allocator that may be shared", congee("share", BOTH, BOTH, "Send"), congee("share", BOTH, BOTH, BOTH)),
    ("U64Congee is sent only with a value type that may be sent", u64c("send", "Sync", BOTH), u64c("send", "Send", "Send")),
    ("U64Congee is sent only with an allocator that may be sent", u64c("send", BOTH, "Sync"), u64c("send", "Send", "Send")),
    ("U64Congee is shared only with a value type that may be shared", u64c("share", "Send", BOTH), u64c("share", BOTH, BOTH)),
    ("U64Congee is shared only with an allocator that may be shared", u64c("share", BOTH, "Send"), u64c("share", BOTH, BOTH)),
    ("a map, whose nodes are released on any thread, is made only with an allocator that may be sent", make("Sync"), make("Send")),
    ("a map, which may be sent, takes only a drain callback that may be sent", drain("Sync"), drain("Send")),
    ("a map takes a drain callback that may be sent but not shared", None, drain("Send")),
    ("a map takes an allocator that may be sent but not shared", None, make("Send")),
    ("the usual maps can be sent", None, NEED + "pub fn w() { send::<congee::Congee<usize, usize>>(); send::<congee::U64Congee<usize>>(); }\n"),
    ("the usual maps can be shared", None, NEED + "pub fn w() { share::<congee::Congee<usize, usize>>(); share::<congee::U64Congee<usize>>(); }\n"),
    ("the map of the documentation can be used by several threads", None,
     "pub fn w() { let t = std::sync::Arc::new(congee::Congee::<usize, usize>::default()); let u = t.clone(); let h = std::thread::spawn(move || { let g = u.pin(); let _ = u.insert(1, 2, &g); u.get(&1, &g) }); let g = t.pin(); let _ = t.remove(&1, &g); let _ = h.join(); }\n"),
    ("a map can be moved into a thread", None,
     "pub fn w<K, V, A>(t: congee::Congee<K, V, A>) where K: Clone + From<usize> + Send + 'static, V: Clone + From<usize> + Send + 'static, A: congee::Allocator + Clone + Send + 'static, usize: From<K>, usize: From<V> { std::thread::spawn(move || drop(t)); }\n"),
    ("a map can be used by scoped threads", None,
     "pub fn w<K, V, A>(t: &congee::Congee<K, V, A>, k: K, v: V) where K: Clone + From<usize> + Send + Sync, V: Clone + From<usize> + Send + Sync, A: congee::Allocator + Clone + Send + Sync + 'static, usize: From<K>, usize: From<V> { std::thread::scope(|s| { s.spawn(move || { let g = t.pin(); let _ = t.insert(k, v, &g); }); }); }\n"),
]


def compile_one(cmd, cwd, i, tag, text):
    src = os.path.join(cwd, "w%d%s.rs" % (i, tag))
    with open(src, "w") as f:
        f.write(text)
    out = os.path.join(cwd, "o%d%s" % (i, tag))
    os.makedirs(out, exist_ok=True)
    r = subprocess.run(cmd + ["--out-dir", out, src], stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, text=True, cwd=cwd)
    errs = []
    for line in r.stderr.splitlines():
        try:
            m = json.loads(line)
        except ValueError:
            continue
        if m.get("level") == "error" and (m.get("code") or m.get("spans")):
            errs.append(((m.get("code") or {}).get("code"), m["message"]))
    return r.returncode, errs


def places(repo):
    """where the library says so itself"""
    out = []
    for d, _, fs in os.walk(os.path.join(repo, "src")):
        if "tests" in d:
            continue
        for f in sorted(fs):
            if not f.endswith(".rs"):
                continue
            path = os.path.join(d, f)
            for n, line in enumerate(open(path, errors="replace"), 1):
                if re.search(r"unsafe\s+impl\b.*\b(Send|Sync)\s+for\b|PhantomData<|fn new_with_drainer", line):
                    out.append("%s:%d: %s" % (os.path.relpath(path, repo), n, line.strip()[:120]))
    return out


def run_pairs(repo, work):
    t = time.time()
    out = dict(viol=[], ev={}, error=None, name="witness")
    d = os.path.join(work, "witness")
    os.makedirs(d, exist_ok=True)
    env = dict(os.environ, CARGO_NET_OFFLINE="true", CARGO_TERM_COLOR="never", CARGO_INCREMENTAL="0")
    env.pop("RUSTFLAGS", None)
    locked = ["--locked"] if os.path.exists(os.path.join(repo, "Cargo.lock")) else []
    r = subprocess.run(["cargo", "check", "--lib", "--offline", "--message-format=json", "--target-dir", os.path.join(d, "t")] + locked, cwd=repo, env=env, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True)
    meta = None
    edition = "2021"
    for line in r.stdout.splitlines():
        try:
            m = json.loads(line)
        except ValueError:
            continue
        if m.get("reason") == "compiler-artifact" and m["target"]["name"] == "congee":
            for f in m["filenames"]:
                if f.endswith(".rmeta"):
                    meta = f
    if meta is None:
        out["error"] = "the library does not type-check: " + r.stderr[-300:]
        return out
    cmd = ["rustc", "--edition", edition, "--crate-type", "lib", "--emit=metadata", "--error-format=json", "--cap-lints", "allow", "--extern", "congee=" + meta, "-L", "dependency=" + os.path.join(d, "t/debug/deps")]
    ev = {"witness-rejected": set(), "witness-accepted": set(), "bound-site": set(places(repo))}
    with ThreadPoolExecutor(4) as ex:
        jobs = []
        for i, (what, bad, good) in enumerate(PAIRS):
            jobs.append((what, ex.submit(compile_one, cmd, d, i, "b", bad) if bad else None, ex.submit(compile_one, cmd, d, i, "g", good), bad, good))
        for what, b, g, bad, good in jobs:
            rc, errs = g.result()
            slug = re.sub(r"[^a-z0-9]+", "-", what.lower()).strip("-")
            sites = "; ".join(sorted(ev["bound-site"]))
            if rc:
                codes = {c for c, m in errs}
                rule = "sound-program-rejected" if codes & {"E0277", "E0599"} else "anchor-missing"
                out["viol"].append(dict(prop="C11", rule=rule, fn=slug, span=(sorted(ev["bound-site"]) or ["-"])[0].split(": ")[0], root="public API",
                                        msg="%s: this program has to be accepted but is not: %s -- %s" % (what, "; ".join("%s %s" % x for x in errs[:3]), good.strip()), trace=sorted(ev["bound-site"])))
                continue
            ev["witness-accepted"].add(what)
            if b is None:
                continue
            rc, errs = b.result()
            if rc == 0:
                out["viol"].append(dict(prop="C11", rule="unsound-program-accepted", fn=slug, span=(sorted(ev["bound-site"]) or ["-"])[0].split(": ")[0], root="public API",
                                        msg="%s: without that bound the program still type-checks -- %s (declared at %s)" % (what, bad.strip(), sites), trace=sorted(ev["bound-site"])))
            elif not any(c in ("E0277", "E0599", "E0282") or c is None for c, m in errs):
                out["error"] = "%s: rejected for another reason: %s" % (what, errs[:2])
            else:
                ev["witness-rejected"].add("%s (%s)" % (what, "; ".join(sorted({str(c) for c, m in errs}))))
    out["ev"] = {k: sorted(v) for k, v in ev.items()}
    out["wall"] = round(time.time() - t, 2)
    return out


if __name__ == "__main__":
    import sys
    import tempfile
    with tempfile.TemporaryDirectory() as w:
        r = run_pairs(sys.argv[1], w)
    print(json.dumps(r, indent=1))
