"""Checks of the Rust text and framing functions (C30, C31, C32), dispatched from vf/run.py.

1. proof: vf/rsx.py verifies the function's MIR (emitted by rustc from /repo's source on this run) against the
   specification automaton (contracts/text.py) or the framing postcondition, for all inputs;
2. the compiled function is run against the same specification: a small sample when the proof is complete (it
   guards the trusted step from MIR to machine code), a larger bounded exploration when it is not.
A violation is reported with an input on which the compiled function gives a wrong result.
"""
import itertools
import json
import multiprocessing as mp
import os
import queue
import random
import re
import resource
import shutil
import struct
import subprocess
import time

from vf import build, mir, rsx, solve
from vf.terms import C, V, TRUE, FALSE, eq, extract, istrue, trunc, ult
from contracts import text

HERE = os.path.dirname(os.path.abspath(__file__))
FRONT = os.path.join(HERE, "rsfront")
MARK = rsx.MARK

TEXT_CALL = 'utils::%s(std::str::from_utf8(b).unwrap()).to_string().into_bytes()'
PROPS = {
    "C30": dict(fn="remove_comments", spec=text.Comments, call=TEXT_CALL % "remove_comments"),
    "C31": dict(fn="unescape_str_wrap_error", spec=text.Unescape, call=TEXT_CALL % "unescape_str_wrap_error"),
    "C32": dict(fn="merge_sub_wasm_with_length_prefix", spec=None,
                call="utils::merge_sub_wasm_with_length_prefix(b).to_vec()"),
}


# ------------------------------------------------------------------ proof
def frame_post(L):
    def post(segs):
        ok = len(segs) >= 5 and all(x[0] == "b" for x in segs[:-1]) and segs[-1][:2] == ("in", "input") and segs[-1][3] == len(segs) - 5
        yield (TRUE if ok else FALSE), "the result is four bytes followed by exactly the input"
        if ok:
            for i, x in enumerate(segs[4:-1]):
                yield eq(x[1], V("input@%d" % i, 8)), "byte %d of the input is kept" % i
        if ok:
            for i in range(4):
                yield eq(segs[i][1], extract(31 - 8 * i, 24 - 8 * i, trunc(L, 32))), "byte %d of the prefix is that of the length" % i
    return post


def prove(pid, src, q):
    p = PROPS[pid]
    out = dict(error=None, fails=[], obls={}, std=[], fns=[], cuts=0)
    t = time.time()
    try:
        fns = mir.parse(mir.emit(src))
        enums = mir.enums(open(src).read())
        ex = rsx.Exec(fns, enums, p["spec"]() if p["spec"] else None)
        if p["fn"] not in fns:
            raise rsx.Unsup("no function " + p["fn"])
        if p["spec"]:
            ex.verify(fns[p["fn"]], [rsx.Str(0, "END")])
        else:
            L = V("LEN", 64)
            ex.verify_bytes(fns[p["fn"]], rsx.Seq([("in", "input", L, 0)]), [ult(L, C(1 << 32, 64))], frame_post(L))
        out.update(input=getattr(ex, "input", None), fails=ex.fails, obls=ex.obls, std=sorted(ex.used_std), fns=sorted(ex.used_fns), cuts=len(ex.cuts),
                   queries=dict(solve.STATS))
    except rsx.Unsup as e:
        out["error"] = "outside the verifier's reach: %s" % e
    except RecursionError:
        out["error"] = "outside the verifier's reach: recursion"
    except Exception as e:
        out["error"] = "outside the verifier's reach: %s: %s" % (type(e).__name__, str(e)[:300])
    out["secs"] = time.time() - t
    q.put(out)


# ------------------------------------------------------------------ the compiled functions
class Driver:
    def __init__(self, work, src, call):
        s = open(os.path.join(FRONT, "driver.rs")).read().replace("@SRC@", src).replace("@CALL@", call)
        p = os.path.join(work, "driver.rs")
        open(p, "w").write(s)
        self.exe = os.path.join(work, "driver")
        build.run(["rustc", "--edition", "2021", "-O", "-C", "overflow-checks=on", "-A", "warnings", "-o", self.exe, p])
        self.ran = 0

    def batch(self, recs, each=False):
        def lim():
            resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
            resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
        inp = b"".join(struct.pack("<I", len(r)) + r for r in recs)
        p = subprocess.run([self.exe], input=inp, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, preexec_fn=lim,
                           env=dict(os.environ, EACH="1") if each else None)
        o, out, i = p.stdout, [], 0
        while i + 5 <= len(o):
            n = struct.unpack_from("<I", o, i + 1)[0]
            if i + 5 + n > len(o):
                break
            out.append((("ok", "panic")[o[i]], o[i + 5:i + 5 + n]))
            i += 5 + n
        return p.returncode, out

    def run(self, recs):
        """[(status, bytes)]; status ok, panic, hang or crash"""
        res = []
        while len(res) < len(recs):
            rest = recs[len(res):]
            rc, out = self.batch(rest)
            if rc and len(out) < len(rest):
                rc, out = self.batch(rest[len(out):], True) if not out else (rc, out)
                if not out or len(out) < 50:
                    if len(out) < len(rest):
                        out.append(("hang" if rc == 3 else "crash", b""))
            res += out
            if len([x for x in res if x[0] in ("hang", "crash")]) > 3:
                break
        self.ran += len(res)
        return res


def take(it, most=200000, size=1 << 25):
    part, n = [], 0
    for x in it:
        part.append(x)
        n += len(x[0])
        if len(part) >= most or n > size:
            break
    return part


class Oracle:
    """the specification on concrete texts, with memoised steps"""

    def __init__(self, spec):
        self.spec, self.memo, self.fin = spec, {}, {}
        m, r = spec.init()
        self.start = (m, ())

    def step(self, st, ch):
        k = (st, ch)
        v = self.memo.get(k)
        if v is None:
            m, r = st[0], {n: C(x, 32) for n, x in st[1]}
            for cond, m2, r2, o in self.spec.step(m, r, C(ord(ch), 32)):
                if istrue(cond):
                    v = ((m2, tuple(sorted((n, x.v) for n, x in r2.items()))), "".join(chr(x.v) for x in o))
                    break
            else:
                raise AssertionError("specification not exhaustive")
            if len(self.memo) < 2000000:
                self.memo[k] = v
        return v

    def eof(self, st):
        v = self.fin.get(st)
        if v is None:
            m, r = st[0], {n: C(x, 32) for n, x in st[1]}
            for cond, m2, r2, o in self.spec.eof(m, r):
                if istrue(cond):
                    v = (m2, "".join(chr(x.v) for x in o))
                    break
            self.fin[st] = v
        return v

    def run(self, s):
        st, out = self.start, []
        for ch in s:
            st, o = self.step(st, ch)
            if o:
                out.append(o)
        m, o = self.eof(st)
        return m, "".join(out) + o

    def all(self, alphabet, n):
        """every text up to length n with its expected result"""
        work = [("", self.start, "")]
        for k in range(n + 1):
            nxt = []
            for t, st, out in work:
                m, o = self.eof(st)
                yield t, m, out + o
                if k < n:
                    for ch in alphabet:
                        s2, o2 = self.step(st, ch)
                        nxt.append((t + ch, s2, out + o2))
            work = nxt


def agrees(mode, want, status, got):
    if status != "ok":
        return False
    if mode == "REJ":
        return got.startswith(MARK.encode())
    if mode in ("DC", "FIND"):
        return True
    return got == want.encode()


def harvest(src):
    """characters, strings and numbers the source mentions"""
    s = open(src).read().split("#[test]")[0]
    toks = []
    for m in re.finditer(r"b?'(\\u\{[0-9a-fA-F]+\}|\\x[0-9a-fA-F]{2}|\\.|[^'\\\n])'", s):
        try:
            toks.append(rsx.unesc(m.group(1)))
        except Exception:
            pass
    for m in re.finditer(r'"((?:\\.|[^"\\\n])*)"', s):
        try:
            t = rsx.unesc(m.group(1))
            if len(t) < 40:
                toks.append(t)
        except Exception:
            pass
    nums = set()
    for m in re.finditer(r"\b(0x[0-9a-fA-F_]+|\d[\d_]*)(?:u\d+|usize|i\d+)?\b", s):
        v = int(m.group(1).replace("_", ""), 0) if not re.match(r"0\d", m.group(1)) else int(m.group(1).replace("_", ""))
        if v < 1 << 22:
            nums |= {v - 1, v, v + 1}
    for m in re.finditer(r"\b1(?:u\d+|usize)? << (\d+)", s):
        v = 1 << int(m.group(1))
        if v < 1 << 22:
            nums |= {v - 1, v, v + 1}
    toks = [t for t in toks if t and not any(0xd800 <= ord(c) < 0xe000 for c in t)]
    return sorted(set(toks)), sorted(n for n in nums if n >= 0)


WIDE = ["\u00e9", "\u20ac", "\U0001f600", "\u0085", "\u2028", "\ufeff", "\0", "\x7f", "\r", "\t", " ", "\x0b"]
EXTRA = {"C30": ["/**/", "/*a*/", "//a\n", "\"a\"", "'a'", "\"//\"", "//", "/*", "*/", "**/", "/**", "\\\"", "\\'", "/\"", "///", "*", "https://", "\r\n", "0", "1"],
         "C31": ["\\n", "\\t", "\\r", "\\0", "\\\\", "\\\"", "\\'", "\\x41", "\\x7F", "\\x7f", "\\x80", "\\xFF", "\\x4", "\\xg0", "\\x0g",
                 "\\u{41}", "\\u{1F600}", "\\u{10FFFF}", "\\u{110000}", "\\u{D7FF}", "\\u{D800}", "\\u{DFFF}", "\\u{E000}", "\\u{0}",
                 "\\u{_1}", "\\u{1_2}", "\\u{000041}", "\\u{0000041}", "\\u{}", "\\u{", "\\u", "\\u{4", "\\u{4_}", "\\u{FFFFFF}",
                 "\\u{FFFFFFF}", "\\\n", "\\\n  ", "\\ ", "\\q", "\\u{00000}", "\\u{0_0_0_0_0_1}", "\\u{g}", "\\u{1g}", "\"", "\n", "\\X41",
                 "\\U{41}", "\\a", "\\b", "\\f", "\\v", "\\1", "9", "f", "F", "A", "\\x0A", "\\x00", "\\x7E"]}


def random_texts(pid, spec, rng, n, toks, nums):
    alpha = list(spec.alphabet)
    pool = EXTRA[pid] + alpha + toks
    reps = [1, 2, 3, 7, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 65, 127, 128, 129, 255, 256, 257, 1023, 1024, 4096] + \
        [x for x in nums if 3 < x <= 70000]
    for i in range(n):
        k = rng.choice((2, 3, 4, 6, 8, 12, 20))
        out = []
        for _ in range(k):
            x = rng.random()
            if x < 0.45:
                t = rng.choice(pool)
            elif x < 0.8:
                t = rng.choice(alpha)
            elif x < 0.9:
                t = rng.choice(WIDE)
            else:
                t = chr(rng.choice((rng.randrange(0x20, 0x7f), rng.randrange(0x20, 0x7f), rng.randrange(0x80, 0xd800), rng.randrange(0xe000, 0x110000))))
            if rng.random() < 0.04 and i % 8 == 0:
                t *= rng.choice(reps)
            out.append(t)
        yield "".join(out)


def uescape(rng):
    """a \\u or \\x escape, usually valid or nearly so"""
    if rng.random() < 0.2:
        return "\\x" + "".join(rng.choice("0123456789abcdefABCDEF7777g_") for _ in range(rng.choice((2, 2, 2, 2, 1, 3))))
    v = rng.choice((rng.randrange(0x80), rng.randrange(0x800), rng.randrange(0x10000), rng.randrange(0xd7f0, 0xe010),
                    rng.randrange(0x110000), rng.randrange(0x10fff0, 0x110010), rng.randrange(1 << 24), rng.randrange(1 << 28)))
    h = rng.choice(("%x", "%X", "%04x", "%06X", "%06x", "%05X", "%07x")) % v
    if rng.random() < 0.5:
        for _ in range(rng.choice((1, 1, 1, 2, 5))):
            k = rng.randrange(len(h) + 1)
            h = h[:k] + "_" * rng.choice((1, 1, 2, 7)) + h[k:]
    if rng.random() < 0.1:
        k = rng.randrange(len(h) + 1)
        h = h[:k] + rng.choice("g}{\\ \n/:@G`") + h[k:]
    return rng.choice(("\\u{%s}",) * 12 + ("\\u%s", "\\u{%s", "\\U{%s}", "\\u{{%s}}")) % h


def escapes(rng, n):
    for i in range(n):
        pre = rng.choice(("", "", "a", "\\n", "\\\n", "\\\n \t", "\u00e9"))
        yield pre + "".join(uescape(rng) for _ in range(rng.choice((1, 1, 1, 2, 4)))) + rng.choice(("", "", "b", "_", "}", "0"))


def repeats(alphabet, pool, wide):
    """one or two lexical elements over and over: counters that wrap, buffers that fill"""
    for n in (255, 256, 257, 300, 65535, 65536, 70000) if wide else (256, 300):
        for a in list(alphabet) + pool:
            yield a * n
            if n < 1000 or n == 70000:
                for b in ["a", "\n", " "] + (list(alphabet) if n < 1000 else []):
                    yield (a + b) * n


# ------------------------------------------------------------------ string literals through the real parser
LIT_OK = [("\\\"", '"'), ("\\\\", "\\"), ("\\n", "\n"), ("\\t", "\t"), ("\\x41", "A"), ("\\x00", "\0"), ("\\x7F", "\x7f"),
          ("\\u{00E9}", "\u00e9"), ("\\u{0041}", "A"), ("\\u{FFFF}", "\uffff"), ("\\ \\", ""), ("\\ \t\n\f \\", ""),
          (" ", " "), ("a", "a"), ("n", "n"), ("x41", "x41"), ("/", "/"), ("'", "'"), ("\u00e9", "\u00e9"), ("//", "//"), ("/*", "/*"),
          ("\t", "\t"), ("0", "0"), ("hex", "hex"), ("data", "data"), ("u{0041}", "u{0041}"), ("\\u{D7FF}", "\ud7ff"), ("\\u{E000}", "\ue000")]
LIT_BAD = ["\\q", "\\x4", "\\xG1", "\\u{41", "\\u41", "\\x", "\\u{110000}", "\n", "\\ ", "\\ x\\", "\\u{}", "\\1", "\\N", "\\T"]
LIT_FIND = ["\\x80", "\\xFF", "\\u{D800}", "\\u{DFFF}"]


def literal_cases(rng, small):
    """(kind, text, expectation): ('ok', s) / ('bad',) / ('find',)"""
    toks = LIT_OK
    for n in range(0, 3 if small else 4):
        for ts in itertools.product(toks, repeat=n):
            yield "s", '"' + "".join(t[0] for t in ts) + '"', ("ok", "".join(t[1] for t in ts))
    for _ in range(4000 if small else 30000):
        ts = [rng.choice(toks) for _ in range(rng.choice((4, 5, 7, 10, 30)))]
        yield "s", '"' + "".join(t[0] for t in ts) + '"', ("ok", "".join(t[1] for t in ts))
    for b in LIT_BAD:
        for pre in ("", "a", "\\\\", "\\n"):
            for post in ("", "a", "\\\\"):
                if b == "\\ " and post.startswith("\\"):
                    continue
                yield "s", '"' + pre + b + post + '"', ("bad",)
    for _ in range(500 if small else 4000):
        n = rng.randrange(1, 40)
        h = "".join(rng.choice("0123456789abcdefABCDEF") for _ in range(n))
        yield "d", 'hex"%s"' % h, ("ok", h)
        name = "".join(rng.choice("abcdXYZ_019.") for _ in range(rng.randrange(1, 12)))
        if rng.random() < 0.3:
            name = rng.choice(("data", "data.", "hex", "hexdata")) + name
        yield "i", 'data "%s" hex"%s"' % (name, h), ("ok", name + "|" + h)


class Parser:
    def __init__(self, work, src):
        self.dir = os.path.join(work, "front")
        shutil.copytree(FRONT, self.dir)
        s = open(os.path.join(self.dir, "src", "parser.rs")).read().replace("@SRC@", src)
        open(os.path.join(self.dir, "src", "main.rs"), "w").write(s)
        env = dict(os.environ, CARGO_TARGET_DIR=os.path.join(self.dir, "target"), VERIF_SRC=src, CARGO_NET_OFFLINE="true")
        self.p = subprocess.Popen(["cargo", "build", "--offline", "--release", "--quiet"], cwd=self.dir, env=env, stdout=subprocess.PIPE,
                                  stderr=subprocess.STDOUT)
        self.exe = os.path.join(self.dir, "target", "release", "yul2wasm")
        self.ran = 0

    def ready(self):
        o = self.p.communicate()[0]
        if self.p.returncode:
            raise build.BuildError(o.decode(errors="replace")[-2000:])

    def run(self, cases, timeout=200):
        inp = "".join("%s%s\n" % (k, t.encode().hex()) for k, t in cases)
        p = subprocess.run([self.exe], input=inp.encode(), stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, timeout=timeout)
        out = p.stdout.decode().split("\n")[:-1]
        self.ran += len(out)
        return [(x[0], bytes.fromhex(x[1:])) for x in out]


def lit_agrees(e, got):
    k, b = got
    if k == "P":
        return False
    if e[0] == "ok":
        return k == "O" and b == e[1].encode("utf8", "surrogatepass")
    return k == "E" or b.startswith(MARK.encode())


# ------------------------------------------------------------------ the check
class Check:
    def __init__(self, pid, tier, seed, evid, root):
        self.pid, self.tier, self.seed, self.evid, self.root = pid, tier, seed, evid, root
        self.t0 = time.time()
        self.violations, self.known, self.notes, self.bounded = [], [], [], []
        self.src = os.path.join(build.REPO, "src")
        self.findings = json.load(open(os.path.join(root, "known_findings.json")))["findings"]

    def show(self, b, n=400):
        return b[:n].decode("utf8", "backslashreplace") if isinstance(b, bytes) else str(b)[:n]

    def violation(self, what, inp, kind, want, got):
        os.makedirs(self.evid, exist_ok=True)
        path = os.path.join(self.evid, "replay_%s_%d.json" % (self.pid, len(self.violations)))
        json.dump(dict(property=self.pid, what=what, rust=kind, input_hex=inp.hex(), input=self.show(inp), expected=want, observed=got,
                       failed_obligations=(self.proof or {}).get("fails", []), proof_error=(self.proof or {}).get("error")),
                  open(path, "w"), indent=1)
        self.violations.append((path, "%s: input %r gives %s, expected %s" % (what, self.show(inp, 120), got[:160], want[:160])))

    def refuted(self, fn):
        os.makedirs(self.evid, exist_ok=True)
        path = os.path.join(self.evid, "replay_%s_%d.json" % (self.pid, len(self.violations)))
        json.dump(dict(property=self.pid, what=fn, failed_obligations=self.proof["fails"], verifier={k: v for k, v in self.proof.items() if k != "input"}), open(path, "w"), indent=1, default=str)
        self.violations.append((path + " no-failing-input-found", "%s: the verifier rejects: %s" % (fn, "; ".join(self.proof["fails"]))))

    # -------- inputs
    def search_text(self, full):
        p = PROPS[self.pid]
        spec = p["spec"]()
        orc = Oracle(spec)
        toks, nums = harvest(os.path.join(self.src, "yul2ir", "utils.rs"))
        rng = random.Random(self.seed)
        size = dict(C30=(5, 7), C31=(4, 6))[self.pid][1 if full else 0]
        deep = self.tier == "thorough"
        if deep and full:
            size += 1

        def stream():
            yield from orc.all(spec.alphabet, size)
            for t in random_texts(self.pid, spec, rng, (300000 if full else 20000) * (4 if deep else 1), toks, nums):
                yield (t,) + orc.run(t)
            if self.pid == "C31":
                for t in escapes(rng, (200000 if full else 10000) * (4 if deep else 1)):
                    yield (t,) + orc.run(t)
            for t in repeats(spec.alphabet, [x for x in EXTRA[self.pid] if len(x) < 6], full):
                yield (t,) + orc.run(t)
        bad, it = [], stream()
        while True:
            part = take(it)
            if not part:
                break
            res = self.driver.run([t.encode() for t, _, _ in part])
            for (t, m, w), (s, g) in zip(part, res):
                if not agrees(m, w, s, g):
                    bad.append((t, m, w, s, g))
            if bad:
                break
        bad.sort(key=lambda x: len(x[0]))
        for t, m, w, s, g in bad[:1]:
            want = "a rejection (%s...)" % MARK if m == "REJ" else repr(w)
            self.violation(p["fn"], t.encode(), "text", want, repr(self.show(g)) if s == "ok" else s)
        return "all texts up to length %d over %r, %d random texts" % (size, spec.alphabet, self.driver.ran)

    def search_frame(self, full):
        rng = random.Random(self.seed)
        _, nums = harvest(os.path.join(self.src, "yul2ir", "utils.rs"))
        lens = list(range(0, 600)) + [1023, 1024, 1025, 4095, 4096, 4097, 32767, 32768, 65534, 65535, 65536, 65537, 100000, 131072,
                                      (1 << 20) - 1, 1 << 20, (1 << 24) - 1, 1 << 24, (1 << 24) + 1]
        lens += [n for n in nums if n <= 1 << 22] + [rng.randrange(0, 70000) for _ in range(200 if full else 30)]
        recs = [self.proof["input"]] if self.proof.get("input") is not None else []
        for n in lens:
            recs.append(rng.randbytes(n))
        for n in list(range(0, 70)) + [255, 256, 65536]:
            recs += [bytes(n), b"\xff" * n, b"\0asm" + bytes(n)]
            # input that itself starts with a length
            recs += [struct.pack(">I", n) + rng.randbytes(n), struct.pack("<I", n) + rng.randbytes(n)]
        for n in list(range(4, 70)) + [255, 256, 4096, 5000, 65536] + [n for n in nums if 4 <= n <= 1 << 20]:
            recs += [struct.pack(o, m) + rng.randbytes(n - 4) for o in (">I", "<I") for m in (n, n + 4)]
        for a in range(0, len(recs), 400):
            part = recs[a:a + 400]
            for r, (s, g) in zip(part, self.driver.run(part)):
                w = struct.pack(">I", len(r)) + r
                if s != "ok" or g != w:
                    self.violation(PROPS[self.pid]["fn"], r, "bytes", "%s... (%d bytes)" % (w[:16].hex(), len(w)),
                                   "%s... (%d bytes)" % (g[:16].hex(), len(g)) if s == "ok" else s)
                    return ""
        return "%d inputs, all lengths below 600 and selected ones up to 2^24+1" % len(recs)

    def search_literals(self, full):
        rng = random.Random(self.seed)
        cases = list(literal_cases(rng, not full))
        try:
            res = self.parser.run([(k, t) for k, t, _ in cases])
        except subprocess.TimeoutExpired:
            self.notes.append("the parser did not answer in time on the literal set")
            return ""
        bad = sorted(((k, t, e, g) for (k, t, e), g in zip(cases, res) if not lit_agrees(e, g)), key=lambda x: len(x[1]))
        if len(res) < len(cases):
            k, t, e = cases[len(res)]
            bad = [(k, t, e, ("P", b"the parser died"))]
        for k, t, e, g in bad[:1]:
            self.violation("parsing a literal", t.encode(), "literal." + k, repr(e[1]) if e[0] == "ok" else "a rejection",
                           {"P": "panic", "E": "rejected"}.get(g[0], repr(self.show(g[1]))))
        f = self.parser.run([("s", '"%s"' % t) for t in LIT_FIND])
        for x in self.findings:
            if x["property"] == self.pid and any(g[0] == "O" and g[1].startswith(MARK.encode()) for g in f):
                self.known.append(x)
        return "%d literals through the generated parser: all sequences of up to %d of %d lexical elements, random longer ones" % (
            len(cases), 3 if full else 2, len(LIT_OK))

    # --------
    def run(self):
        self.work = build.workdir()
        src = os.path.join(self.src, "yul2ir", "utils.rs")
        p = PROPS[self.pid]
        self.proof = None
        q = mp.get_context("fork").Queue()
        proc = mp.get_context("fork").Process(target=prove, args=(self.pid, src, q))
        try:
            proc.start()
            self.parser = Parser(self.work, self.src) if self.pid == "C31" else None
            self.driver = Driver(self.work, self.src, p["call"])
            if self.parser:
                self.parser.ready()
            limit = 420 if self.tier == "quick" else 1800
            end = time.time() + limit
            while self.proof is None:
                try:
                    self.proof = q.get(timeout=5)
                except queue.Empty:
                    if time.time() > end:
                        self.proof = dict(error="no answer in %d s" % limit, fails=[], obls={}, std=[], fns=[], cuts=0, secs=limit)
                    elif not proc.is_alive():
                        try:
                            self.proof = q.get(timeout=2)
                        except queue.Empty:
                            self.proof = dict(error="the verifier ended without an answer", fails=[], obls={}, std=[], fns=[], cuts=0, secs=0)
            proc.kill()
            self.proved = not self.proof["error"] and not self.proof["fails"] and bool(self.proof["obls"])
            full = not self.proved or self.tier == "thorough"
            bound = (self.search_frame if p["spec"] is None else self.search_text)(full)
            if self.proof["fails"] and not self.violations:
                # refuted, but nothing found on which the compiled function goes wrong
                self.refuted(p["fn"])
            if not self.proved:
                self.bounded.append(dict(contract=p["fn"], reason=self.proof["error"] or "; ".join(self.proof["fails"]), bound=bound))
            else:
                self.notes.append("cross-check of the compiled function: " + bound)
            if self.parser:
                b = self.search_literals(True)
                self.bounded.append(dict(contract="string, hex and data literals (actions of src/yul.lalrpop)",
                                         reason="generated parser tables and the regex crate are outside the verifier's reach", bound=b))
            self.evidence()
        finally:
            proc.kill()
            build.cleanup(self.work)
        for f in self.known:
            print("KNOWN-FINDING: property=%s %s" % (self.pid, f["what"]))
        for path, t in self.violations:
            print("  " + t)
            print("VIOLATION property=%s replay=%s" % (self.pid, path))
        n = sum(self.proof["obls"].values())
        print("%s: %s %s, %d obligations, %.1fs" % (self.pid, p["fn"], "proved" if self.proved else "bounded (%s)" % (
            self.proof["error"] or "; ".join(self.proof["fails"])), n, time.time() - self.t0))
        return 1 if self.violations else 0

    def evidence(self):
        os.makedirs(self.evid, exist_ok=True)
        pr, p = self.proof, PROPS[self.pid]
        n = sum(pr["obls"].values())
        ev = dict(property=self.pid, tier=self.tier, seed=self.seed, level="proof", wall_s=round(time.time() - self.t0, 2),
                  coverage=dict(
                      obligations=max(n, 1), discharged=n if self.proved else 0,
                      checker_cmd="python3-vt -m vf.run %s" % self.pid, trusted_base=TRUSTED,
                      functions_under_contract=[dict(function=p["fn"], status="proved" if self.proved else "bounded", obligations=n,
                                                     invariants=pr["cuts"], seconds=round(pr["secs"], 2), error=pr["error"])],
                      verified_through_their_bodies=pr["fns"], library_contracts_used=pr["std"], obligations_by_name=pr["obls"],
                      refuted=pr["fails"], discharged_by=pr.get("queries", {}), bounded=self.bounded, notes=self.notes,
                      known_findings=[f["id"] for f in self.known], compiled_executions=self.driver.ran + (self.parser.ran if self.parser else 0),
                      violations=[t for _, t in self.violations]),
                  assumptions=ASSUME)
        json.dump(ev, open(os.path.join(self.evid, self.pid + ".json"), "w"), indent=1)


TRUSTED = [
    "rustc: the verified text is the MIR rustc (nightly) emits from /repo/src/yul2ir/utils.rs on every run; the release build uses the stable compiler",
    "the MIR semantics, library contracts (std_call) and invariant generator in /verif/vf (mir.py, rsx.py)",
    "z3 (QF_BV), and the term simplifier in vf/terms.py",
]
ASSUME = [
    "inputs are shorter than 2^30 bytes (text) or 2^32 bytes (framed code)",
    "allocation succeeds; &str arguments are valid UTF-8",
    "library functions of core/alloc behave as their documentation states (the contracts in std_call; listed under library_contracts_used)",
    "the formatted error text starts with the literal text of its format string",
]


def replay(d):
    pid = d["property"]
    w = build.workdir()
    try:
        src = os.path.join(build.REPO, "src")
        inp = bytes.fromhex(d["input_hex"])
        if d["rust"].startswith("literal."):
            P = Parser(w, src)
            P.ready()
            got = P.run([(d["rust"][-1], inp.decode())])
        else:
            got = Driver(w, src, PROPS[pid]["call"]).run([inp])
        print("input:", d["input"], "\nexpected:", d["expected"], "\nrecorded:", d["observed"])
        print("observed now:", [(s, g[:200]) for s, g in got])
    finally:
        build.cleanup(w)
    return 0
