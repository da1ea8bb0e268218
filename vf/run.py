"""Check one property: verify every function under contract for it, replay what fails, report.

    python3-vt -m vf.run C04            (VERIF_TIER=quick|thorough, VERIF_SEED=n)
    python3-vt -m vf.run --replay FILE  (run a recorded counterexample against the current tree)
"""
import hashlib
import json
import os
import re
import subprocess
import sys
import time
import traceback

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, ROOT)

from vf import build, ir, pool, replay, solve, verify                     # noqa: E402
from vf.spec import REG, C, V                                       # noqa: E402
from vf.terms import leaves, And, Not, ule, TRUE                    # noqa: E402
import contracts.all                                                # noqa: E402,F401

EVID = os.environ.get("VERIF_EVIDENCE") or os.path.join(ROOT, "evidence")
MOD, DBG, STAT, DSTAT = None, None, None, None


# ------------------------------------------------------------------ worker
def cex_values(c, fail):
    """concrete parameter values and environment of a failed obligation"""
    m, ex = fail["model"], fail["ex"]
    vals = {}
    used = set(leaves(And(*fail["conds"])))
    for n, k in c.params:
        if k[0] in "po" and k[1:].isdigit():
            vals[n] = bytes(m.z(V("%s[%d]" % (n, i), 8)) for i in range(int(k[1:])))
            r = ex.regions.get("arg." + n)
            if r is not None and r.base in used:
                for q, kk in c.params:
                    if q == n:
                        break
                    q_ = ex.regions.get("arg." + q)
                    if kk == k and k[0] == "p" and q_ is not None and q_.base in used and vals[q] == vals[n] and \
                            m.z(q_.base) == m.z(r.base):
                        vals.setdefault("alias", {})[n] = vals.get("alias", {}).get(q, q)
                        break
        elif k[0] in "bB" and k[1:2] == "=":
            pass
        elif k[0] == "r":
            vals[n] = m.z(V(n + ".off", 32))
            vals["size." + k[1:]] = m.z(V("size." + k[1:], 32))
        elif k[0] in "bB" or k == "doff":
            vals["size." + n] = m.z(V("size." + n, 32))
        elif k[0] == "i" or k == "eoff":
            w = 32 if k == "eoff" else int(k[1:])
            vals[n] = ex.sub[n] if n in getattr(ex, "sub", {}) else m.z(V(n, w))
    over = {}
    pre = []
    params = {n for n, _ in c.params}
    for x in leaves(And(*fail["conds"])):
        if x.op != "var" or not isinstance(x.v, str):
            continue
        if any(ch in x.v for ch in "#[&.'") or x.v in params:
            if x.v == "inv.calldata_cached" and m.z(x):
                pre.append("cached")
            continue
        if x.v in ("Efull", "pages"):
            continue
        if x.v == "deploying":
            if m.z(x):
                pre.append("deploying")
        elif x.v == "memptr":
            pre.append(("memptr", m.z(x)))
        elif x.w:
            over[x.v] = m.z(x)
    for k, v in m.tab.items():
        name, na = k[0], (len(k) - 2) // 2
        if name.split(".")[0] in ("uninit", "static", "umul", "pow", "inv"):
            continue
        args = k[2 + na:]
        if name == "evm" and args[0] >= 65536:
            continue
        over["|".join([name] + ["%x" % a for a in args])] = int(v)
    return dict(vals={k: (v.hex() if isinstance(v, bytes) else v) for k, v in vals.items()}, over=over, pre=pre)


def small_model(c, fail):
    """prefer a counterexample with small sizes and offsets"""
    ex = fail["ex"]
    for lim, big in ((600, 0x10100), (70000, 0x30000)):
        extra = []
        for n, k in c.params:
            if k == "i32" or k == "eoff":
                extra.append(ule(V(n, 32), C(big if k == "eoff" else lim, 32)))
            elif k[0] in "bBr" and k[1:2] != "=":
                extra.append(ule(V("size." + (k[1:] if k[0] == "r" else n), 32), C(lim, 32)))
        for x in leaves(And(*fail["conds"])):
            if x.w == 32 and x.op == "var" and x.v in ("cdsize", "codesize"):
                extra.append(ule(x, C(lim, 32)))
            if x.w == 32 and x.op == "uf" and x.v == "rds":
                extra.append(ule(x, C(lim, 32)))
        if extra:
            r, m = solve.check(list(fail["conds"]) + extra, 5000)
            if r == "sat":
                fail["model"] = m
                return


def unknown_state(s, conds):
    """the refutation rests on contents of a static whose role (and so its invariant) was not recognised"""
    if not s.missing:
        return False
    return any(n == "static." + g or n.startswith("static." + g + "'") for g in s.missing for n in ufs(conds))


def ufs(conds):
    seen, out, st = set(), set(), list(conds)
    while st:
        x = st.pop()
        if x.id in seen:
            continue
        seen.add(x.id)
        if x.op == "uf":
            out.add(x.v)
        st += [y for y in x.a or () if hasattr(y, "id")]
    return out


def work(job):
    key, case, timeout, dropped = job
    c = REG[key]
    t = time.time()
    m, s = (DBG, DSTAT) if c.debug else (MOD, STAT)
    out = dict(key=key, case=case, obls=[], failed=[], undecided=[], error=None, meta={})
    try:
        solve.STATS.clear()
        r = verify.verify_function(m, c, timeout=timeout, statics=s, only_cases=case, dropped=dropped)
        out.update(obls=r.obls, undecided=r.undecided, error=r.error,
                   meta={k: (sorted(v) if isinstance(v, set) else v) for k, v in r.meta.items()})
        for f in r.failed:
            d = dict(obl=f["obl"], kind=f["kind"], unknown_state=unknown_state(s, f["conds"]))
            try:
                small_model(c, f)
                d["cex"] = cex_values(c, f)
            except Exception as e:
                d["cex_error"] = repr(e)
            out["failed"].append(d)
        out["stats"] = dict(solve.STATS)
    except Exception as e:
        out["error"] = "internal: %r %s" % (e, traceback.format_exc()[-800:])
    out["secs"] = time.time() - t
    return out


def jobs_of(key, timeout, dropped=()):
    c = REG[key]
    if not c.cases:
        return [(key, None, timeout, dropped)]
    labs = [lab for lab, _, _ in c.cases()]
    n = min(16, len(labs))
    return [(key, tuple(labs[i::n]), timeout, dropped) for i in range(n)]


def merge(outs):
    r = dict(outs[0])
    for o in outs[1:]:
        r["obls"] = r["obls"] + o["obls"]
        r["failed"] = r["failed"] + o["failed"]
        r["undecided"] = r["undecided"] + o["undecided"]
        r["error"] = r["error"] or o["error"]
        r["secs"] += o["secs"]
        for k, v in o["meta"].items():
            if isinstance(v, list):
                r["meta"][k] = sorted(set(r["meta"].get(k, [])) | set(v))
            elif isinstance(v, (int, float)):
                r["meta"][k] = r["meta"].get(k, 0) + v
        for k, v in o.get("stats", {}).items():
            r.setdefault("stats", {})[k] = r.get("stats", {}).get(k, 0) + v
    return r


def verify_all(keys, timeout, dropped=()):
    jobs = [j for k in keys for j in jobs_of(k, timeout, dropped)]
    res = {}
    # (verification forks from a process that has already parsed the code)
    for i, o, why in pool.pmap(work, jobs, deadline=DEADLINE):
        if o is None:
            o = dict(key=jobs[i][0], case=jobs[i][1], obls=[], failed=[], undecided=[], error=why, meta={}, secs=0.0)
        res.setdefault(o["key"], []).append(o)
    return {k: merge(v) for k, v in res.items()}


# ------------------------------------------------------------------ deciding
def proved(r):
    return not r["error"] and not r["failed"] and not r["undecided"] and \
        all(o[2] == "unsat" for o in r["obls"]) and r["obls"]


def prefix_calls(pre):
    out = []
    for p in pre:
        if p == "deploying":
            out.append(replay.Call(REG["set_is_deploying_tx"], {}))
        elif p == "cached":
            out.append(replay.Call(REG["wrapper_calldata_load_selector"], {}))
        elif p[0] == "memptr":
            out.append(replay.Call(REG["wrapper_set_memptr_global"], {"evm_mem": p[1]}))
    return out


def decode_vals(vals):
    return {k: bytes.fromhex(v) if isinstance(v, str) else v for k, v in vals.items()}


STATEFUL = ("set_is_deploying_tx", "wrapper_set_memptr_global", "wrapper_calldata_size", "wrapper_calldataload_bytes32",
            "wrapper_calldata_load_selector", "wrapper_mstore_bytes32", "wrapper_memory_guard")


CHECK = None
ARGS = None
DEADLINE = SEARCH_DEADLINE = None       # end of the proofs, end of the searches (quick tier)


def search1(i):
    R, ts, pre, seed, rounds = ARGS
    n = R.ran
    return replay.search(R, ts, pre, seed * 1000 + i, rounds, size=100), R.ran - n


def cross1(k):
    R = CHECK.runner(REG[k].debug)
    n = R.ran
    return CHECK.search(REG[k], 20, par=1), R.ran - n


class Check:
    def __init__(self, pid, tier, seed):
        self.pid, self.tier, self.seed = pid, tier, seed
        self.t0 = time.time()
        self.violations, self.known, self.bounded, self.notes = [], [], [], []
        self.runners = {}
        self.dropped = {}
        self.findings = json.load(open(os.path.join(ROOT, "known_findings.json")))["findings"]

    def runner(self, debug=False):
        if debug not in self.runners:
            m = DBG if debug else MOD
            self.runners[debug] = replay.Runner(build.emit_wasm(self.work, build.exported(m), debug))
        return self.runners[debug]

    def search(self, c, rounds, targets=None, par=8):
        if c.name not in (DBG if c.debug else MOD).funcs and not targets:
            return []
        R = self.runner(c.debug)
        c = REG.get(c.name + "#finding", c)
        targets = [REG.get(t.name + "#finding", t) for t in targets or []]
        pre = [REG[k] for k in STATEFUL if k in REG] + [x for x in REG.values() if self.pid in x.props and not x.variant
                                                       and not x.custom]
        pre = [REG.get(p.name + "#finding", p) for p in pre if p.name in MOD.funcs]
        if par == 1:
            return replay.search(R, targets or [c], pre, self.seed, rounds)
        global ARGS
        ARGS = (R, targets or [c], pre, self.seed, 1)
        found = []
        for i, x, why in pool.pmap(search1, range(16 * rounds), par, SEARCH_DEADLINE, None):
            if x is None:
                if why != "out of time":
                    self.notes.append("search: " + why)
                continue
            found += x[0]
            R.ran += x[1]
            if found:
                break
        return sorted(found, key=lambda x: len(json.dumps(x[1]["job"], default=str)))

    def replayable(self, c):
        return not c.custom and c.name in (DBG if c.debug else MOD).funcs

    def violation(self, c, obl, dump, text, reproduced):
        os.makedirs(EVID, exist_ok=True)
        path = os.path.join(EVID, "replay_%s_%d.json" % (self.pid, len(self.violations)))
        json.dump(dict(dump, property=self.pid, function=c.name, contract=c.key, obligation=obl, difference=text,
                       reproduced=reproduced), open(path, "w"), indent=1, default=str)
        self.violations.append((path, reproduced, "%s: %s" % (obl, text)))

    def decide(self, key, r):
        c = REG[key]
        if proved(r):
            return "proved"
        if r["failed"]:
            if key in self.variant_ok:
                f = [f for f in self.findings if key in f.get("contracts", [])]
                if f:
                    self.known += [x for x in f if x not in self.known]
                    return "known finding"
            if key + "#finding" in self.res:
                # judge (and replay) against the contract that includes the listed deviation
                v = self.res[key + "#finding"]
                if v["failed"]:
                    r, c = v, REG[key + "#finding"]
            obl = r["failed"][0]["obl"]
            if c.standin:
                found = c.standin(self)
                if found:
                    self.violation(c, obl, dict(found[0][1], origin="history replayed after a failed obligation"), found[0][0], True)
                    return "violated"
            # replay the verifier's counterexamples against the compiled code
            if self.replayable(c):
                hist = []
                for f in r["failed"]:
                    if "cex" in f:
                        x = f["cex"]
                        call = replay.Call(c, decode_vals(x["vals"]))
                        for pre in ([], prefix_calls(x["pre"])):
                            hist.append((pre + [call], self.seed, x["over"]))
                try:
                    found = [d for d in self.runner(c.debug).batch(hist) if d[3]["function"] == c.name]
                except Exception as e:
                    self.notes.append("replay of %s: %r" % (key, e))
                    found = []
                if found:
                    self.violation(c, obl, dict(found[0][3], origin="verifier counterexample"), found[0][2], True)
                    return "violated"
                found = self.search(c, 6 if self.tier == "quick" else 40)
                if found:
                    self.violation(c, obl, dict(found[0][1], origin="differential search after a failed obligation"), found[0][0], True)
                    return "violated"
            callers = self.callers_of(c)
            if callers:
                found = self.search(c, 6, callers)
                if found:
                    self.violation(c, obl, dict(found[0][1], origin="differential search through the callers"), found[0][0], True)
                    return "violated"
            if all(f.get("unknown_state") for f in r["failed"]):
                # not a refutation: the invariant of that static is not known
                self.bounded.append(dict(contract=key, reason="the representation of the module's state was not recognised; not proved: " + obl,
                                         bound="random executions of the compiled function and its callers, no difference"))
                return "bounded"
            self.violation(c, obl, dict(verifier=[dict(obl=f["obl"], cex=f.get("cex"), note=f.get("cex_error")) for f in r["failed"]]),
                           "the verifier rejects this obligation", False)
            return "violated (no failing input found)"
        # not decided by the verifier: bounded stand-in
        why = r["error"] or "undecided: " + "; ".join(r["undecided"][:3])
        targets = None
        if c.standin:
            n0 = self.runner(c.debug).ran
            found = c.standin(self)
            if found:
                self.violation(c, "%s: bounded check (%s)" % (key, why), dict(found[0][1], origin="bounded check"), found[0][0], True)
                return "violated"
            self.bounded.append(dict(contract=key, reason=why, bound="%d histories on the compiled code" % (self.runner(c.debug).ran - n0)))
            return "bounded"
        if not self.replayable(c):
            targets = self.callers_of(c)
            if not targets:
                self.bounded.append(dict(contract=key, reason=why, bound="no executable stand-in"))
                return "not decided"
        n0 = self.runner(c.debug).ran
        found = self.search(c, 4 if self.tier == "quick" else 40, targets)
        if found:
            self.violation(c, "%s: bounded differential check (%s)" % (key, why), dict(found[0][1], origin="bounded differential check"),
                           found[0][0], True)
            return "violated"
        self.bounded.append(dict(contract=key, reason=why, bound="%d random executions of the compiled function, no difference" %
                                 (self.runner(c.debug).ran - n0)))
        return "bounded"

    def callers_of(self, c):
        """contracts of exported functions that reach c's function"""
        m = DBG if c.debug else MOD
        if c.targets:
            return [REG[t] for t in c.targets if t in REG and t in m.funcs and REG[t].fn and not REG[t].custom]
        calls = {}
        for f in m.funcs.values():
            calls[f.name] = {i.a["f"][1] for b in f.blocks.values() for i in b
                             if i.op == "call" and i.a["f"][0] == "glob"}
        out = []
        for x in REG.values():
            if x.variant or x.custom or not x.fn or x.name not in m.funcs or x.name == c.name or x.debug != c.debug:
                continue
            seen, st = set(), [x.name]
            while st:
                y = st.pop()
                if y in seen:
                    continue
                seen.add(y)
                st += [z for z in calls.get(y, ()) if z in m.funcs]
            if c.name in seen:
                out.append(x)
        return out

    def run(self):
        global MOD, DBG, STAT, DSTAT, DEADLINE, SEARCH_DEADLINE
        if self.tier == "quick":
            DEADLINE, SEARCH_DEADLINE = self.t0 + 420, self.t0 + 720
        self.work = build.workdir()
        try:
            MOD = build.module(self.work)
            STAT = verify.Statics(MOD)
            keys = [k for k, c in REG.items() if self.pid in c.props and not c.variant.startswith("finding")]
            if any(REG[k].debug for k in keys):
                DBG = build.module(self.work, True)
                DSTAT = verify.Statics(DBG)
            timeout = 60000 if self.tier == "quick" else 300000
            self.res = verify_all(keys, timeout)
            self.variant_ok = {}
            vk = [k for k in keys if not proved(self.res[k]) and k + "#finding" in REG]
            if vk:
                vr = verify_all([k + "#finding" for k in vk], timeout)
                for k in vk:
                    self.res[k + "#finding"] = vr[k + "#finding"]
                    if proved(vr[k + "#finding"]):
                        self.variant_ok[k] = k + "#finding"
            self.drop_soft(keys, timeout)
            self.verify_deps(keys, timeout)
            self.status = {k: self.decide(k, self.res[k]) for k in keys}
            if self.tier == "thorough":
                self.cross_check(keys)
            self.evidence(keys)
        finally:
            build.cleanup(self.work)
        for f in self.known:
            print("KNOWN-FINDING: property=%s %s" % (self.pid, f["what"]))
        for p, rep, text in self.violations:
            print("  " + text)
            print("VIOLATION property=%s replay=%s%s" % (self.pid, p, "" if rep else " no-failing-input-found"))
        n = sum(len(r["obls"]) for r in self.res.values())
        print("%s: %d functions under contract, %d obligations, %s, %.1fs" %
              (self.pid, len(keys), n, ", ".join("%d %s" % (list(self.status.values()).count(s), s) for s in sorted(set(self.status.values()))),
               time.time() - self.t0))
        return 1 if self.violations else 0

    def used_by(self, r):
        return set(r["meta"].get("contracts_used", []))

    def verify_deps(self, keys, timeout):
        """the contracts of callees the proofs rest on, transitively; a callee that does not meet its contract
        is no longer used: its callers are verified through its body"""
        self.deps, self.unmet = {}, {}
        dropped = set()
        while True:
            need = set()
            for r in [self.res[k] for k in self.res] + list(self.deps.values()):
                need |= self.used_by(r)
            need -= dropped
            new = []
            for n in sorted(need):
                if n in keys or n in self.deps or n not in REG and n + "#finding" not in REG:
                    continue
                new.append(n)
            if new:
                # (the deviations of known findings are hypotheses here; they are reported where they are listed)
                at = {n: n + "#finding" if n + "#finding" in REG else n for n in new}
                r = verify_all(sorted(at.values()), timeout, tuple(sorted(dropped)))
                for n in new:
                    self.deps[n] = r[at[n]]
            bad = {n for n, r in self.deps.items() if not proved(r)} - dropped
            if not bad:
                if new:
                    continue
                return
            dropped |= bad
            for n in bad:
                self.unmet[n] = self.deps.pop(n)
                self.notes.append("%s does not meet the contract its callers rely on here (%s); they were verified through its body" % (
                    n, self.unmet[n]["error"] or "; ".join([f["obl"] for f in self.unmet[n]["failed"]] + self.unmet[n]["undecided"])[:300]))
            redo = [k for k in self.res if self.used_by(self.res[k]) & bad]
            rd = [n for n, r in self.deps.items() if self.used_by(r) & bad]
            at = {n: n + "#finding" if n + "#finding" in REG else n for n in rd}
            if redo or rd:
                r = verify_all(redo + sorted(at.values()), timeout, tuple(sorted(dropped)))
                for n in rd:
                    self.deps[n] = r[at[n]]
                for k in redo:
                    self.res[k] = r[k]
                fk = [k + "#finding" for k in redo if not proved(r[k]) and k + "#finding" in REG and k + "#finding" not in redo]
                fr = verify_all(fk, timeout, tuple(sorted(dropped))) if fk else {}
                self.res.update(fr)
                for k in redo:
                    f = k + "#finding"
                    if f in self.res:
                        if proved(self.res[f]):
                            self.variant_ok[k] = f
                        else:
                            self.variant_ok.pop(k, None)

    def drop_soft(self, keys, timeout):
        """contracts of internal helpers are a means: when a helper no longer meets its contract, its callers
        are verified through its body instead"""
        bad = [k for k in keys if REG[k].soft and k not in self.variant_ok and not proved(self.res[k])]
        if not bad:
            return
        names = tuple(REG[k].name for k in bad)
        users = sorted({x.key for k in bad for x in self.callers_of(REG[k]) if self.pid in x.props})
        if not users:
            return
        r = verify_all(users, timeout, names)
        fk = [k + "#finding" for k in users if not proved(r[k]) and k + "#finding" in REG]
        fr = verify_all(fk, timeout, names) if fk else {}
        for k in users:
            self.res[k] = r[k]
            if k + "#finding" in fr:
                self.res[k + "#finding"] = fr[k + "#finding"]
                if proved(fr[k + "#finding"]):
                    self.variant_ok[k] = k + "#finding"
        if all(proved(r[k]) or k in self.variant_ok for k in users):
            for k in bad:
                self.dropped[k] = self.res.pop(k)
                self.res.pop(k + "#finding", None)
                keys.remove(k)
                self.notes.append("%s does not meet its internal contract; its callers were verified through its body" % k)

    def cross_check(self, keys):
        """thorough: the contracts against the compiled release code on random inputs (guards the trusted
        step from LLVM IR semantics to wasm and the host assumptions)"""
        global CHECK
        CHECK = self
        ks = [k for k in keys if self.replayable(REG[k]) and self.status[k] in ("proved", "bounded", "known finding")
              and not REG[k].variant]
        for k in ks:
            self.runner(REG[k].debug)
        for i, x, why in pool.pmap(cross1, ks, 8, None, None):
            if x is None:
                self.notes.append("cross-check of %s: %s" % (ks[i], why))
                continue
            found, ran = x
            self.runner(REG[ks[i]].debug).ran += ran
            if found:
                self.violation(REG[ks[i]], ks[i] + ": compiled code differs from the contract", dict(found[0][1], origin="cross-check"),
                               found[0][0], True)

    def evidence(self, keys):
        os.makedirs(EVID, exist_ok=True)
        obls, dis, secs = 0, 0, 0.0
        fns, refuted = [], []
        used, inl, host = set(), set(), set()
        solver = {}
        samples = []
        for k, r in list(self.res.items()) + list(self.deps.items()):
            if k in self.deps:
                self.status[k] = "callee contract, proved"
            secs += r["secs"]
            d = sum(1 for o in r["obls"] if o[2] == "unsat")
            if self.status.get(k) == "known finding":
                # the deviant contract's obligations are counted instead
                refuted += [f["obl"] for f in r["failed"]]
            else:
                obls += len(r["obls"])
                dis += d
            mt = r["meta"]
            used |= set(mt.get("contracts_used", []))
            inl |= set(mt.get("inlined", []))
            host |= set(mt.get("host", []))
            for s, v in r.get("stats", {}).items():
                solver[s] = solver.get(s, 0) + v
            fns.append(dict(function=k, status=self.status.get(k, "deviant contract of a known finding"), obligations=len(r["obls"]),
                            discharged=d, seconds=round(r["secs"], 2), loops_by_invariant=mt.get("loops_summarised", 0),
                            loops_unrolled_completely=mt.get("loops_unrolled", 0), error=r["error"]))
            if len(samples) < 6:
                samples += [o[0] for o in r["obls"][-2:]]
        ev = dict(property=self.pid, tier=self.tier, seed=self.seed, level="proof", wall_s=round(time.time() - self.t0, 2),
                  coverage=dict(
                      obligations=obls, discharged=dis,
                      checker_cmd="python3-vt -m vf.run %s" % self.pid,
                      trusted_base=TRUSTED + ["host interface contract of " + h for h in sorted(host)],
                      functions_under_contract=fns, callee_contracts_used=sorted(used), callee_contracts_proved_in_this_run=sorted(self.deps),
                      callee_contracts_not_met_and_not_used=sorted(self.unmet), helpers_inlined=sorted(inl),
                      discharged_by=solver, solver_and_generation_seconds=round(secs, 2), sample_obligations=samples,
                      bounded=self.bounded, known_findings=[f["id"] for f in self.known],
                      refuted_obligations_of_known_findings=refuted, notes=self.notes,
                      replayed_executions=sum(R.ran for R in self.runners.values()),
                      violations=[t for _, _, t in self.violations]),
                  assumptions=ASSUME)
        json.dump(ev, open(os.path.join(EVID, self.pid + ".json"), "w"), indent=1)


TRUSTED = [
    "clang-16 front end: the verified text is the LLVM IR clang emits (-O0, wasm32) from /repo/stdlib/*.c on every run",
    "the IR semantics and verification-condition generator in /verif/vf (execu.py, loops.py, mem.py)",
    "z3 (QF_BV), and the term simplifier in vf/terms.py",
    "clang -O2 and wasm-ld preserve the semantics of that IR (sampled by replay against the linked wasm)",
]
ASSUME = [
    "host functions behave as vf/host.py states (they are external and unverified)",
    "pointer arguments of a wrapper point to distinct, valid 32-byte cells (as the code generator allocates them)",
    "EVM memory offsets and sizes are non-negative and ranges end below 2^31; calldata, code and return data are shorter than 2^30 bytes",
    "memory growth fails by trapping (wasm trap ends the call)",
]


def do_replay(path):
    global MOD
    d = json.load(open(path))
    if "rust" in d:
        from vf import rs
        return rs.replay(d)
    if "job" not in d:
        print(json.dumps(d, indent=1)[:4000])
        return 0
    w = build.workdir()
    try:
        dbg = REG[d["contract"]].debug
        MOD = build.module(w, dbg)
        wasm = build.emit_wasm(w, build.exported(MOD), dbg)
        p = subprocess.run(["node", os.path.join(ROOT, "vf", "host.js"), wasm], input=json.dumps([d["job"]]).encode(),
                           stdout=subprocess.PIPE)
        got = json.loads(p.stdout)[0]
        if "alloc" in d["job"]:
            print("recorded:", d["difference"], "\nobserved now:", got)
            return 0
        print("function:", d["function"], "\nrecorded difference:", d["difference"])
        print("observed now:", json.dumps(got[-1])[:2000])
        print("same outcome as recorded:", got[d["call"]] == d["observed"] if len(got) > d["call"] else False)
    finally:
        build.cleanup(w)
    return 0


def main():
    a = sys.argv[1:]
    if a[0] == "--replay":
        return do_replay(a[1])
    seed = int(os.environ.get("VERIF_SEED", "1") or "1")
    tier = os.environ.get("VERIF_TIER", "quick") or "quick"
    if "--thorough" in a:
        tier = "thorough"
    rc = 0
    for pid in [x for x in a if not x.startswith("-")]:
        if pid in ("C30", "C31", "C32"):
            from vf import rs
            rc |= rs.Check(pid, tier, seed, EVID, ROOT).run()
            continue
        rc |= Check(pid, tier, seed).run()
    return rc


if __name__ == "__main__":
    sys.exit(main())
