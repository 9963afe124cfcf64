#!/usr/bin/env python3
"""Check of one property: extract /repo's functions, verify their contracts with Verus, and run the
replay harness on the real code.

usage: check.py PROPERTY            (VERIF_SEED, VERIF_TIER from the environment)
       check.py --setup             build the extractor and the harness
       check.py --baseline          rewrite contracts/baseline.json from the current tree

Exit 0: the property held. Exit 1 with a VIOLATION line: it is broken. See DESIGN.md, "Verdicts".
"""
import collections
import json
import os
import re
import shutil
import subprocess
import sys
import threading
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VP_REPO", "/repo")
BUILD = os.path.join(VERIF, "build")
CONTRACTS = os.path.join(VERIF, "contracts")
BASELINE = os.path.join(CONTRACTS, "baseline.json")
VERUS_CMD = ["verus", "gen.rs", "--output-json", "--time-expanded", "--error-format=json", "--multiple-errors", "4"]


def env(**kw):
    e = dict(os.environ)
    out = subprocess.run(["bash", "-c", ". /opt/vp/env.sh >/dev/null 2>&1; env -0"], capture_output=True, env=e)
    if out.returncode == 0 and out.stdout:
        for kv in out.stdout.decode(errors="replace").split("\0"):
            if "=" in kv:
                k, v = kv.split("=", 1)
                e[k] = v
    e["PATH"] = e.get("PATH", "") + ":/root/.cargo/bin:/usr/local/bin:/usr/bin:/bin"
    e["CARGO_NET_OFFLINE"] = "true"
    e.pop("RUSTC_WRAPPER", None)
    e.update(kw)
    return e


def run(cmd, timeout, cwd=None, e=None):
    """(return code or None on timeout, stdout, stderr)"""
    try:
        p = subprocess.Popen(cmd, cwd=cwd, env=e or env(), stdout=subprocess.PIPE, stderr=subprocess.PIPE, start_new_session=True)
    except OSError as x:
        return None, "", str(x)
    try:
        o, s = p.communicate(timeout=timeout)
        return p.returncode, o.decode(errors="replace"), s.decode(errors="replace")
    except subprocess.TimeoutExpired:
        try:
            os.killpg(p.pid, 9)
        except OSError:
            pass
        o, s = p.communicate()
        return None, o.decode(errors="replace"), s.decode(errors="replace")


def build_vx():
    rc, o, s = run(["cargo", "build", "--offline", "--quiet"], 600, os.path.join(VERIF, "extract"), env(CARGO_TARGET_DIR=os.path.join(BUILD, "vx")))
    return (rc == 0, s[-2000:])


def build_vh(hooks=True):
    """the search binary; without the hooks it knows the public interface of the crate only"""
    e = env(CARGO_TARGET_DIR=os.path.join(BUILD, "vh" if hooks else "vh-public"), RUSTFLAGS="--cfg tchannel_verif" if hooks else "")
    e.pop("CARGO_ENCODED_RUSTFLAGS", None)
    more = [] if hooks else ["--no-default-features"]
    rc, o, s = run(["cargo", "build", "--offline", "--quiet"] + more, 600, os.path.join(VERIF, "harness"), e)
    return (rc == 0, s[-4000:])


def expand(dst):
    e = env(CARGO_TARGET_DIR=os.path.join(BUILD, "expand"), RUSTC_BOOTSTRAP="tchannel_rs")
    # a fresh invocation every time: cargo would not print the expansion of an up to date crate
    lib = os.path.join(REPO, "src", "lib.rs")
    rc, o, s = run(["cargo", "rustc", "--lib", "--features", "json", "--offline", "--quiet", "--", "-Zunpretty=expanded"], 600, REPO, e)
    if rc == 0 and not o.strip():
        shutil.rmtree(os.path.join(BUILD, "expand", "debug", ".fingerprint"), ignore_errors=True)
        rc, o, s = run(["cargo", "rustc", "--lib", "--features", "json", "--offline", "--quiet", "--", "-Zunpretty=expanded"], 600, REPO, e)
    if rc != 0 or not o.strip():
        return False, s[-4000:]
    with open(dst, "w") as f:
        f.write(o)
    return True, lib


class Proof:
    """One extraction plus verification of the functions of a property."""

    def __init__(self, prop, work, tier):
        self.prop, self.work, self.tier = prop, work, tier
        self.skip = []          # functions whose body the verifier could not take on this run
        self.notes = []
        self.failed = []        # (function, obligation, rendered message)
        self.undecided = []     # (function, reason)
        self.unavailable = None # reason when no verification at all was possible
        self.obligations = self.discharged = 0
        self.smt_ms = 0
        self.functions = []
        self.trusted = []
        self.vacuous = []
        self.reach = (0, 0)
        self.index = None
        self.slow = []

    # ---- extraction
    def extract(self, d, extra, everything=False):
        os.makedirs(d, exist_ok=True)
        cmd = [os.path.join(BUILD, "vx", "debug", "vx"), "--src", os.path.join(REPO, "src"), "--expanded", os.path.join(self.work, "exp.rs"),
               "--contracts", CONTRACTS, "--out", os.path.join(d, "gen.rs"), "--index", os.path.join(d, "gen.json")]
        if self.prop and not everything:
            cmd += ["--verify-props", self.prop]
        if self.skip:
            cmd += ["--skip-body", "|".join(self.skip)]
        if self.drops:
            cmd += ["--drop", "|".join(self.drops)]
        rc, o, s = run(cmd + extra, 120)
        if rc != 0:
            m = re.search(r"^BODY (.+)$", s or "", re.M)
            if m and m.group(1) not in self.skip and len(self.skip) < 40:
                self.skip.append(m.group(1))
                self.undecided.append((m.group(1), "outside the extractor's subset on this run"))
                return self.extract(d, extra, everything)
            return None, "extraction failed: " + (s or o)[-1500:]
        with open(os.path.join(d, "gen.json")) as f:
            return json.load(f), ""

    drops = ()

    def verus(self, d, extra=()):
        rc, o, s = run(VERUS_CMD + list(extra), 420, d)
        try:
            j = json.loads(o)
        except ValueError:
            j = {}
        errs = []
        for line in s.splitlines():
            try:
                m = json.loads(line)
            except ValueError:
                continue
            if m.get("level") == "error" and not m.get("message", "").startswith("aborting due to"):
                errs.append(m)
        return rc, j, errs, s

    def locate(self, d, index, msg):
        """function (or lemma) an error belongs to"""
        spans = msg.get("spans", [])
        spans = [x for x in spans if os.path.basename(x["file_name"]) == "gen.rs"]
        # a failed precondition has its primary span at the call; a postcondition has a secondary at the exit
        for s in sorted(spans, key=lambda x: not x["is_primary"]):
            for f in index["functions"]:
                if f["start"] <= s["line_start"] <= f["end"] and f["verified"]:
                    return f["path"], f
        if spans:
            s = sorted(spans, key=lambda x: not x["is_primary"])[0]
            lines = self.text(d)
            for f in index["functions"]:
                if f["start"] <= s["line_start"] <= (f["end"] or f["start"]):
                    return f["path"], f
            for i in range(s["line_start"] - 1, -1, -1):
                m = re.search(r"\b(?:proof|spec|exec|broadcast proof)?\s*fn\s+(\w+)", lines[i])
                if m:
                    return "lemma " + m.group(1), None
        return "?", None

    def text(self, d):
        if getattr(self, "_t", (None, None))[0] != d:
            with open(os.path.join(d, "gen.rs")) as f:
                self._t = (d, f.read().split("\n"))
        return self._t[1]

    def go(self):
        ok, msg = build_vx()
        if not ok:
            self.unavailable = "extractor does not build: " + msg
            return
        ok, msg = expand(os.path.join(self.work, "exp.rs"))
        if not ok:
            self.unavailable = "macro expansion of the crate failed: " + msg
            return
        base = {}
        if os.path.exists(BASELINE):
            with open(BASELINE) as f:
                base = json.load(f)
        self.base = base
        d = os.path.join(self.work, "main")
        for attempt in range(10):
            self._t = (None, None)
            index, msg = self.extract(d, [])
            if index is None:
                self.unavailable = msg
                return
            rc, j, errs, raw = self.verus(d)
            if rc is None:
                self.unavailable = "verifier timed out"
                return
            res = j.get("verification-results")
            front = res is None or res.get("encountered-vir-error") or (errs and res.get("verified", 0) + res.get("errors", 0) == 0)
            if not front:
                break
            # the verifier's front end does not take the file: leave out the bodies it names
            bad = []
            for m in errs:
                p, f = self.locate(d, index, m)
                if f is not None and f["verified"] and p not in self.skip:
                    bad.append((p, m.get("message", "")[:300]))
            if not bad:
                self.unavailable = "verifier front end: " + "; ".join(m.get("message", "")[:200] for m in errs[:4]) + ("" if errs else raw[-800:])
                return
            for p, m in bad:
                if p not in self.skip:
                    self.skip.append(p)
                    self.undecided.append((p, "outside the verifier's subset on this run: " + m))
        else:
            self.unavailable = "verifier front end: no progress"
            return
        self.index = index
        for p in index["lost"]:
            self.undecided.append((p, "contracted item not found in the source"))
        # a failure has to persist with a larger resource limit, another seed and all other functions verified beside it
        if not res.get("success"):
            ad = os.path.join(self.work, "again")
            skipped = list(self.skip)
            for attempt in range(4):
                self._t = (None, None)
                index2, msg = self.extract(ad, [], everything=True)
                if index2 is None:
                    break
                rc2, j2, errs2, raw2 = self.verus(ad, ["--rlimit", "40", "--smt-option", "smt.random_seed=3"])
                r2 = j2.get("verification-results")
                if rc2 is None or not (r2 is None or r2.get("encountered-vir-error") or r2.get("verified", 0) + r2.get("errors", 0) == 0):
                    break
                # bodies that only other properties look at may be outside the subset
                found = [self.locate(ad, index2, m) for m in errs2]
                more = set(p for p, f in found if f is not None and f["verified"]) - set(self.skip)
                if not more:
                    break
                self.skip.extend(sorted(more))
            self.skip = skipped
            self._t = (None, None)
            if index2 is None:
                self.notes.append("no second run: " + msg[:200])
            else:
                if rc2 is None or r2 is None or r2.get("encountered-vir-error") or r2.get("verified", 0) + r2.get("errors", 0) == 0:
                    self.notes.append("no second run: timed out or refused")
                else:
                    self._t = (None, None)
                    again = set(self.locate(ad, index2, m)[0] for m in errs2)
                    self._t = (None, None)
                    keep = [m for m in errs if self.locate(d, index, m)[0] in again]
                    gone = set(self.locate(d, index, m)[0] for m in errs) - again
                    if gone:
                        self.notes.append("proved only in a second run with --rlimit 40, another solver seed and all functions together: " + ", ".join(sorted(gone)))
                        errs = keep
                        n = min(len(gone), res["errors"])
                        res["errors"] -= n
                        res["verified"] += n
        self.account(d, index, j, errs)
        self.reachability(d)

    def breakdown(self, j):
        mods = (((j.get("times-ms") or {}).get("smt") or {}).get("smt-run-module-times")) or []
        out = []
        for m in mods:
            out += m.get("function-breakdown", [])
        return out

    def account(self, d, index, j, errs):
        res = j["verification-results"]
        self.obligations = res["verified"] + res["errors"]
        self.discharged = res["verified"]
        bd = self.breakdown(j)
        self.smt_ms = sum(x.get("time-micros", 0) for x in bd) // 1000
        self.slow = sorted(((x.get("time", 0), x["function"]) for x in bd), reverse=True)[:5]
        self.functions = [f for f in index["functions"] if f["verified"]]
        text = self.text(d)
        seen = set()
        for m in errs:
            p, f = self.locate(d, index, m)
            sp = [s for s in m.get("spans", []) if os.path.basename(s["file_name"]) == "gen.rs"]
            what = []
            for s in sp:
                t = text[s["line_start"] - 1].strip() if s["line_start"] <= len(text) else ""
                what.append((s.get("label") or ("here" if s["is_primary"] else "")) + " `" + t[:160] + "`")
            ob = m.get("message", "") + ": " + "; ".join(what)
            key = (p, ob)
            if key in seen:
                continue
            seen.add(key)
            if re.search(r"resource limit|rlimit|not supported|timed out|Verus internal", m.get("message", ""), re.I):
                self.undecided.append((p, m.get("message", "")))
                continue
            self.failed.append((p, ob, m.get("rendered", "")[:4000]))

    def reachability(self, d):
        """vacuity guard: with assert(false) at the start, every verified body must be rejected"""
        rd = os.path.join(self.work, "reach")
        index, msg = self.extract(rd, ["--reach"])
        if index is None:
            self.notes.append("reachability pass not possible: " + msg[:200])
            return
        rc, j, errs, raw = self.verus(rd)
        if rc is None or "verification-results" not in j:
            self.notes.append("reachability pass not possible")
            return
        t = self._t
        self._t = (None, None)
        hit = set()
        for m in errs:
            p, f = self.locate(rd, index, m)
            if f is not None and "assertion failed" in m.get("message", ""):
                hit.add(p)
        self._t = t
        want = [f["path"] for f in index["functions"] if f["verified"]]
        self.vacuous = [p for p in want if p not in hit]
        self.reach = (len(want) - len(self.vacuous), len(want))

    # ---- verdict of the proof part
    def restructured(self, path):
        """why a failing proof of this function is not evidence of a wrong result"""
        if path.startswith("lemma ") or path == "?":
            return None if path.startswith("lemma theorem_%s" % self.prop.lower()) else "a supporting lemma"
        f = next((x for x in self.index["functions"] if x["path"] == path), None)
        b = self.base.get("functions", {}).get(path)
        if f is None or b is None:
            return "no baseline"
        if f["src_loops"] != b["loops"]:
            return "loops rewritten"
        if f["src_closures"] != b["closures"]:
            return "closures rewritten"
        if f["renamed"]:
            return "locals renamed"
        vocab = set(self.base.get("vocabulary", []))
        new = sorted(set(f["src_calls"]) - vocab)
        if new:
            return "calls functions without a contract: " + ", ".join(new)
        return None

    def scan_trusted(self, d):
        """every assumption in the file the verifier accepted"""
        out = []
        lines = self.text(d)
        kinds = [(r"verifier::external_body", "external_body"), (r"\bassume\s*\(", "assume"), (r"\badmit\s*\(", "admit"), (r"assume_specification", "assume_specification"),
                 (r"\baxiom fn\b", "axiom"), (r"verifier::exec_allows_no_decreases_clause", "termination not checked"), (r"external_type_specification", "external type"), (r"\buninterp\b", "uninterpreted function")]
        for i, l in enumerate(lines):
            for rx, k in kinds:
                if re.search(rx, l):
                    ctx = " ".join(x.strip() for x in lines[i:i + 3])
                    m = re.search(r"(?:fn|struct|enum)\s+(\w+)|assume_specification\s*(?:<[^>]*>)?\s*\[\s*([^\]]+)\]", ctx)
                    name = (m.group(1) or m.group(2)).strip() if m else l.strip()[:60]
                    out.append("%s: %s" % (k, name))
        return out


# functions of core and std that vstd specifies completely
FULLY_SPECIFIED = """wrapping_add wrapping_sub checked_add checked_sub checked_mul saturating_add saturating_sub
is_some is_none is_ok is_err unwrap expect unwrap_or unwrap_or_default ok err ok_or as_ref as_mut take
len push pop first last is_empty swap Some None Ok Err clone min max"""


def baseline():
    p = Proof(None, os.path.join(BUILD, "baseline"), "quick")
    os.makedirs(p.work, exist_ok=True)
    for f in (build_vx, lambda: expand(os.path.join(p.work, "exp.rs"))):
        ok, msg = f()
        if not ok:
            sys.exit(msg)
    run([os.path.join(BUILD, "vx", "debug", "vx"), "--src", os.path.join(REPO, "src"), "--expanded", os.path.join(p.work, "exp.rs"),
         "--contracts", CONTRACTS, "--write-names", os.path.join(CONTRACTS, "names.txt")], 60)
    index, msg = p.extract(os.path.join(p.work, "main"), [])
    if index is None:
        sys.exit(msg)
    fns, vocab = {}, set()
    for f in index["functions"]:
        fns[f["path"]] = {"loops": f["src_loops"], "closures": f["src_closures"], "calls": f["src_calls"]}
        vocab |= set(f["src_calls"])
    for n in sorted(os.listdir(CONTRACTS)):
        if n.endswith(".vc"):
            with open(os.path.join(CONTRACTS, n)) as t:
                vocab |= set(re.findall(r"\bfn\s+(\w+)", t.read()))
    vocab |= set(FULLY_SPECIFIED.split())
    with open(BASELINE, "w") as o:
        json.dump({"functions": fns, "vocabulary": sorted(vocab)}, o, indent=0, sort_keys=True)
        o.write("\n")
    if index["lost"]:
        print("lost:", index["lost"])


def harness(prop, seed, tier, out):
    hooks, (ok, msg) = True, build_vh()
    if not ok:
        out["reduced"] = "cases that use the hooks are left out, they do not build against this tree: " + msg[-600:]
        hooks, (ok, msg) = False, build_vh(False)
        if not ok:
            out["unavailable"] = "harness does not build against this tree: " + msg
            return
    limit = 300 if tier == "quick" else 780
    budget = 60 if tier == "quick" else 600
    out["binary"] = os.path.join(BUILD, "vh" if hooks else "vh-public", "debug", "vh")
    cmd = [out["binary"], prop, "--seed", str(seed), "--tier", tier]
    progress = os.path.join(BUILD, prop, "progress.json")
    # the assumed contracts of external crates, sampled on these crates
    rc, o, _ = run([out["binary"], "shim", "--seed", str(seed), "--tier", tier], 60, BUILD)
    try:
        out["shim"] = json.loads(o)
    except ValueError:
        out["shim"] = {"evaluations": 0, "failures": [{"input": "", "failure": "no result (%s)" % rc}]}

    def attempt(more, limit):
        """whether it printed its result, return code, standard error"""
        rc, o, s = run(cmd + more, limit, BUILD, env(VH_PROGRESS=progress))
        for line in reversed(o.splitlines()):
            try:
                j = json.loads(line)
                if isinstance(j, dict) and "evaluations" in j:
                    return j, rc, s
            except ValueError:
                continue
        return None, rc, s
    j, rc, s = attempt(["--budget", str(budget)], limit)
    if j:
        out.update(j)
        if j["failures"] and not still_fails(prop, j["failures"], attempt, budget, limit, out):
            known = known_findings(prop)
            out["unconfirmed"] = [x for x in j["failures"] if x.get("input") not in known]
            out["failures"] = [x for x in j["failures"] if x.get("input") in known]
        return
    ended = lambda rc: "does not end" if rc is None else "ends with %s" % rc
    out["unavailable"] = "harness %s: %s" % (ended(rc), s[-800:])
    # the process died in a case (abort, stack overflow, exit) or hangs in it: a finding if it does so again
    try:
        with open(progress) as f:
            at = json.loads(f.readline())
    except (OSError, ValueError):
        return
    j, rc, s = attempt(["--budget", str(budget), "--only-case", str(at["case"])], 120)
    if j:
        if j.get("failures"):
            out["failures"] = j["failures"]
        return
    out["failures"] = [{"case": at["case"], "input": at["input"], "failure": "the process " + ended(rc) + " " + s[-200:]}]


def still_fails(prop, failures, attempt, budget, limit, out):
    """a failure counts if its case fails again, or if another search fails, too: a machine that is busy elsewhere is no defect"""
    known = known_findings(prop)
    new = [x for x in failures if x.get("input") not in known]
    for x in new * 2:
        j, rc, s = attempt(["--budget", str(budget), "--only-case", str(x["case"])], 120)
        if j is None or j["failures"]:
            return True
    if not new:
        return True
    j, rc, s = attempt(["--budget", str(budget)], limit)
    if j is None or any(x.get("input") not in known for x in j["failures"]):
        return True
    out["evaluations"] += j["evaluations"]
    return False


def known_findings(prop):
    """listed findings of the property: failing input -> text"""
    out = {}
    kf = os.path.join(VERIF, "known-findings.txt")
    if os.path.exists(kf):
        with open(kf) as f:
            for l in f:
                m = re.match(r'known: property=(\S+) input="([^"]*)" (.*)', l)
                if m and m.group(1) == prop:
                    out[m.group(2)] = 'input="%s" %s' % (m.group(2), m.group(3))
    return out


def main():
    if len(sys.argv) < 2:
        sys.exit(__doc__)
    os.makedirs(BUILD, exist_ok=True)
    if sys.argv[1] == "--setup":
        bad = [m for ok, m in (build_vx(), build_vh()) if not ok]
        rc = expand(os.path.join(BUILD, "exp-setup.rs"))
        if not rc[0]:
            bad.append(rc[1])
        print("\n".join(bad) if bad else "built")
        sys.exit(1 if bad else 0)
    if sys.argv[1] == "--baseline":
        return baseline()
    prop = sys.argv[1]
    start = time.time()
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    tier = os.environ.get("VERIF_TIER", "quick")
    tier = tier if tier in ("quick", "thorough") else "quick"
    work = os.path.join(BUILD, prop)
    shutil.rmtree(work, ignore_errors=True)
    os.makedirs(work)
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    h = {}
    th = threading.Thread(target=harness, args=(prop, seed, tier, h))
    th.start()
    pf = Proof(prop, work, tier)
    try:
        pf.go()
    except Exception as x:  # never an error exit: the bounded part still decides
        pf.unavailable = "internal: %r" % (x,)
    th.join()

    known = known_findings(prop)
    reported = h.get("failures", [])
    failures = [x for x in reported if x.get("input") not in known]
    for i in known:
        if any(x.get("input") == i for x in reported) or h.get("unavailable"):
            print("KNOWN-FINDING: property=%s %s" % (prop, known[i]))
    undecided = list(pf.undecided)
    alarms = []
    for p, ob, rendered in pf.failed:
        why = pf.restructured(p)
        if why or pf.skip:
            undecided.append((p, "obligation not discharged (%s): %s" % (why or "other bodies left out", ob)))
        else:
            alarms.append((p, ob, rendered))
    if pf.unavailable:
        undecided.append(("*", pf.unavailable))
    for p in pf.vacuous:
        undecided.append((p, "vacuous: the start of the body is unreachable under the contract"))

    d = os.path.join(work, "main")
    trusted = []
    if not pf.unavailable:
        trusted = sorted(set(pf.scan_trusted(d)))
    declared_trusted = [f["path"] for f in (pf.index or {"functions": []})["functions"] if f["trusted"]]
    evidence = {
        "property": prop, "tier": tier, "seed": seed, "level": "proof",
        "coverage": {
            "obligations": pf.obligations,
            "discharged": pf.discharged,
            "checker_cmd": "vx --src %s/src --contracts contracts --verify-props %s && verus gen.rs (Z3 back end of Verus); vacuity pass with vx --reach" % (REPO, prop),
            "trusted_base": trusted,
            "functions_under_contract": [f["path"] for f in pf.functions],
            "functions_assumed_by_contract_here": [f["path"] for f in (pf.index or {"functions": []})["functions"] if not f["verified"] and not f["trusted"]],
            "functions_trusted": declared_trusted,
            "solver_ms": pf.smt_ms,
            "slowest_ms": ["%d %s" % x for x in pf.slow],
            "reachability": {"bodies_with_assert_false_rejected": pf.reach[0], "bodies": pf.reach[1], "vacuous": pf.vacuous},
            "undecided_on_this_run": ["%s: %s" % x for x in undecided],
            "bodies_left_out_on_this_run": pf.skip,
            "assumed_contracts_sampled": {
                "operations_sequences": h.get("shim", {}).get("evaluations", 0), "mismatches": h.get("shim", {}).get("failures", []),
                "label": "bounded: random sequences of operations on the real bytes, std, tokio and serde_json, compared with what the shim's contracts say"},
            "bounded_replay_harness": {
                "evaluations": h.get("evaluations", 0), "distinct": h.get("distinct", 0), "wall_s": h.get("wall_s", 0),
                "samples": h.get("samples", [])[:4], "known_findings_seen": [x.get("input") for x in reported if x.get("input") in known], "unavailable": h.get("unavailable", ""), "reduced": h.get("reduced", ""),
                "failed_once_and_not_again": h.get("unconfirmed", []),
                "label": "bounded: generated cases on the real code; confirms the contracts' reading and gives failing inputs, never counted as proved"},
        },
        "assumptions": [
            "the contracts of the shim (module shim of the generated file) describe the external types and functions they stand for",
            "the textual rewrites of the extractor listed in DESIGN.md preserve meaning",
            "Verus, its Z3, rustc's macro expansion and the extractor are correct",
            "termination of async waits is not proved",
        ] + pf.notes,
        "wall_s": round(time.time() - start, 2),
        "violations": 0,
    }
    rc = 0
    line = None
    if failures or alarms:
        rp = os.path.join(work, "replay.json")
        evidence["violations"] = max(1, len(failures) or len(alarms))
        with open(rp, "w") as f:
            json.dump({
                "property": prop, "seed": seed, "tier": tier,
                "failing_inputs": failures,
                "replay": ["cd %s && %s %s --seed %d --tier %s --only-case %s" % (BUILD, h["binary"], prop, seed, tier, x.get("case")) for x in failures],
                "harness": h.get("unavailable", "") or h.get("reduced", ""),
                "failed_obligations": [{"function": p, "obligation": ob, "verifier_output": r} for p, ob, r in alarms],
                "undecided": ["%s: %s" % x for x in undecided],
            }, f, indent=1)
        line = "VIOLATION property=%s replay=%s" % (prop, rp)
        if not failures:
            line += " no-failing-input-found"
        rc = 1
    evidence["wall_s"] = round(time.time() - start, 2)
    with open(os.path.join(VERIF, "evidence", prop + ".json"), "w") as f:
        json.dump(evidence, f, indent=1)
        f.write("\n")
    print("%s: %d of %d obligations discharged over %d functions (%d ms solver); %d bounded cases; %.0f s" % (
        prop, pf.discharged, pf.obligations, len(pf.functions), pf.smt_ms, h.get("evaluations", 0), time.time() - start))
    for x in h.get("shim", {}).get("failures", []):
        print("undecided: an assumed contract does not describe its dependency: %s: %s" % (x.get("input"), x.get("failure", "")[:200]))
    for x in h.get("unconfirmed", []):
        print("undecided: search: failed once and not again: %s: %s" % (x.get("input", "")[:200], x.get("failure", "")[:200]))
    if h.get("reduced"):
        print("undecided: search: " + h["reduced"][:200])
    for p, why in undecided:
        print("undecided: %s: %s" % (p, why[:400]))
    for p, ob, r in alarms:
        print("obligation of %s: %s" % (p, ob[:600]))
    for x in failures[:3]:
        print("failing input: case %s: %s: %s" % (x.get("case"), x.get("input", "")[:300], x.get("failure", "")[:300]))
    if line:
        print(line)
    sys.exit(rc)


if __name__ == "__main__":
    main()
