#!/usr/bin/env python3
"""Check runner:  check.py PROPERTY   (VERIF_TIER=quick|thorough, VERIF_SEED=n)

1. extract the functions under contract from /repo's current source (mechanically, every run),
2. let Verus discharge every obligation, function by function,
3. run the real crate through the search driver (failing inputs for failed obligations; bounded
   stand-in, labelled so, for the functions outside the verifier's reach),
4. write evidence/<id>.json and decide the exit code.
"""
import concurrent.futures as cf
import glob, json, os, re, resource, subprocess, sys, time

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
TARGET = os.path.join(VERIF, "target")
ENV = dict(os.environ, CARGO_TARGET_DIR=TARGET, CARGO_NET_OFFLINE="true")
ENV.pop("RUSTFLAGS", None)

PROOF_FAIL = [
    "postcondition not satisfied", "precondition not satisfied", "assertion failed", "assertion fails",
    "invariant not satisfied", "possible arithmetic underflow/overflow", "possible division by zero",
    "decreases not satisfied", "requires not satisfied", "cannot show", "possible bit shift underflow/overflow",
    "loop invariant", "recommendation not met", "constructed value may fail", "could not prove termination",
    "unable to prove", "ensures not satisfied", "failed this",
]
IGNORE = ["aborting due to", "could not compile"]


def mem_limit():
    # the real code under search may run away: 8 GB of address space is plenty
    resource.setrlimit(resource.RLIMIT_AS, (8 << 30, 8 << 30))


def sh(cmd, timeout, env=None, cwd=None, pre=None):
    try:
        p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout,
                           env=env or ENV, cwd=cwd, preexec_fn=pre, text=True, errors="replace")
        return p.returncode, p.stdout, p.stderr
    except subprocess.TimeoutExpired as e:
        def t(x):
            return x.decode(errors="replace") if isinstance(x, bytes) else (x or "")
        return 124, t(e.stdout), t(e.stderr) + "\n[timeout]"


def build_extractor():
    return sh(["cargo", "build", "--offline", "--release", "-q"], 600, cwd=os.path.join(VERIF, "extractor"))


def build_driver():
    return sh(["cargo", "build", "--offline", "-q"], 800, cwd=os.path.join(VERIF, "driver"))


def expanded_source(work):
    """Compiler-expanded source of the crate (derive- and macro_rules-generated functions)."""
    out = os.path.join(work, "expanded.rs")
    env = dict(ENV, CARGO_TARGET_DIR=os.path.join(TARGET, "expand"))
    rc, o, e = sh(["cargo", "+nightly", "rustc", "--offline", "-q", "--lib", "--profile", "check", "--",
                   "-Zunpretty=expanded"], 600, env=env, cwd=REPO)
    if rc != 0 or not o.strip():
        return None, e[-2000:]
    with open(out, "w") as f:
        f.write(o)
    return out, ""


def unit_text(path):
    """a unit and what it includes"""
    text = open(path).read()
    for inc in re.findall(r"^//@include (\S+)", text, re.M):
        text += unit_text(os.path.join(os.path.dirname(path), inc))
    return text


def fn_at(lines, n):
    """name of the function a line of the generated file belongs to"""
    for i in range(min(n, len(lines)) - 1, -1, -1):
        m = re.search(r"\bfn\s+(\w+)", lines[i])
        if m:
            return m.group(1)
    return "?"


class Unit:
    def __init__(self, path):
        self.path = path
        self.name = os.path.splitext(os.path.basename(path))[0]
        self.status = "undecided"   # proved | failed | undecided
        self.reason = ""
        self.verified = 0
        self.errors = 0
        self.failed = []            # named obligations
        self.output = ""
        self.report = {}
        self.smt_ms = 0
        self.total_ms = 0
        self.vacuity = None
        self.trusted = []
        self.shape_changed = []

    def run(self, work, expanded, tier):
        rs = os.path.join(work, self.name + ".rs")
        rep = os.path.join(work, self.name + ".json")
        cmd = [os.path.join(TARGET, "release", "extractor"), "--repo", REPO, "--unit", self.path, "--out", rs,
               "--report", rep]
        if expanded:
            cmd += ["--expanded", expanded]
        rc, o, e = sh(cmd, 120)
        try:
            self.report = json.load(open(rep))
        except Exception:
            self.report = {}
        if rc != 0:
            self.reason = "extraction: " + (self.report.get("error") or e.strip()[-500:])
            return
        vac = rs.replace(".rs", "_vac.rs")
        sh(cmd[:6] + [vac, "--report", rep + ".vac"] + cmd[9:], 120, env=dict(ENV, VX_VACUITY="1"))
        self.shape()
        text = open(rs).read()
        self.scan_trusted(text)
        vcmd = ["verus", rs, "--crate-type", "bin", "--output-json", "--time", "--error-format=json",
                "--rlimit", "60" if tier == "quick" else "200", "--multiple-errors", "8", "--num-threads", "4"]
        self.cmd = " ".join(vcmd)
        with cf.ThreadPoolExecutor(2) as ex:
            fv = ex.submit(self.run_vacuity, vac)
            rc, o, e = sh(vcmd, 420 if tier == "quick" else 780, cwd=work)
            fv.result()
        self.parse(rc, o, e, text.split("\n"))

    def run_vacuity(self, vac):
        """Every function gets `assert(false)` at its start: each must fail, otherwise the
        precondition (or an axiom) is contradictory and the proof means nothing."""
        rc, o, e = sh(["verus", vac, "--crate-type", "bin", "--output-json", "--error-format=json", "--rlimit", "30",
                       "--no-lifetime" if False else "--multiple-errors", "1", "--num-threads", "4"], 420)
        lines = open(vac).read().split("\n")
        want = [i + 1 for i, l in enumerate(lines) if "// VACUITY" in l]
        hit = set()
        for d in diags(e):
            if d.get("level") == "error" and "assertion" in d.get("message", ""):
                for s in d.get("spans", []):
                    for ln in range(s["line_start"], s["line_end"] + 1):
                        hit.add(ln)
        missed = [fn_at(lines, n) for n in want if n not in hit]
        self.vacuity = {"checked": len(want), "not_reached": missed}

    def shape(self):
        base = os.path.join(VERIF, "baseline", self.name + ".json")
        keys = ["loops", "closures", "matches", "ifs", "tries"]
        cur = {f["file"] + " :: " + f["fn"]: [f[k] for k in keys] for f in self.report.get("functions", [])}
        order = {f["file"] + " :: " + f["fn"]: [f["order"], f["canon"]] for f in self.report.get("functions", [])}
        cur_h = sorted(h["fn"] for h in self.report.get("auto_helpers", []))
        if os.environ.get("VERIF_WRITE_BASELINE"):
            os.makedirs(os.path.dirname(base), exist_ok=True)
            json.dump({"functions": cur, "helpers": cur_h, "order": order}, open(base, "w"), indent=1, sort_keys=True)
        try:
            b = json.load(open(base))
        except Exception:
            self.shape_changed = ["no baseline"]
            return
        for k in sorted(set(cur) | set(b["functions"])):
            if cur.get(k) != b["functions"].get(k):
                self.shape_changed.append(k)
        # the same statements and arms in another order
        for k, (o, c) in sorted(order.items()):
            was = b.get("order", {}).get(k)
            if was and o != was[0] and c == was[1]:
                self.shape_changed.append("order: " + k)
        if cur_h != b["helpers"]:
            self.shape_changed.append("helpers: " + ", ".join(sorted(set(cur_h) ^ set(b["helpers"]))))
        for h in self.report.get("lost_hints", []):
            self.shape_changed.append("proof hint: " + h)

    def scan_trusted(self, text):
        ls = text.split("\n")
        # trusted items of the prelude count when the unit's own text mentions them
        own = text[text.find("} // prelude"):]
        words = set(re.findall(r"\w+", own))
        pre_end = text[:text.find("} // prelude")].count("\n")
        used = lambda i, n: i > pre_end or n in words
        for i, l in enumerate(ls):
            m = re.search(r"assume_specification(?:<[^>]*>)?\s*\[([^\]]*(?:\[[^\]]*\])?[^\]]*)\]", l)
            if m:
                n = re.sub(r"\s+", "", m.group(1))
                if used(i, n.split("::")[-1]):
                    self.trusted.append("assumed contract on " + n)
            elif "external_body" in l:
                for k in range(i, min(i + 4, len(ls))):
                    m = re.search(r"\b(?:fn|struct)\s+(\w+)", ls[k])
                    if m:
                        if used(i, m.group(1)):
                            self.trusted.append("trusted contract of " + m.group(1))
                        break
            elif re.search(r"\b(assume|admit)\s*\(", l) and not l.strip().startswith("//"):
                self.trusted.append("assume/admit: " + l.strip())
            elif "uninterp spec fn" in l:
                m = re.search(r"fn\s+(\w+)", l)
                if used(i, m.group(1)):
                    self.trusted.append("uninterpreted " + m.group(1))

    def parse(self, rc, o, e, lines):
        self.output = ""
        tool = []
        for d in diags(e):
            if d.get("level") != "error":
                continue
            msg = d.get("message", "")
            if any(msg.startswith(x) for x in IGNORE):
                continue
            self.output += d.get("rendered") or msg
            spans = d.get("spans", [])
            sp = [s for s in spans if any(x in (s.get("label") or "") for x in ("at the end of the function body", "at this exit"))]
            sp = sp or [s for s in spans if s.get("is_primary")] or spans
            where = fn_at(lines, sp[0]["line_end"]) if sp else "?"
            if "Resource limit" in msg or "rlimit" in msg.lower():
                tool.append(f"{where}: resource limit")
            elif any(x in msg for x in PROOF_FAIL):
                clause = ""
                for s in spans:
                    if s.get("is_primary") and s.get("text"):
                        clause = " ".join(t["text"][max(t["highlight_start"] - 1, 0):t["highlight_end"] - 1].strip() for t in s["text"][:3])
                self.failed.append({"function": where, "obligation": msg, "clause": clause[:300]})
            else:
                tool.append(f"{where}: {msg[:300]}")
        try:
            j = json.loads(o)
            v = j["verification-results"]
            self.verified, self.errors = v.get("verified", 0), v.get("errors", 0)
            if v.get("encountered-vir-error"):
                tool.append("verifier front end error")
            t = j.get("times-ms", {})
            self.total_ms = t.get("total", 0)
            smt = t.get("smt", {})
            self.smt_ms = smt.get("smt-run", smt.get("total", 0)) if isinstance(smt, dict) else 0
        except Exception:
            tool.append("no verifier result" + (" (timeout)" if rc == 124 else ""))
        if tool:
            self.status, self.reason = "undecided", "verifier: " + "; ".join(tool[:4])
        elif self.failed or self.errors:
            self.status = "failed"
        elif self.verified > 0 and rc == 0:
            missed = (self.vacuity or {}).get("not_reached")
            if missed:
                self.status, self.reason = "undecided", "vacuous precondition: " + ", ".join(missed)
            else:
                self.status = "proved"
        else:
            self.reason = f"verifier exit {rc} with no obligation"


def diags(e):
    for l in e.split("\n"):
        if l.startswith("{"):
            try:
                yield json.loads(l)
            except Exception:
                pass


def known_findings(pid):
    out = []
    p = os.path.join(VERIF, "known-findings.txt")
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r"finding: property=(\w+) rule=(.+?) input=(.*)$", l.rstrip("\n"))
            if m and m.group(1) == pid:
                out.append((m.group(2), m.group(3)))
    return out


def main():
    pid = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    tier = tier if tier in ("quick", "thorough") else "quick"
    try:
        seed = int(os.environ.get("VERIF_SEED", "1"))
    except ValueError:
        seed = 1
    t0 = time.time()
    work = os.path.join(TARGET, "work", pid)
    os.makedirs(work, exist_ok=True)
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    os.makedirs(os.path.join(VERIF, "replay"), exist_ok=True)
    meta = json.load(open(os.path.join(VERIF, "contracts", "units.json"))).get(pid, {})
    units = [Unit(p) for p in sorted(glob.glob(os.path.join(VERIF, "contracts", pid.lower() + "_*.vrs")))]
    expanded, exp_err = None, ""
    with cf.ThreadPoolExecutor(8) as ex:
        fd = ex.submit(build_driver)
        rc, o, e = build_extractor()
        if rc != 0:
            for u in units:
                u.reason = "extractor build failed: " + e[-300:]
        else:
            if any("expanded ::" in unit_text(u.path) for u in units):
                expanded, exp_err = expanded_source(work)
            list(ex.map(lambda u: u.run(work, expanded, tier), units))
        drc, do, de = fd.result()
    suspicious = any(u.status != "proved" for u in units)
    effort = 1 if tier == "quick" else 12
    if suspicious:
        effort *= 6
    driver = None
    derr = ""
    if drc == 0:
        outp = os.path.join(work, "driver.json")
        if os.path.exists(outp):
            os.unlink(outp)
        limit = max(60, (840 if tier == "quick" else 3000) - (time.time() - t0))
        dcmd = [os.path.join(TARGET, "debug", "driver"), pid, "--seed", str(seed), "--effort", str(effort), "--out", outp]
        r, o, e = sh(dcmd, limit, pre=mem_limit)
        if r == 124 and effort > 1:
            dcmd[5] = "1"
            r, o, e = sh(dcmd, 120, pre=mem_limit)
        try:
            driver = json.load(open(outp))
        except Exception:
            derr = f"driver exit {r}: {e[-500:]}"
            if r < 0 or r in (101, 134, 139):
                # the real code aborted the process (stack overflow, out of memory): find the case
                trace = os.path.join(work, "trace.txt")
                r2, o, e = sh(dcmd + ["--trace", trace], limit, pre=mem_limit)
                last = ""
                for last in open(trace, errors="replace"):
                    pass
                if r2 == r and last:
                    rule, inp = json.loads(last)
                    driver = {"evaluations": 1, "distinct": 1, "rules": {},
                              "failures": [{"rule": rule, "input": inp, "detail": f"process ended with {r}: {e[-300:]}"}]}
    else:
        derr = "driver build failed: " + de[-1500:]

    kf = known_findings(pid)
    new, seen = [], []
    if driver:
        for f in driver["failures"]:
            k = next((k for k in kf if k[0] == f["rule"] and k[1] == f["input"]), None)
            (seen if k else new).append(f)
    failed = [dict(o, unit=u.name) for u in units for o in u.failed if u.status == "failed"]
    hard = [u for u in units if u.status == "failed" and not u.shape_changed]
    undecided = [u for u in units if u.status == "undecided" or (u.status == "failed" and u.shape_changed)]
    for u in undecided:
        if u.status == "failed":
            u.reason = "obligations fail on restructured code (" + ", ".join(u.shape_changed[:4]) + ")"

    replay = os.path.join("replay", f"{pid}.json")
    doc = {"property": pid, "failing_inputs": new[:20], "failed_obligations": failed,
           "replay": f"VERIF_SEED={seed} ./check.py {pid}; or target/debug/driver {pid} --seed {seed} --effort {effort}",
           "verifier_output": {u.name: u.output[:20000] for u in units if u.output},
           "undecided": {u.name: u.reason for u in undecided}, "driver_error": derr}
    code = 0
    for k in seen:
        print(f"KNOWN-FINDING: property={pid} {k['rule']}: {k['input']}")
    if new or hard:
        json.dump(doc, open(os.path.join(VERIF, replay), "w"), indent=1, ensure_ascii=False)
        for f in new[:5]:
            print(f"failing input: [{f['rule']}] {f['input']!r}: {f['detail']}")
        for o in failed[:8]:
            print(f"failed obligation: {o['unit']}::{o['function']}: {o['obligation']}: {o['clause']}")
        print(f"VIOLATION property={pid} replay={replay}" + ("" if new else " no-failing-input-found"))
        code = 1

    fns = [f for u in units for f in u.report.get("functions", [])]
    obligations = sum(u.verified + u.errors for u in units)
    discharged = sum(u.verified for u in units)
    all_proved = bool(units) and all(u.status == "proved" for u in units)
    trusted = sorted({t for u in units for t in u.trusted if t})
    cov = {
        "obligations": obligations, "discharged": discharged,
        "checker_cmd": "; ".join(sorted({getattr(u, "cmd", "not run: " + u.reason) for u in units})),
        "trusted_base": trusted + meta.get("trusted", []),
        "back_end": "Verus 0.2026.09.13 (Z3)",
        "functions_under_contract": [f"{f['file']} :: {f['fn']}" for f in fns],
        "auto_specified_helpers": sorted({h["fn"] for u in units for h in u.report.get("auto_helpers", [])}),
        "rewrites_applied": {f["fn"]: f["rewrites"] for f in fns},
        "solver_ms": sum(u.smt_ms for u in units), "verifier_ms": sum(u.total_ms for u in units),
        "vacuity": {u.name: u.vacuity for u in units},
        "units": {u.name: {"status": u.status, "reason": u.reason, "verified": u.verified, "errors": u.errors,
                           "restructured": u.shape_changed} for u in units},
        "failed_obligations": failed,
        "bounded_not_proved": {
            "what": meta.get("bounded", "the same rules, run on the real crate over a bounded, seeded set of inputs; not counted as proved"),
            "evaluations": driver["evaluations"] if driver else 0,
            "distinct": driver["distinct"] if driver else 0,
            "effort": effort,
            "rules": driver["rules"] if driver else {},
            "error": derr,
        },
    }
    level = "proof"
    if not all_proved and code == 0:
        level = "other"
        cov["explanation"] = ("The verifier did not decide every unit on this tree (" +
                              "; ".join(f"{u.name}: {u.reason}" for u in undecided) +
                              "); this run is only the bounded search reported under bounded_not_proved.")
    ev = {"property": pid, "tier": tier, "seed": seed, "level": level, "coverage": cov,
          "assumptions": meta.get("assumptions", []) + [
              "the extraction rewrites listed in DESIGN.md preserve meaning",
              "the trusted contracts listed in trusted_base describe the std and dependency items they stand for",
          ],
          "wall_s": round(time.time() - t0, 2), "violations": len(new) + (len(failed) if hard else 0)}
    json.dump(ev, open(os.path.join(VERIF, "evidence", pid + ".json"), "w"), indent=1, ensure_ascii=False)
    st = ", ".join(f"{u.name}={u.status}({u.verified})" for u in units)
    print(f"{pid}: {st}; bounded search: {driver['evaluations'] if driver else 0} cases, {len(new)} new failures"
          f" {derr[:300]} [{ev['wall_s']} s]")
    for u in undecided:
        print(f"undecided: {u.name}: {u.reason}")
    if code == 0 and driver is None and undecided:
        print("no answer: neither the verifier nor the driver decided")
        code = 2
    sys.exit(code)


if __name__ == "__main__":
    main()
