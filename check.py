#!/usr/bin/env python3
"""Driver of the checks: extract -> discharge (Verus) -> counterexample search.

usage: check.py --property Cxx [--tier quick|thorough]
"""
import argparse, hashlib, json, os, re, shutil, subprocess, sys, time

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
TARGET = os.path.join(VERIF, "target")
UNITS = os.path.join(VERIF, "units")
sys.path.insert(0, VERIF)
from props import PROPS, COMMON_TRUST  # noqa: E402


def env():
    e = dict(os.environ)
    e["CARGO_NET_OFFLINE"] = "true"
    e["RUST_MIN_STACK"] = str(1 << 30)  # extracted command bodies nest deeply
    return e


def sh(cmd, cwd=None, timeout=600, extra=None):
    e = env()
    e.update(extra or {})
    return subprocess.run(cmd, cwd=cwd, env=e, capture_output=True, text=True,
                          errors="replace", timeout=timeout)


# --------------------------------------------------------------- building

def build_vx():
    r = sh(["cargo", "build", "--release", "--offline"], cwd=os.path.join(VERIF, "vx"),
           extra={"CARGO_TARGET_DIR": os.path.join(TARGET, "vx")})
    if r.returncode:
        return None, r.stderr[-2000:]
    return os.path.join(TARGET, "vx/release/vx"), ""


def build_harness():
    hd = os.path.join(VERIF, "harness")
    r = sh(["cargo", "build", "--offline"], cwd=hd,
           extra={"CARGO_TARGET_DIR": os.path.join(TARGET, "vh")})
    if r.returncode:
        return None, r.stderr[-3000:]
    return os.path.join(TARGET, "vh/debug/vh"), ""


def build_pica():
    r = sh(["bash", "-c", '. /opt/vp/env.sh 2>/dev/null; FEATURES=${FEATURES:-performant,compat,unstable}; '
            'cd "$1" && cargo test --workspace --features "$FEATURES" --no-run --offline', "x", REPO],
           timeout=850)
    p = os.path.join(REPO, "target/debug/pica")
    if r.returncode or not os.path.exists(p):
        return None, r.stderr[-3000:]
    return p, ""


# --------------------------------------------------------------- proofs

OBLIG = re.compile(r"^\s*(?:pub )?(?:broadcast )?proof fn (\w+)", re.M)


def add_probes(text):
    """insert the probe twin right before each obligation"""
    names = []
    def repl(m):
        head = m.group(0)
        name = "probe_" + m.group(1)[3:]
        names.append(name)
        req = m.group(3).rstrip().rstrip(",")
        return ("#[verifier::rlimit(2)]\nproof fn %s%s\n    ensures false { }\n%s"
                % (name, head[head.index(m.group(1)) + len(m.group(1)):].rstrip().rstrip(",") + ",", head))
    pat = re.compile(r"^(?:#\[verifier::rlimit\(\d+\)\]\n)?(?:pub )?proof fn (ob_\w+)((?:<[^>\n]*>)?\([^\n]*\)\n)(    requires(?:(?!\n    ensures)[\s\S])*?\n)(?=    ensures)", re.M)
    text = pat.sub(repl, text)
    return text, names


def fn_ranges(text):
    """line ranges of the functions of a generated unit"""
    res = []
    lines = text.split("\n")
    cur = None
    for n, l in enumerate(lines, 1):
        m = re.match(r"\s*(?:pub(?:\([a-z]+\))? )?(?:open |closed |uninterp |broadcast )*(proof|spec) fn (\w+)", l)
        if m:
            cur = (m.group(1), m.group(2), n)
            res.append([m.group(1), m.group(2), n, n])
        if res:
            res[-1][3] = n
    return res


def owner(ranges, line):
    for r in ranges:
        if r[2] <= line <= r[3]:
            return r
    return None


def run_verus(path, rlimit, timeout):
    t = time.time()
    cmd = ["verus", path, "--output-json", "--time-expanded", "--rlimit", str(rlimit),
           "--multiple-errors", "1"]
    try:
        r = sh(cmd, cwd=os.path.dirname(path), timeout=timeout)
    except subprocess.TimeoutExpired:
        return {"timeout": True, "cmd": " ".join(cmd), "wall": time.time() - t, "stderr": "timeout"}
    o = {"cmd": " ".join(cmd), "wall": time.time() - t, "stderr": r.stderr, "rc": r.returncode}
    try:
        o["json"] = json.loads(r.stdout)
    except ValueError:
        o["json"] = None
    return o


def stub_function(text, line):
    """replace the extracted spec function around `line` by an uninterpreted one"""
    ls = text.split("\n")
    a = line - 1
    while a >= 0 and not re.match(r"pub open spec fn \w+", ls[a]):
        if ls[a].startswith("proof fn") or ls[a].startswith("}") and a != line - 1:
            return None
        a -= 1
    if a < 1 or not ls[a - 1].startswith("// extracted"):
        return None
    b = a
    while b < len(ls) and ls[b] != "}":
        b += 1
    sig = ls[a]
    if not sig.rstrip().endswith("{"):
        return None
    sig = sig.rstrip()[:-1].rstrip().replace("pub open spec fn", "pub uninterp spec fn", 1) + ";"
    what = ls[a - 1][3:]
    return "\n".join(ls[:a] + [sig] + ls[b + 1:]), what


def prove_unit(vx, unit, work, rlimit, timeout):
    """returns a dict describing what the verifier said about one unit"""
    base = os.path.splitext(unit)[0]
    rs, js = os.path.join(work, base + ".rs"), os.path.join(work, base + ".json")
    r = sh([vx, REPO, os.path.join(UNITS, unit), rs, js])
    res = {"unit": unit, "functions": [], "lost": [], "untranslated": [], "obligations": {}, "lemmas": {},
           "probes": {}, "notes": [], "smt_ms": 0, "wall": 0.0, "cmd": "", "output": ""}
    if r.returncode or not os.path.exists(js):
        res["lost"] = ["extractor failed: " + r.stderr[-400:]]
        return res
    j = json.load(open(js))
    res["lost"] = j["lost"]
    text = open(rs).read()
    for a in j["anchors"]:
        res["functions"].append("%s:%d-%d %s%s" % (a["file"], a["line"], a["end"], a["item"],
                                                     " (helper)" if a["helper"] else ""))
        if a["errors"]:
            res["untranslated"].append("%s: %s" % (a["item"], "; ".join(a["errors"][:3])))
    # code regions with loops that were not reduced to a contract-level form
    loops = []
    for m in re.finditer(r"^// extracted(?: helper)?: (\S+ \S+)[^\n]*\n([\s\S]*?)\n}\n", text, re.M):
        if re.search(r"\.x_for\(|\.x_fold\(|x_while\(", m.group(2)):
            # with the state each loop carries: a loop over another state needs
            # another invariant than the one written down
            st = sorted(set(re.findall(r"\.x_for\(([^|]*?), \|acc__", m.group(2))))
            loops.append(m.group(1) + ("  state " + "; ".join(st) if st else ""))
    res["loops"] = sorted(loops)
    scan = re.findall(r"\b(assume|admit|axiom|assume_specification)\s*\(|(external_body|external_fn_specification|broadcast axiom|axiom fn)", text)
    if scan:
        res["notes"].append("unproved assumption in the unit: %s" % scan[:3])
    res["uninterpreted"] = re.findall(r"uninterp spec fn (\w+)", text)
    text, probes = add_probes(text)
    # a global probe: the library, types and contracts are consistent
    for attempt in range(6):
        open(rs, "w").write(text)
        v = run_verus(rs, rlimit, timeout)
        res["wall"] += v["wall"]
        res["cmd"] = v["cmd"]
        res["output"] = v["stderr"][-6000:]
        if v.get("timeout") or v.get("json") is None:
            res["notes"].append("verifier gave no result")
            break
        vr = v["json"].get("verification-results", {})
        ranges = fn_ranges(text)
        if vr.get("encountered-vir-error") or "times-ms" not in v["json"] or (
                vr.get("encountered-error") and not vr.get("verified") and not vr.get("errors")):
            # ill-typed extraction: stub the functions it complains about
            done = False
            for m in re.finditer(r"^error[^\n]*\n\s*--> [^\n:]*:(\d+):", v["stderr"], re.M):
                s = stub_function(text, int(m.group(1)))
                if s:
                    text, what = s
                    res["untranslated"].append(what + ": extracted text is outside the verifier's reach: "
                                               + m.group(0).split("\n")[0])
                    done = True
                    break
            if not done:
                res["notes"].append("verifier rejected the generated unit: " + v["stderr"][:1500])
                break
            continue
        sm = v["json"]["times-ms"].get("smt", {}).get("smt-run-module-times", [])
        res["smt_ms"] = sum(x["time-micros"] for x in sm) / 1000.0
        status = {}
        for mod in sm:
            for f in mod.get("function-breakdown", []):
                n = f["function"].split("::")[-1]
                status[n] = f["success"] and status.get(n, True)
        failed, rl = {}, set()
        for m in re.finditer(r"^(error|note)[^\n]*\n\s*--> [^\n:]*:(\d+):[\s\S]*?(?=^(?:error|note)|\Z)", v["stderr"], re.M):
            o = owner(ranges, int(m.group(2)))
            if not o:
                continue
            if "rlimit" in m.group(0) or "Resource limit" in m.group(0):
                rl.add(o[1])
            elif m.group(1) == "error":
                failed.setdefault(o[1], m.group(0)[:1500])
        for kind, n, a, b in ranges:
            if kind != "proof":
                continue
            st = status.get(n)
            if n.startswith("probe_"):
                res["probes"][n] = "refuted" if st is False else "NOT refuted"
                continue
            s = "discharged" if st else ("rlimit" if n in rl else ("failed" if n in failed or st is False else "missing"))
            if st is None and n not in failed and n not in rl:
                # functions without any SMT query (trivial) are not listed
                s = "discharged" if not vr.get("encountered-error") or True else s
                s = "trivial"
            d = res["obligations"] if n.startswith("ob_") else res["lemmas"]
            d[n] = {"status": s}
            if n in failed:
                d[n]["error"] = failed[n]
        break
    return res


# --------------------------------------------------------------- main

def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("--property", required=True)
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--bless", action="store_true", help="record which extracted functions keep loops")
    a = ap.parse_args()
    pid = a.property
    P = PROPS[pid]
    tier = "thorough" if a.tier == "thorough" else "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    t0 = time.time()
    work = os.path.join(TARGET, "work", pid)
    shutil.rmtree(work, ignore_errors=True)
    os.makedirs(work, exist_ok=True)
    evdir = os.path.join(VERIF, "evidence")
    os.makedirs(os.path.join(evdir, "replay"), exist_ok=True)
    undecided, units = [], []

    # ---- L1: the deciding step
    vx, err = build_vx()
    if not vx:
        undecided.append("extractor does not build: " + err[-300:])
    else:
        from concurrent.futures import ThreadPoolExecutor
        with ThreadPoolExecutor(2) as ex:
            units = list(ex.map(lambda u: prove_unit(vx, u, work, 60 if tier == "thorough" else 20,
                                                     600 if tier == "thorough" else 180), P["units"]))
    bf = os.path.join(UNITS, "loops.json")
    known_loops = json.load(open(bf)) if os.path.exists(bf) else {}
    if a.bless:
        for u in units:
            known_loops[u["unit"]] = u.get("loops", [])
        json.dump(known_loops, open(bf, "w"), indent=1, sort_keys=True)
    n_ob = n_ok = 0
    broken, bad_lemmas, vacuous = [], [], []
    for u in units:
        soft = list(u["lost"]) + list(u["untranslated"]) + list(u["notes"])
        newloops = [x for x in u.get("loops", []) if x not in known_loops.get(u["unit"], [])]
        if newloops:
            soft += ["loop without invariant in " + x for x in newloops]
        if not u["obligations"]:
            soft.append(u["unit"] + ": no obligation was generated")
        for n, o in u["obligations"].items():
            n_ob += 1
            if o["status"] in ("discharged", "trivial"):
                n_ok += 1
            elif soft or o["status"] == "rlimit":
                undecided.append("%s: %s (%s)" % (u["unit"], n, "; ".join(soft)[:400] or "rlimit"))
            else:
                broken.append((u["unit"], n, o.get("error", "") or u["output"]))
        if soft:
            undecided.append("%s: %s" % (u["unit"], "; ".join(soft)[:600]))
        for n, o in u["lemmas"].items():
            if o["status"] not in ("discharged", "trivial"):
                undecided.append("%s: lemma %s %s" % (u["unit"], n, o["status"]))
                bad_lemmas.append(n)
        for n, s in u["probes"].items():
            if s != "refuted":
                vacuous.append(n)
    if vacuous:
        undecided.append("vacuous preconditions: " + ", ".join(vacuous))

    # ---- L3: executable contracts on the real code (counterexamples; bounded)
    violations, l3, l3err = [], {}, []
    vh = None
    pica = None
    if P.get("pica"):
        pica, err = build_pica()
        if not pica:
            l3err.append("pica does not build: " + err[-600:])
    if P.get("harness", True):
        vh, err = build_harness()
        if not vh:
            l3err.append("harness does not build: " + err[-1500:])

    def search(s, budget, t):
        out = os.path.join(work, "l3.json")
        if os.path.exists(out):
            os.remove(out)
        cmd = [vh, "--property", pid, "--out", out, "--seed", str(s), "--budget", str(budget)]
        if t == "thorough":
            cmd += ["--tier", "thorough"]
        scratch = os.path.join(work, "scratch")
        os.makedirs(scratch, exist_ok=True)
        try:
            r = sh(cmd, cwd=scratch, timeout=budget * 3 + 120, extra={"VH_PICA": pica or "", "VH_REPO": REPO})
        except subprocess.TimeoutExpired:
            return None, "executable contracts did not finish"
        finally:
            shutil.rmtree(scratch, ignore_errors=True)
        if not os.path.exists(out):
            return None, "executable contracts crashed: " + r.stderr[-1500:]
        return json.load(open(out)), None

    if vh and not (P.get("pica") and not pica):
        l3, e = search(seed, P.get("budget_thorough", 400) if tier == "thorough" else P.get("budget", 45), tier)
        if e:
            l3err.append(e)
            l3 = {}
        violations = l3.get("violations", [])
        if broken and not violations and not e:
            # the proof broke: look harder for an input that shows it
            more, e2 = search(seed + 1000, 90, "thorough" if tier == "thorough" else "quick")
            if more:
                l3["evaluations"] = l3.get("evaluations", 0) + more.get("evaluations", 0)
                violations = more.get("violations", [])

    # ---- known findings
    known = []
    kf = os.path.join(VERIF, "known_findings.json")
    if os.path.exists(kf):
        known = [k for k in json.load(open(kf)) if k.get("property") == pid and k.get("status") == "open"]
    fresh, seen = [], []
    for v in violations:
        k = next((k for k in known if re.search(k["match"], json.dumps(v, ensure_ascii=False))), None)
        (seen.append(k) if k else fresh.append(v))
    for k in known:
        print("KNOWN-FINDING: property=%s %s" % (pid, k["what"]))

    # ---- verdict
    rc = 0
    if fresh:
        rp = os.path.join(evdir, "replay", pid + ".json")
        json.dump({"property": pid, "violations": fresh, "failed_obligations": [b[:2] for b in broken],
                   "how": P.get("replay", "the input is run against the real code by harness `vh --property %s --seed %d`" % (pid, seed))},
                  open(rp, "w"), indent=1, ensure_ascii=False)
        for v in fresh[:3]:
            print("  " + json.dumps(v, ensure_ascii=False)[:800])
        print("VIOLATION property=%s replay=%s" % (pid, rp))
        rc = 1
    elif broken:
        rp = os.path.join(evdir, "replay", pid + ".txt")
        with open(rp, "w") as f:
            for u, n, e in broken:
                f.write("failed obligation %s in %s\n%s\n\n" % (n, u, e))
            f.write("no failing input was found by the executable contracts.\n")
        for u, n, e in broken:
            print("  failed obligation: %s (%s)" % (n, u))
        print("VIOLATION property=%s replay=%s no-failing-input-found" % (pid, rp))
        rc = 1

    complete = n_ob > 0 and n_ob == n_ok and not undecided
    samples = l3.get("samples", [])[:5] if l3 else []
    ev = {
        "property": pid, "tier": tier, "seed": seed,
        "level": P.get("level", "proof"),
        "coverage": {
            "obligations": n_ob, "discharged": n_ok,
            "checker_cmd": " && ".join(u["cmd"] for u in units),
            "trusted_base": COMMON_TRUST + P.get("trusted", []),
            "proof_complete": complete,
            "obligation_names": {u["unit"]: {n: o["status"] for n, o in u["obligations"].items()} for u in units},
            "lemmas": sum(len(u["lemmas"]) for u in units),
            "functions_under_contract": sorted({f for u in units for f in u["functions"]}),
            "back_end": "Verus 0.2026.09.13 / Z3 (as shipped with Verus)",
            "solver_ms": round(sum(u["smt_ms"] for u in units), 1),
            "verifier_wall_s": round(sum(u["wall"] for u in units), 2),
            "vacuity_probes": {n: s for u in units for n, s in u["probes"].items()},
            "uninterpreted_functions": sorted({x for u in units for x in u.get("uninterpreted", [])}),
            "undecided": undecided,
            "bounded_stand_in": {
                "what": P.get("bounded", "executable contracts on the real code, generated inputs; bounded, never counted as proved"),
                "evaluations": l3.get("evaluations", 0), "distinct": l3.get("distinct_nontrivial", 0),
                "errors": l3err, "samples": samples,
            },
            "evaluations": l3.get("evaluations", 0),
            "distinct_nontrivial": l3.get("distinct_nontrivial", 0),
            "rule": l3.get("rule") or P.get("rule", "inputs are generated from the grammar of records and expressions with a fixed seed; distinct by full input text"),
            "samples": samples,
        },
        "assumptions": P.get("assumptions", []),
        "wall_s": round(time.time() - t0, 2),
        "violations": len(fresh) + (len(broken) if not fresh else 0),
    }
    json.dump(ev, open(os.path.join(evdir, pid + ".json"), "w"), indent=1, ensure_ascii=False)
    print("%s: %d/%d obligations discharged, %d undecided, %d bounded evaluations, %.1f s"
          % (pid, n_ok, n_ob, len(undecided), l3.get("evaluations", 0) if l3 else 0, time.time() - t0))
    for x in undecided[:8]:
        print("  undecided: " + x[:500])
    for x in l3err[:3]:
        print("  bounded part: " + x[:800])
    if rc == 0 and l3err and not complete:
        # neither the verifier nor the bounded stand-in gave an answer
        sys.exit(2)
    sys.exit(rc)


if __name__ == "__main__":
    main()
