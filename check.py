#!/usr/bin/env python3
"""check.py PROPERTY [--tier quick|thorough]

Decides one property of /repo's current source by contract-based deductive verification
(Verus on the mechanically extracted functions); see DESIGN.md."""
import argparse, concurrent.futures as cf, hashlib, json, os, re, shutil, subprocess, sys, tempfile, time, traceback

VERIF = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(VERIF, "vp"))
import verify, owners, executor, literals

NSH = 8


def log(s):
    print("# " + s, file=sys.stderr, flush=True)


def vt_python():
    return shutil.which("python3-vt") or sys.executable


class Search:
    """concrete inputs on the real code, compared with an independent oracle"""

    def __init__(self, work, exe, prop, seed, hints, seconds):
        self.hf = os.path.join(work, "hints.json")
        json.dump(hints, open(self.hf, "w"))
        self.seconds = seconds
        self.cmds = [[vt_python(), os.path.join(VERIF, "vp", "search.py"), exe, prop, str(seed), str(i), str(NSH), str(seconds), self.hf] for i in range(NSH)]

    def run(self):
        ps = [subprocess.Popen(c, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, start_new_session=True) for c in self.cmds]
        tot = {"runs": 0, "checked": 0, "distinct": 0, "samples": [], "known": []}
        found = None
        crashed = []
        end = time.time() + self.seconds + 120
        live = list(ps)
        outs = {}
        with cf.ThreadPoolExecutor(NSH) as ex:
            futs = {ex.submit(p.communicate): p for p in ps}
            try:
                for f in cf.as_completed(futs, timeout=self.seconds + 120):
                    p = futs[f]
                    out, err = f.result()
                    try:
                        r = json.loads(out.strip().splitlines()[-1])
                    except (ValueError, IndexError):
                        if p.returncode not in (-9, -15):
                            crashed.append(err[-400:])
                        continue
                    for k in ("runs", "checked", "distinct"):
                        tot[k] += r[k]
                    if len(tot["samples"]) < 12:
                        tot["samples"] += r["samples"][:6]
                    tot["known"] += r.get("known", [])
                    if r["found"] and found is None:
                        found = r["found"]
                        for q in ps:
                            if q.poll() is None:
                                kill(q)
            except cf.TimeoutError:
                for q in ps:
                    if q.poll() is None:
                        kill(q)
        return found, tot, crashed


def kill(p):
    try:
        os.killpg(p.pid, 9)
    except OSError:
        pass


def known_findings(prop):
    out = []
    p = os.path.join(VERIF, "KNOWN_FINDINGS.txt")
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r"known: property=(\S+) cmd=(.*?)(?: \| (.*))?$", l.strip())
            if m and m.group(1) == prop:
                out.append((m.group(2), m.group(3) or ""))
    return out


def confirm(exe, found):
    """a result that did not come within the time limit gets a second, longer, chance"""
    if not found["got"].startswith(("hang", "crash")):
        return True
    e = executor.Executor(exe)
    r = e.run(found["cmd"], 60.0)
    e.close()
    return r.startswith(("!hang", "!crash"))


# what the verifier has full specifications of (vstd, contracts/00_prelude.vrs)
STD_METHODS = set("""len pop push push_back push_str as_str clone is_none is_some is_ok is_err is_empty unwrap ok_or ok err abs signum
unsigned_abs max min to_string to_owned vshow vshow_fmt as_ref remove swap_remove insert truncate clear append
checked_add checked_sub checked_mul checked_div checked_rem wrapping_add wrapping_sub wrapping_mul""".split())
STD_HEADS = {"vrt", "Add", "Sub", "Mul", "Div", "Rem", "Neg", "Cmp", "From", "Into", "TryFrom", "As_f64", "As_i64", "As_u64", "As_u32", "As_i32", "As_usize", "As_i128", "As_u128"}
STD_PATHS = {"Vec::new", "VecDeque::new", "String::from"}


def weakness(m, undecided):
    """predicate: does a failed obligation say little about the code?"""
    if not m:
        return lambda f: True
    fns = {f["key"]: f for f in m["fns"]}
    opaque, lost, lostr = dict(m["opaque"]), dict(m["lost"]), m["lost_roles"]
    own_names = {k.rsplit("::", 1)[-1] for k in fns}

    def unknown(c):
        if c == "|closure|":
            return True
        if c.startswith("."):
            return c[1:] not in own_names and c[1:] not in STD_METHODS
        if "::" in c:
            a, b = c.split("::", 1)
            return not (b[:1].isupper() or a in STD_HEADS or b in own_names or c in STD_PATHS)
        return False

    def weak(f):
        """a failed proof that says little: annotations were lost with the text they belong to"""
        i = fns.get(f.key)
        if f.kind == "rlimit" or i is None or f.key in undecided or i["bare_loops"] > 0:
            return True
        if i["loops"] > 0:
            return True  # the loop's own text changed: its invariants may only describe the way it was written
        if any(f.key == "<%s as VShow>::vshow" % t for t, w in m["display"].items() if w.startswith("not convertible")):
            return True  # the text written could not be read off
        if any(x == f.key or x.startswith(f.key + ":") for x in lostr):
            return True
        if any(unknown(c) for c in i["calls"]):
            return True  # rests on a library function or closure the verifier has no (full) specification of
        hidden = {k.rsplit("::", 1)[-1] for k in list(opaque) + list(lost) + list(undecided)}
        hidden |= {owners.name(k["key"]) for k in m["fns"] if not k["contracted"] and "::" not in k["key"]}
        return any(c.lstrip(".").rsplit("::", 1)[-1] in hidden for c in i["calls"])

    return weak


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    a = ap.parse_args()
    prop, tier = a.prop, "thorough" if a.tier == "thorough" else "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    t0 = time.time()
    work = tempfile.mkdtemp(prefix="vp_%s_" % prop, dir=os.environ.get("VP_TMP"))
    try:
        rc = decide(prop, tier, seed, work, t0)
    finally:
        shutil.rmtree(work, ignore_errors=True)
    sys.stdout.flush()
    sys.exit(rc)


def decide(prop, tier, seed, work, t0):
    thorough = tier == "thorough"
    notes, undecided, R, m, rs, glob = [], {}, None, None, None, False
    vac = {}
    exe, std = None, 0
    with cf.ThreadPoolExecutor(5) as ex:
        try:
            verify.build_extractor()
        except verify.ToolError as e:
            notes.append(str(e))
        fx = ex.submit(executor.build, work)
        fv = ex.submit(verify.run, work, log, 6)
        fvac = {w: ex.submit(verify.vacuity, work, w, 3) for w in (["entry", "exit"] if thorough else ["entry"])}
        fstd = ex.submit(verify.std_contracts, work)
        try:
            R, m, undecided, n2, rs, glob = fv.result()
            notes += n2
        except Exception as e:  # the verifier or the extraction broke down: nothing is decided by proof
            glob = True
            notes.append("%s: %s" % (type(e).__name__, str(e)[-600:]))
            log(traceback.format_exc())
        try:
            exe = fx.result()
        except Exception as e:
            notes.append("the executor does not build: %s" % str(e)[-400:])
        for w, f in fvac.items():
            try:
                vac[w] = f.result()
            except Exception as e:
                notes.append("vacuity pass (%s): %s" % (w, str(e)[-300:]))
        try:
            std = fstd.result()
        except Exception as e:
            notes.append("std contracts: %s" % str(e)[-300:])

    fails = R.fails if R else []
    own, cone = [], []
    for f in fails:
        (own if prop in owners.owners(f.rel, f.key, f.kind, f.clause) else cone if owners.in_cone(prop, f.rel) else []).append(f)
    fns = {f["key"]: f for f in m["fns"]} if m else {}
    und = {k: w for k, w in undecided.items() if k in fns and owners.in_cone(prop, fns[k]["rel"]) and ("no termination" not in w or prop == "C17")}
    vacuous = sorted({k for w in vac.values() for k in w[1] if k in fns and owners.in_cone(prop, fns[k]["rel"])}) if not undecided and not fails else []
    for k in vacuous:
        und[k] = "its contract is vacuous (false is provable)"
    opaque = dict(m["opaque"]) if m else {}
    lost = dict(m["lost"]) if m else {}
    lost_roles = set(x.split(":")[0] if not x.startswith("<") else x for x in m["lost_roles"]) if m else set()
    lostr = m["lost_roles"] if m else []

    weak = weakness(m, undecided)

    hints = literals.hints(verify.REPO, [f.key for f in fails] + list(undecided), os.path.join(VERIF, "vp", "literals.json"))
    known = known_findings(prop)
    hints["known"] = [c for c, _ in known]

    if own:
        secs, why = (300 if thorough else 150), "a failed obligation of this property"
    elif cone or und or glob:
        secs, why = (300 if thorough else 90), "an undecided function this property rests on"
    else:
        secs, why = (240 if thorough else 8), "cross-check of the trusted parts"
    found, tot, crashed = None, {"runs": 0, "checked": 0, "distinct": 0, "samples": [], "known": []}, []
    if exe:
        found, tot, crashed = Search(work, exe, prop, seed, hints, secs).run()
        if found and not confirm(exe, found):
            notes.append("not confirmed: %s -> %s" % (found["cmd"], found["got"]))
            found = None
        if crashed:
            notes.append("search worker: %s" % crashed[0])
    for c, w in known:
        if c in tot["known"]:
            print("KNOWN-FINDING: property=%s %s %s" % (prop, c, w))

    strong = [f for f in own if not weak(f)]
    violation = bool(found) or bool(strong)
    rc = 0
    if violation:
        rc = 1
        os.makedirs(os.path.join(VERIF, "replays"), exist_ok=True)
        body = []
        if found:
            body += ["property: " + prop, "input (command of the executor around the real code, /verif/harness/vp_exec.rs): " + found["cmd"], "got:      " + found["got"], "expected: " + found["want"],
                     "replay:   python3-vt /verif/replay.py '%s'" % found["cmd"].replace("'", "'\\''"), ""]
        else:
            body += ["property: " + prop, "no failing input found (searched %d runs, %d checked)" % (tot["runs"], tot["checked"]), ""]
        body += ["failed obligations of this property:"] + ["  " + f.name() for f in own]
        if cone:
            body += ["failed obligations of functions it rests on:"] + ["  " + f.name() for f in cone]
        for n in notes:
            body.append("note: " + n)
        if R:
            body += ["", "verifier: " + R.cmd, "", "verifier output:"]
            for line in R.raw.splitlines():
                try:
                    body.append(json.loads(line)["rendered"])
                except (ValueError, KeyError):
                    body.append(line)
        text = "\n".join(body) + "\n"
        path = os.path.join(VERIF, "replays", "%s-%s.txt" % (prop, hashlib.sha256(text.encode()).hexdigest()[:10]))
        open(path, "w").write(text)
        for f in own:
            print("failed obligation: " + f.name())
        if found:
            print("failing input: %s" % found["cmd"])
            print("  got:      %s" % found["got"][:500])
            print("  expected: %s" % found["want"][:500])
            print("VIOLATION property=%s replay=%s" % (prop, path))
        else:
            print("VIOLATION property=%s replay=%s no-failing-input-found" % (prop, path))
    else:
        for f in own:
            print("undecided (no failing input in %d runs): %s" % (tot["runs"], f.name()))
        for k, w in und.items():
            print("undecided (bounded check only, %d runs): %s: %s" % (tot["runs"], k, w))
        for n in notes:
            log(n)
        print("%s: %s" % (prop, "held" if not (own or und or glob) else "no violation found; parts undecided"))

    write_evidence(prop, tier, seed, t0, R, m, rs, fns, own, cone, und, vac, vacuous, notes, glob, found, tot, secs, why, opaque, lost, lostr, violation, std)
    return rc


def write_evidence(prop, tier, seed, t0, R, m, rs, fns, own, cone, und, vac, vacuous, notes, glob, found, tot, secs, why, opaque, lost, lostr, violation, std):
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    cov = {"obligations": 0, "discharged": 0, "checker_cmd": "", "trusted_base": []}
    assumptions = json.load(open(os.path.join(VERIF, "vp", "assumptions.json")))
    ass = assumptions["all"] + assumptions["per"].get(prop, [])
    if R and m:
        a = verify.assumptions(open(rs).read(), m)
        ext_repo = sorted(x for x in a["external_body"] if x.startswith("REPOSITORY"))
        pre = [x for x in a["external_body"] if not x.startswith("REPOSITORY")]
        contracted = [f for f in m["fns"] if f["contracted"]]
        mine = sorted(f["key"] for f in m["fns"] if prop in owners.base(f["rel"], f["key"]) or prop == "C16" or prop == "C17")
        conef = sorted(f["key"] for f in m["fns"] if owners.in_cone(prop, f["rel"]))
        failed_keys = {f.key for f in R.fails}
        cov = {
            "obligations": R.verified + R.errors,
            "discharged": 0 if glob else R.verified,
            "unit": "one unit is one verified item (function body with all its postconditions, call preconditions, invariants and termination checks, or one lemma), as counted by Verus over the whole extracted crate; a caller is checked against its callees' contracts only",
            "items_by_part": getattr(R, "by_part", {}),
            "checker_cmd": re.sub(r"\S*/(v\d+\.rs)", r"\1", R.cmd),
            "back_end": "Verus 0.2026.09.13 with its bundled Z3",
            "functions_extracted": len(m["fns"]),
            "functions_under_contract": len(contracted),
            "functions_under_trait_contract_or_inlined": len(m["fns"]) - len(contracted),
            "functions_carrying_this_property": mine,
            "functions_carrying_this_property_failed": sorted(failed_keys & set(mine)),
            "functions_in_the_cone": len(conef),
            "undecided_functions": und,
            "not_verified_bodies": ext_repo,
            "solver_ms": R.smt_ms, "verifier_ms": R.total_ms,
            "slowest_functions": [{"function": k, "ms": v["ms"], "rlimit": v["rlimit"]} for k, v in sorted(R.fn_time.items(), key=lambda kv: -kv[1]["ms"])[:5]],
            "vacuity": {w: {"probes": len(v[0]), "vacuous": v[1]} for w, v in vac.items()},
            "extraction": {"inlined_helpers": m["inlined"], "dropped": m["dropped"], "opaque": opaque, "contracts_without_function": lost, "lost_roles": lostr, "display_impls": m["display"]},
            "trusted_base": ["axiom " + x for x in a["axioms"]] + ["assume_specification " + x for x in a["assume_specification"]] +
                            ["(of these assume_specifications, those of i64/i128 signum, unsigned_abs, abs are proved by Kani from the source of std for every value: %d harnesses)" % std] * (std > 0) +
                            ["external_body (prelude, std/core behaviour): %s x%d" % (x, pre.count(x)) for x in sorted(set(pre))] + ["uninterpreted spec functions: %d" % len(a["uninterpreted"])] + ["assume/admit: %d" % len(a["assume"])] + assumptions["base"],
        }
    cov["bounded_cross_check"] = {"label": "bounded, not counted as proved: inputs run through the real code and compared with an independent oracle; " + why, "seconds_per_shard": secs, "shards": NSH,
                                  "runs": tot["runs"], "compared": tot["checked"], "distinct_per_shard_sum": tot["distinct"], "samples": tot["samples"][:12]}
    if not R:
        cov["explanation"] = "; ".join(notes)
    e = {"property": prop, "tier": tier, "seed": seed, "level": "proof", "coverage": cov, "assumptions": ass + ["note: " + n for n in notes], "wall_s": round(time.time() - t0, 2), "violations": 1 if violation else 0}
    json.dump(e, open(os.path.join(VERIF, "evidence", prop + ".json"), "w"), indent=1)


if __name__ == "__main__":
    main()
