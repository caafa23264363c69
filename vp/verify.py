"""Extract the real code, hand it to Verus, and say which obligation of which function failed."""
import json, os, re, shutil, subprocess, time, hashlib

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VP_REPO", "/repo")
CONTRACTS = os.path.join(VERIF, "contracts")
TARGET = os.environ.get("VP_TARGET", os.path.join(VERIF, "target"))


class ToolError(Exception):
    pass


def build_extractor():
    """(re)build the extractor when its sources are newer; returns the binary"""
    exe = os.path.join(TARGET, "release", "extract")
    src = os.path.join(VERIF, "extract")
    newest = max(os.path.getmtime(os.path.join(r, f)) for r, _, fs in os.walk(src) for f in fs)
    if os.path.exists(exe) and os.path.getmtime(exe) >= newest:
        return exe
    env = dict(os.environ, CARGO_TARGET_DIR=TARGET)
    r = subprocess.run(["cargo", "build", "--release", "--offline", "-q"], cwd=src, env=env, capture_output=True, text=True)
    if r.returncode != 0:
        raise ToolError("the extractor does not build: " + r.stderr[-2000:])
    return exe


class Opts:
    def __init__(self):
        self.sets = {"--external": set(), "--nocontract": set(), "--nodec": set(), "--nonlinear": set()}
        self.vacuity = None

    def args(self):
        out = []
        for k, v in self.sets.items():
            for x in sorted(v):
                out += [k, x]
        if self.vacuity:
            out += ["--vacuity", self.vacuity]
        return out


def extract(exe, work, name, opts):
    rs, mj = os.path.join(work, name + ".rs"), os.path.join(work, name + ".json")
    r = subprocess.run([exe, os.path.join(REPO, "src", "main.rs"), CONTRACTS, rs, mj] + opts.args(), capture_output=True, text=True, timeout=120)
    if r.returncode != 0:
        raise ToolError("extraction failed: " + (r.stderr or r.stdout)[-2000:])
    m = json.load(open(mj))
    for f in m["fns"]:
        f["rel"] = os.path.relpath(f["file"], REPO)
    return rs, m


class Fail:
    """one failed obligation"""

    def __init__(self, key, rel, src_line, kind, clause, where, msg):
        self.key, self.rel, self.src_line, self.kind, self.clause, self.where, self.msg = key, rel, src_line, kind, clause, where, msg

    def id(self):
        return (self.key, self.kind, self.clause)

    def name(self):
        return "%s (%s:%s): %s%s" % (self.key, self.rel, self.src_line, self.msg, (": " + self.clause) if self.clause else "")


KINDS = [("postcondition not satisfied", "post"), ("precondition not satisfied", "pre"), ("assertion failed", "assert"), ("invariant not satisfied", "inv"),
         ("decreases not satisfied", "term"), ("could not prove termination", "term"), ("decreases clause", "nodec"), ("rlimit", "rlimit"), ("possible arithmetic", "arith"),
         ("possible division by zero", "panic"), ("recommendation not met", "note"), ("unwrap", "panic"), ("index out of bounds", "panic"), ("loop invariant", "inv"), ("assume_termination", "nodec")]
PANIC = re.compile(r"rt_panic|requires false|\bis_some\b|\bis_ok\b|\bis_err\b|\bis Some\b|\bis Ok\b|\bis Err\b|!= 0|\.len\(\)|\bunreached\b|index|in_bounds|false")


class Result:
    def __init__(self):
        self.verified = self.errors = 0
        self.fails = []       # Fail
        self.tool = []        # (function key or None, "body"|"sig"|None, message)
        self.fn_time = {}
        self.smt_ms = self.total_ms = 0
        self.raw = ""
        self.cmd = ""
        self.wall = 0.0


def locate(m, line):
    for f in m["fns"]:
        if f["start"] <= line <= f["end"]:
            return f, ("sig" if line <= f["sig_end"] else "body")
    return None, None


def in_prelude(m, line):
    return m["prelude"][0] <= line <= m["prelude"][1]


def verus(rs, m, threads=8, extra=(), timeout=600):
    R = Result()
    cmd = ["verus", rs, "--output-json", "--time-expanded", "--multiple-errors", "6", "--num-threads", str(threads)] + list(extra) + ["--", "--error-format=json"]
    R.cmd = " ".join(cmd)
    t0 = time.time()
    try:
        p = subprocess.run(cmd, capture_output=True, text=True, timeout=timeout, cwd=os.path.dirname(rs))
    except subprocess.TimeoutExpired:
        raise ToolError("the verifier did not finish within %d s" % timeout)
    R.wall = time.time() - t0
    R.raw = p.stderr
    try:
        out = json.loads(p.stdout[p.stdout.index("{"):])
    except ValueError:
        out = {}
    vr = out.get("verification-results", {})
    R.verified, R.errors = vr.get("verified", 0), vr.get("errors", 0)
    R.vir = vr.get("encountered-vir-error", False)
    tm = out.get("times-ms", {})
    R.total_ms = tm.get("total", 0)
    smt = tm.get("smt", {})
    R.smt_ms = smt.get("smt-run", smt.get("total", 0))
    R.by_part = {}
    for mod in smt.get("smt-run-module-times", []):
        part = {"vrt": "prelude", "spec": "specification lemmas", "vp_analysis": "real analysis"}.get(mod.get("module", ""), "program")
        R.by_part[part] = R.by_part.get(part, 0) + len(mod.get("function-breakdown", []))
        for fb in mod.get("function-breakdown", []):
            R.fn_time[fb["function"] + fb.get("mode:", "")] = {"ms": fb.get("time", 0), "rlimit": fb.get("rlimit", 0), "ok": fb.get("success", False)}
    diags = []
    for line in p.stderr.splitlines():
        if line.startswith("{"):
            try:
                diags.append(json.loads(line))
            except ValueError:
                pass
    lines = None
    for d in diags:
        if d.get("level") != "error" or not d.get("spans"):
            continue
        msg = d["message"]
        kind = None
        for pat, k in KINDS:
            if pat in msg:
                kind = k
                break
        if kind == "note":
            continue
        sp = d["spans"]
        # the function: a span inside a body counts more than one inside a signature
        best = None
        for s in sorted(sp, key=lambda s: not s.get("is_primary")):
            f, part = locate(m, s["line_start"])
            if f and (best is None or (best[1] == "sig" and part == "body")):
                best = (f, part)
        text = ""
        ctext = ""
        for s in sp:
            t = " ".join(x["text"][x["highlight_start"] - 1:x["highlight_end"] - 1].strip() for x in s.get("text", []))
            lab = s.get("label") or ""
            if "failed" in lab or (kind == "post" and s.get("is_primary") and not ctext):
                ctext = t
            if s.get("is_primary"):
                text = t
        if kind == "pre":
            # failed precondition: which one?
            pre = [s for s in sp if "failed precondition" in (s.get("label") or "")]
            pan = False
            for s in pre:
                fn = s.get("file_name", "")
                if "vstd" in fn or "vstd" in str(s.get("expansion")):
                    pan = True
                elif in_prelude(m, s["line_start"]):
                    pan = bool(PANIC.search(ctext))
            if not pre:
                pan = True  # a condition of the verifier's own library (unwrap, index, ...)
            if pan:
                kind = "panic"
        if kind is None or kind == "arith":
            R.tool.append((best[0]["key"] if best else None, best[1] if best else None, msg, text, [s["line_start"] for s in sp][:1]))
            continue
        if best is None:
            R.tool.append((None, None, "proof of the contracts' own lemmas failed: " + msg, text, [s["line_start"] for s in sp][:1]))
            continue
        f = best[0]
        if kind == "nodec":
            R.tool.append((f["key"], "nodec", msg, text, [f["start"]]))
            continue
        R.fails.append(Fail(f["key"], f["rel"], f["src_line"], kind, re.sub(r"\s+", " ", ctext or text)[:300], best[1], msg))
    if not vr and not R.tool:
        R.tool.append((None, None, "the verifier gave no result: " + p.stderr[-600:], "", []))
    return R


def run(work, log, threads=8, budget=400):
    """Verification with fallbacks: a function the verifier cannot read is set aside (and reported), the rest is still proved."""
    exe = build_extractor()
    opts = Opts()
    undecided = {}   # key -> why
    notes = []
    R = None
    end = time.time() + budget
    for attempt in range(14):
        rs, m = extract(exe, work, "v%d" % attempt, opts)
        R = verus(rs, m, threads, timeout=max(30, end - time.time()))
        if not R.tool:
            break
        progress = False
        keys = {f["key"]: f for f in m["fns"]}
        for key, part, msg, text, ln in R.tool:
            if key is None or key not in keys:
                continue
            if part == "nodec":
                tgt = "--nodec"
            elif part == "sig":
                tgt = "--nocontract"
            elif key in opts.sets["--external"]:
                tgt = "--nocontract"
            else:
                tgt = "--external"
            if key not in opts.sets[tgt]:
                opts.sets[tgt].add(key)
                progress = True
                undecided[key] = ("no termination measure" if tgt == "--nodec" else "outside the verifier's language") + ": " + msg.splitlines()[0][:200]
        if time.time() > end - 20:
            notes.append("out of time while setting functions aside")
            progress = False
        if not progress:
            # cannot be pinned on a function: everything is undecided
            notes.append("; ".join(t[2].splitlines()[0][:200] for t in R.tool[:3]))
            return R, m, undecided, notes, rs, True
    else:
        notes.append("gave up after %d attempts" % attempt)
        return R, m, undecided, notes, rs, True
    # a second opinion on failures: nonlinear arithmetic, a larger resource limit, another seed
    if R.fails:
        keys = sorted({f.key for f in R.fails})
        ids = {f.id() for f in R.fails}
        tries = []
        o2 = Opts()
        for k in o2.sets:
            o2.sets[k] = set(opts.sets[k])
        num = [k for f in R.fails for k in [f.key] if f.rel.startswith("src/smart_num")]
        o2.sets["--nonlinear"] |= set(num)
        if num:
            tries.append((o2, ("--rlimit", "60")))
        tries.append((opts, ("--rlimit", "60", "--smt-option", "smt.random_seed=11")))
        for i, (o, extra) in enumerate(tries):
            left = end - time.time()
            if left < 30:
                notes.append("no time for a second attempt")
                break
            try:
                rs2, m2 = extract(exe, work, "retry%d" % i, o)
                R2 = verus(rs2, m2, threads, extra, timeout=left)
            except ToolError as e:
                log("retry: %s" % e)
                continue
            if R2.tool:
                continue
            bad2 = {f.key for f in R2.fails}
            keep = [f for f in R.fails if f.key in bad2]
            gone = sorted({f.key for f in R.fails} - bad2)
            if gone:
                notes.append("proved on a second attempt (%s): %s" % (" ".join(extra), ", ".join(gone)))
            # a failure that was only a resource limit may become a real one
            R.fails = [next((g for g in R2.fails if g.key == f.key), f) if f.kind == "rlimit" else f for f in keep]
            if not R.fails:
                break
    return R, m, undecided, notes, rs, False


def vacuity(work, where, threads=4):
    """an assertion of false at the start (end) of every function has to fail"""
    exe = build_extractor()
    o = Opts()
    o.vacuity = where
    rs, m = extract(exe, work, "vac_" + where, o)
    p = subprocess.run(["verus", rs, "--multiple-errors", "1", "--num-threads", str(threads), "--", "--error-format=json"], capture_output=True, text=True, timeout=600, cwd=work)
    failed = set()
    src = open(rs).read().splitlines()
    for line in p.stderr.splitlines():
        if not line.startswith("{"):
            continue
        try:
            d = json.loads(line)
        except ValueError:
            continue
        if d.get("level") != "error":
            continue
        for s in d.get("spans", []):
            f, _ = locate(m, s["line_start"])
            if f:
                failed.add(f["key"])
    return m["probed"], sorted(set(m["probed"]) - failed)


def std_contracts(work):
    """Kani proves, from the source of std, what the prelude assumes of i64/i128 signum, unsigned_abs, abs"""
    d = os.path.join(work, "stdspec")
    shutil.copytree(os.path.join(VERIF, "stdspec"), d)
    p = subprocess.run(["cargo", "kani", "--target-dir", os.path.join(work, "kani")], capture_output=True, text=True, timeout=240, cwd=d)
    ok = re.search(r"Complete - (\d+) successfully verified harnesses, (\d+) failures", p.stdout)
    if not ok or ok.group(2) != "0" or p.returncode:
        raise ToolError("Kani on the std contracts: " + (p.stdout + p.stderr)[-300:])
    return int(ok.group(1))


def assumptions(text, m):
    """mechanical scan of what the verified file takes on trust"""
    lines = text.split("\n")
    out = {"axioms": [], "external_body": [], "assume_specification": [], "assume": [], "uninterpreted": []}
    for i, l in enumerate(lines):
        s = l.strip()
        if s.startswith("//"):
            continue
        mm = re.search(r"\baxiom fn (\w+)", l)
        if mm:
            out["axioms"].append(mm.group(1))
        mm = re.search(r"assume_specification[^\[]*\[\s*([^\]]+?)\s*\]", l)
        if mm:
            out["assume_specification"].append(re.sub(r"\s+", "", mm.group(1)))
        if "external_body" in l:
            nm = None
            for j in range(i, min(i + 6, len(lines))):
                t = lines[j] if j > i else lines[j][l.index("external_body"):]
                q = re.search(r"(?<!spec )\bfn (\w+)", t) or re.search(r"\bstruct (\w+)", t)
                if q:
                    nm = q.group(1)
                    break
            f, _ = locate(m, i + 1)
            out["external_body"].append(("REPOSITORY FUNCTION " + f["key"]) if f else (nm or "?"))
        if re.search(r"\b(assume|admit)\s*\(", l):
            out["assume"].append("line %d" % (i + 1))
        mm = re.search(r"\buninterp spec fn (\w+)", l)
        if mm:
            out["uninterpreted"].append(mm.group(1))
    return out
