"""Hints for the input search: literals of the current source that the baseline did not have, and the operators named by failing functions.
Only where to look first; never part of a decision.     literals.py --baseline  rewrites literals.json from /repo"""
import json, os, re, sys

OPS = {"neg": "Neg", "add": "Add", "sub": "Sub", "mul": "Mul", "div": "Div", "pow": "Pow", "sin": "Sin", "cos": "Cos", "exp": "Exp", "ln": "Ln"}


def scan(repo):
    ints, floats, strs, lines = set(), set(), set(), set()
    for root, _, files in os.walk(os.path.join(repo, "src")):
        for f in sorted(files):
            if not f.endswith(".rs"):
                continue
            s = open(os.path.join(root, f), errors="replace").read()
            s = re.sub(r"/\*.*?\*/", " ", s, flags=re.S)
            s = re.sub(r"//[^\n]*", "", s)
            for l in s.splitlines():
                if l.strip():
                    lines.add((f, re.sub(r"\s+", "", l)))
            for x in re.findall(r'"((?:[^"\\]|\\.)*)"', s):
                if re.fullmatch(r"[A-Za-z_]\w{0,20}", x):
                    strs.add(x)
            for x in re.findall(r"'([A-Za-z])'", s):
                strs.add(x)
            t = re.sub(r'"((?:[^"\\]|\\.)*)"', '""', s)
            for x in re.findall(r"(?<![\w.])(0x[0-9a-fA-F_]+|\d[\d_]*(?:\.\d[\d_]*)?(?:[eE][-+]?\d+)?)(?:[iuf]\d+|usize|isize)?", t):
                y = x.replace("_", "")
                try:
                    if y.startswith("0x"):
                        ints.add(int(y, 16))
                    elif re.fullmatch(r"\d+", y):
                        ints.add(int(y))
                    else:
                        floats.add(float(y))
                except ValueError:
                    pass
    return ints, floats, strs, lines


def hints(repo, keys, basefile):
    ints, floats, strs, lines = scan(repo)
    try:
        b = json.load(open(basefile))
    except (OSError, ValueError):
        b = {"ints": [], "floats": [], "strs": [], "lines": []}
    new_lines = sorted(" ".join(l) for l in lines - {tuple(x) for x in b["lines"]})
    # literals on changed lines count as new even when they occur elsewhere
    near = {int(x) for l in new_lines for x in re.findall(r"(?<![\w.])(\d{1,19})(?![\w.])", l.split(" ", 1)[1])}
    ops = []
    for k in keys + [l.split(" ", 1)[0][:-3] for l in new_lines]:
        for n, o in OPS.items():
            if re.search(r"(?<![a-z])%s(?![a-z])" % n, k.lower()) and o not in ops:
                ops.append(o)
    ni = sorted((ints - set(b["ints"])) | {x for x in near if x > 3}, key=lambda v: v)[:60]
    names = sorted((strs - set(b["strs"])))[:20]
    return {"ops": ops, "new_ints": ni, "new_floats": sorted(floats - set(b["floats"]))[:20], "new_names": names, "ints": sorted(ints)[:50]}


if __name__ == "__main__":
    here = os.path.dirname(os.path.abspath(__file__))
    i, f, s, l = scan(os.environ.get("VP_REPO", "/repo"))
    json.dump({"ints": sorted(i), "floats": sorted(f), "strs": sorted(s), "lines": sorted(list(x) for x in l)}, open(os.path.join(here, "literals.json"), "w"), indent=0)
