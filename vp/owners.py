"""Which property does an obligation belong to?"""
import re

R, V, N, SC = "src/smart_num/rational.rs", "src/smart_num/val_holder.rs", "src/smart_num/mod.rs", "src/smart_num/special_const.rs"
ALL = ["C%02d" % i for i in range(1, 20)]

CONE = {
    "C01": [R], "C02": [R],
    "C03": ["src/smart_num/"], "C04": ["src/smart_num/"],
    "C05": ["src/smart_num/", "src/ast/"],
    "C06": ["src/compute/num_aggregate/", "src/smart_num/", "src/ast/", "src/math_op/"],
    "C07": ["src/compute/num_aggregate/", "src/smart_num/", "src/ast/", "src/math_op/"],
    "C08": ["src/compute/derivative/", "src/compute/num_aggregate/", "src/smart_num/", "src/ast/", "src/math_op/"],
    "C09": ["src/compute/derivative/mod.rs", "src/compute/substitute/", "src/compute/taylor_expansion/", "src/compute/limit/mod.rs", "src/ast/"],
    "C10": ["src/compute/substitute/", "src/ast/", "src/math_op/"],
    "C11": ["src/compute/taylor_expansion/", "src/compute/derivative/", "src/compute/substitute/", "src/compute/num_aggregate/", "src/smart_num/", "src/ast/", "src/math_op/"],
    "C12": ["src/compute/", "src/smart_num/", "src/ast/", "src/math_op/"],
    "C13": ["src/"],
    "C14": ["src/ast/", "src/smart_num/", "src/compute/limit/limit_expression.rs", "src/compute/taylor_expansion/"],
    "C15": ["src/compute/limit/limit_expression.rs", "src/compute/num_aggregate/", "src/smart_num/", "src/ast/", "src/math_op/"],
    "C16": ["src/"], "C17": ["src/"],
    "C18": ["src/compute/num_aggregate/", "src/smart_num/", "src/ast/", "src/math_op/"],
    "C19": ["src/compute/", "src/smart_num/", "src/ast/", "src/math_op/"],
}


def in_cone(prop, rel):
    return any(rel.startswith(p) for p in CONE[prop])


def name(key):
    return key.rsplit("::", 1)[-1]


def base(rel, key):
    """all properties whose contracts the function carries"""
    n = name(key)
    show = n in ("vshow", "to_string_raw", "to_string", "priority")
    if rel == SC:
        return {"C14"}
    if rel == R:
        if show:
            return {"C14"}
        if n in ("add", "sub", "mul", "div", "neg"):
            return {"C01"}
        if n in ("gcd", "reduce"):
            return {"C01", "C02"}
        if n == "to_f64" or n == "to_rational":
            return {"C05"}
        if n == "from":
            return {"C02", "C05"}
        return {"C02"}
    if rel in (V, N):
        if show:
            return {"C14"}
        if n in ("add", "sub", "mul", "div", "neg"):
            return {"C03", "C04"} if rel == N else {"C03"}
        if n == "wrap_val":
            return {"C03", "C04"}
        if n in ("is_zero", "is_one", "is_pi", "is_e", "zero", "one", "pi", "e", "sign"):
            return {"C04"}
        if n == "from" and rel == N:
            return {"C04", "C05"}
        return {"C05"}
    if rel.startswith("src/ast/"):
        if show:
            return {"C14"}
        if n in ("near", "to_smart_num", "to_rational"):
            return {"C05"}
        if n == "from" and "Option" in key:
            return {"C09"}
        if n in ("is_zero", "is_one", "is_pi", "is_e"):
            return {"C04", "C13"}
        return {"C13"}
    if rel.startswith("src/math_op/"):
        return {"C13"}
    if rel.startswith("src/compute/num_aggregate/"):
        return {"C06", "C07", "C13", "C18"}
    if rel.startswith("src/compute/derivative/"):
        return {"C09"} if "<Expression as Derivative<Expression>>" in key or "<Expression as Derivative<&Expression>>" in key else {"C08", "C13"}
    if rel.startswith("src/compute/substitute/"):
        return {"C14"} if show else {"C09"} if "<Expression,Expression>" in key or "<&Expression,&Expression>" in key else {"C10", "C13"}
    if rel.startswith("src/compute/taylor_expansion/"):
        return {"C11"} if show else {"C09"} if "<Expression,Expression>" in key else {"C11", "C13"}
    if rel == "src/compute/limit/limit_expression.rs":
        return {"C14"} if show else {"C15", "C13", "C19"}
    if rel.startswith("src/compute/limit/"):
        return {"C09"} if "LimitTry<Expression,Expression>" in key else {"C12", "C13", "C19"}
    return set(ALL)


def owners(rel, key, kind, clause):
    if kind == "term":
        return {"C17"}
    b = base(rel, key)
    if kind == "panic":
        return b | {"C16"}
    if kind != "post":
        return b
    c = clause.replace(" ", "")
    if rel.startswith("src/compute/num_aggregate/"):
        if "refines" in c or "agg_ens" in c:
            return {"C06"}
        if "folded" in c or "agg_fold" in c:
            return {"C07"}
        if "normal(" in c or "agg_norm" in c:
            return {"C18"}
        if "agg_wf" in c or "wf(" in c or "vars(" in c:
            return {"C13"}
    if rel.startswith("src/compute/derivative/"):
        if "der_wf" in c or "deriv_wf" in c:
            return {"C13"}
        return b - {"C13"}
    if rel.startswith("src/compute/taylor_expansion/"):
        if "tay_wf" in c:
            return {"C13", "C11"}
        return b - {"C13"}
    if rel.startswith("src/compute/limit/"):
        if "lim_found" in c or "rule_found" in c or "found(" in c or "settled(" in c:
            return {"C19"}
        if "lim_wf" in c or "rule_wf" in c or "lwf(" in c or "lvars(" in c:
            return {"C13"}
        return b - {"C13", "C19"}
    if rel == N and kind == "post":
        if c.startswith("nwf("):
            return {"C04"}
        if "C03" in b and "C04" in b:
            return {"C03"}
    return b
