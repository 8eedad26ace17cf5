"""property id -> harness modules and stated bounds"""
import importlib
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

MODULES = {
    "C01": ["odes"],
    "C02": ["odes"],
    "C03": ["odes"],
    "C04": ["odes"],
    "C05": ["chunk"],
    "C06": ["chunk"],
    "C07": ["chunk"],
    "C08": ["solve", "odes"],
    "C09": ["solve"],
    "C10": ["util"],
    "C27": ["util"],
    "C28": ["util"],
    "C29": ["util"],
    "C17": ["batch"],
    "C18": ["params"],
    "C19": ["params"],
    "C20": ["params"],
    "C21": ["exper"],
    "C22": ["exper"],
    "C23": ["exper"],
    "C24": ["stats"],
    "C11": ["flow", "hard"],
    "C12": ["hard"],
    "C13": ["hard"],
    "C14": ["models"],
    "C15": ["models"],
    "C16": ["models"],
    "C25": ["laws"],
    "C26": ["laws"],
    "C30": ["grads"],
}


def load(prop):
    for m in MODULES.get(prop, []):
        importlib.import_module("props." + m)
    from props.common import CASES

    return CASES.get(prop, [])


def meta(prop):
    p = os.path.join(HERE, "bounds.json")
    if not os.path.exists(p):
        return {}
    with open(p) as f:
        d = json.load(f)
    r = dict(d.get(prop, {}))
    r["assumptions"] = d["common"]["assumptions"] + r.get("assumptions", [])
    return r
