#!/opt/venv/bin/python
"""setup: nothing has to be built; make sure that the pieces are there and that the engine decides two tiny problems"""
import os
import subprocess
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True


def main():
    sys.path.append("/opt/veriftools/pyvenv/lib/python3.12/site-packages")
    import torch
    import z3

    from vlib import harness, registry

    def good(ctx):
        x = ctx.real("x", (2,))
        ctx.eq("square", (x + 1) * (x - 1), x * x - 1)

    def bad(ctx):
        x = ctx.real("x", (2,))
        ctx.eq("wrong", torch.where(x > 3, x + 1, x), x)

    r = harness.run_case(good, {}, seed=1)
    assert not r["violations"], r
    r = harness.run_case(bad, {}, seed=1)
    assert r["violations"], r
    for k in sorted(registry.MODULES):
        assert registry.load(k), k
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    print("torch", torch.__version__, "z3", z3.get_version_string(), "ok")


if __name__ == "__main__":
    main()
