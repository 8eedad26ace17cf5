"""developer entry: python -m vlib.dev C11 [case substring]"""
import importlib, json, sys, threading, time
sys.path.append("/opt/veriftools/pyvenv/lib/python3.12/site-packages")
sys.setrecursionlimit(200000)
threading.stack_size(512 * 1024 * 1024)


def main():
    import torch
    torch.set_num_threads(1)
    from . import registry
    from . import harness
    prop = sys.argv[1]
    sub = sys.argv[2] if len(sys.argv) > 2 else ""
    for name, fn, opts, tier in registry.load(prop):
        if sub not in name:
            continue
        o = dict(opts); o["debug"] = True
        r = harness.run_case(fn, o)
        st = r["stats"]
        print("%-34s %s paths=%d obl=%d skip=%d viol=%d inc=%d val=%d q=%d (%.1fs, max %.1f) leaves=%d nodes=%d wall=%.1f" % (
            name, tier, r["paths"], r["obligations"], r["skipped"], len(r["violations"]), len(r["inconclusive"]), r["validated"],
            st["queries"], st["time"], st["maxq"], st["leaves"], r["nodes"], r["wall"]), flush=True)
        for v in r["violations"]:
            print("   VIOL", v["check"], v["index"], v["got"], v["expected"], v["why"])
            if "-v" in sys.argv: print(v["env"])
        for v in r["inconclusive"]:
            print("   INC", v[:400])

t = threading.Thread(target=main); t.start(); t.join()
