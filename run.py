#!/opt/venv/bin/python
"""run one property check:  run.py C11 [--tier quick|thorough] [--case SUB] [--replay FILE] [--jobs N]"""
import argparse
import fnmatch
import json
import multiprocessing as mp
import os
import sys
import threading
import time
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.environ.get("PYOPTMAT_REPO", "/repo"))
sys.path.insert(0, HERE)
sys.path.append("/opt/veriftools/pyvenv/lib/python3.12/site-packages")
for v in ("OMP_NUM_THREADS", "MKL_NUM_THREADS", "OPENBLAS_NUM_THREADS"):
    os.environ[v] = "1"
os.environ.setdefault("PYTHONHASHSEED", "0")
sys.dont_write_bytecode = True
sys.setrecursionlimit(200000)

REPO = os.environ.get("PYOPTMAT_REPO", "/repo")
TOOL = 3


class FnTrace:
    """which functions of the repository the symbolic run executed"""

    def __init__(self):
        self.seen = set()

    def __enter__(self):
        m = sys.monitoring
        try:
            m.use_tool_id(TOOL, "verif")
        except ValueError:
            pass
        root = os.path.join(REPO, "pyoptmat") + os.sep

        def start(code, off):
            if code.co_filename.startswith(root):
                self.seen.add(
                    os.path.basename(code.co_filename)[:-3] + "." + code.co_qualname
                )
            return m.DISABLE

        m.register_callback(TOOL, m.events.PY_START, start)
        m.set_events(TOOL, m.events.PY_START)
        return self

    def __exit__(self, *a):
        m = sys.monitoring
        m.set_events(TOOL, 0)
        m.register_callback(TOOL, m.events.PY_START, None)
        m.free_tool_id(TOOL)


def child(prop, k, tier, seed, deadline, conn):
    def body():
        import torch

        torch.set_num_threads(1)
        from vlib import harness, registry

        name, fn, opts, ctier = registry.load(prop)[k]
        o = dict(opts)
        if tier == "thorough":
            o.update(o.get("thorough", {}))
        try:
            with FnTrace() as tr:
                r = harness.run_case(fn, o, seed=seed, deadline=deadline)
            r["functions"] = sorted(tr.seen)
        except BaseException as e:
            r = dict(crash="%s: %s" % (type(e).__name__, e), tb=traceback.format_exc())
        conn.send(r)
        conn.close()

    try:
        import ctypes, resource
        ctypes.CDLL("libc.so.6").prctl(1, 9)
        lim = (5 << 30) if tier == "quick" else (12 << 30)
        resource.setrlimit(resource.RLIMIT_DATA, (lim, lim))
    except Exception:
        pass
    threading.stack_size(512 * 1024 * 1024)
    t = threading.Thread(target=body)
    t.start()
    t.join()
    sys.stdout.flush()
    os._exit(0)


def concrete_child(prop, k, conn):
    """run the case on the real code alone, for a few admissible inputs: does it
    terminate at all?  (the encoding of a loop without end has no end either)"""

    def body():
        from vlib import harness, registry

        fn = registry.load(prop)[k][1]
        fails, valid = [], 0
        for salt in range(60):
            env = {"__salt__": str(salt)}
            conn.send(("start", env))
            bad, cc = harness.run_concrete(fn, env)
            conn.send(("done", bad))
            if bad is None:
                continue
            valid += 1
            f = cc.clear_fail() if bad else None
            if f is not None and "MemoryError" in str(f[2]):
                conn.send(("end", [dict(check="termination", index=None, got="memory exhausted", expected="an answer",
                                        why="the real code does not come back on this input", env=env)]))
                return
            if f is not None:
                fails.append(harness.witness(cc, env, "the real code fails; its encoding was out of reach", f))
            if valid >= 4:
                break
        conn.send(("end", fails if len(fails) >= 2 else []))
        conn.close()

    try:
        import ctypes, resource
        ctypes.CDLL("libc.so.6").prctl(1, 9)
        resource.setrlimit(resource.RLIMIT_DATA, (3 << 30, 3 << 30))
    except Exception:
        pass
    threading.stack_size(512 * 1024 * 1024)
    t = threading.Thread(target=body)
    t.start()
    t.join()
    os._exit(0)


class Concrete:
    LIMIT = 45

    def __init__(self, ctx, prop, k):
        self.a, b = ctx.Pipe(False)
        self.p = ctx.Process(target=concrete_child, args=(prop, k, b))
        self.p.start()
        b.close()
        self.t0 = time.time()
        self.env = None
        self.result = None

    def poll(self):
        """violations, or None while unknown"""
        if self.result is not None:
            return self.result
        try:
            while self.a.poll():
                what, x = self.a.recv()
                if what == "start":
                    self.env, self.t0 = x, time.time()
                elif what == "done":
                    self.env = None
                else:
                    self.result = x
        except EOFError:
            self.result = self.result or []
        if self.result is None and time.time() - self.t0 > self.LIMIT:
            self.result = [] if self.env is None else [dict(
                check="termination", index=None, got="no answer within %d s" % self.LIMIT, expected="an answer",
                why="the real code does not come back on this input", env=self.env)]
        if self.result is not None:
            self.p.kill()
        return self.result


EMPTY = dict(paths=0, aborted=0, obligations=0, skipped=0, inconclusive=[], validated=0, reach=0, sample=None,
             stats=dict(queries=0, time=0.0), ops={}, wall=0.0, nodes=0, functions=[])


def run_pool(prop, idx, tier, seed, budget, jobs):
    ctx = mp.get_context("fork")
    conc = {}
    suspects = []
    slow = 90 if tier == "quick" else 400
    todo = list(idx)
    live = {}
    out = {}
    started = {}
    found = {}
    t0 = time.time()
    end = t0 + budget
    while todo or live:
        while todo and len(live) < jobs:
            k = todo.pop(0)
            a, b = ctx.Pipe(False)
            p = ctx.Process(target=child, args=(prop, k, tier, seed, end - 10, b))
            p.start()
            b.close()
            live[k] = (p, a)
            started[k] = time.time()
        now = time.time()
        for k in suspects:
            if k not in conc and not found and sum(c.poll() is None for c in conc.values()) < 2:
                conc[k] = Concrete(ctx, prop, k)
        for k, c in conc.items():
            v = c.poll()
            if v and k not in found:
                found[k] = v
                end = min(end, now + 60)
        for k, (p, a) in list(live.items()):
            if a.poll():
                try:
                    out[k] = a.recv()
                except EOFError:
                    out[k] = dict(crash="worker died (exit code %s)" % p.exitcode)
                if "MemoryError" in out[k].get("crash", ""):
                    suspects.append(k)
                if any(not is_known(prop, registry_name(prop, k), v) for v in out[k].get("violations", [])):
                    # the verdict is settled: give the remaining cases a little time to add detail
                    end = min(end, now + 60)
                p.join(5)
                if p.is_alive():
                    p.kill()
                del live[k]
            elif k in found:
                p.kill()
                out[k] = dict(crash="stopped")
                del live[k]
            elif not p.is_alive():
                out[k] = dict(crash="worker died (exit code %s)" % p.exitcode)
                del live[k]
                suspects.append(k)
            elif now - started[k] > slow and k not in suspects:
                suspects.append(k)
            elif now > end:
                p.kill()
                out[k] = dict(crash="time budget exhausted")
                del live[k]
        if now > end:
            for k in todo:
                out[k] = dict(crash="time budget exhausted")
            todo = []
        time.sleep(0.01)
    # verdicts of the concrete runs which are still open
    stop = time.time() + Concrete.LIMIT + 5
    while time.time() < stop and any(c.poll() is None for c in conc.values()):
        time.sleep(0.1)
    for k, c in conc.items():
        if c is not None and c.poll():
            found[k] = c.result
        c.p.kill()
    for k, v in found.items():
        out[k] = dict(EMPTY, **{x: y for x, y in out.get(k, {}).items() if x in EMPTY}, violations=v[:3])
    return out


def known_findings():
    p = os.path.join(HERE, "known_findings.json")
    if not os.path.exists(p):
        return []
    with open(p) as f:
        return json.load(f)["findings"]


def registry_name(prop, k):
    from vlib import registry

    return registry.load(prop)[k][0]


def is_known(prop, name, v):
    for f in known_findings():
        if (f["property"] == prop and f.get("status", "known") == "known"
                and fnmatch.fnmatch(name, f["case"]) and fnmatch.fnmatch(v["check"], f["check"])):
            return f
    return None


def replay(prop, path):
    from vlib import harness, registry

    with open(path) as f:
        d = json.load(f)
    for name, fn, opts, tier in registry.load(prop):
        if name == d["case"]:
            bad, cc = harness.run_concrete(fn, d["env"])
            for x in cc.fails:
                print("FAIL", d["case"], x)
            print("reproduced" if bad else "not reproduced")
            return 1 if bad else 0
    print("no such case")
    return 2


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--case", default="")
    ap.add_argument("--replay")
    ap.add_argument("--jobs", type=int, default=os.cpu_count() or 4)
    ap.add_argument("--budget", type=float, default=None)
    ap.add_argument("-v", action="store_true")
    a = ap.parse_args()
    seed = int(os.environ.get("VERIF_SEED", "1"))
    t0 = time.time()
    prop = a.prop
    if a.replay:
        return replay(prop, a.replay)
    budget = a.budget or (400 if a.tier == "quick" else 790)

    import_err = None
    cases = []
    try:
        import torch

        torch.set_num_threads(1)
        import z3, torch._decomp, torch._refs, torch._dynamo  # noqa  (shared by the forked workers)
        from vlib import harness, registry, nf  # noqa
        import pyoptmat.models, pyoptmat.ode, pyoptmat.optimize, pyoptmat.experiments  # noqa

        cases = registry.load(prop)
    except Exception:
        import_err = traceback.format_exc()
        print(import_err)
        return 2
    idx = [
        k for k, (name, fn, opts, ctier) in enumerate(cases)
        if (a.tier == "thorough" or ctier == "quick") and a.case in name
    ]
    # slow cases first
    idx.sort(key=lambda k: -cases[k][2].get("cost", 1))
    out = run_pool(prop, idx, a.tier, seed, budget, a.jobs)

    nviol = 0
    undecided = []
    tot = dict(queries=0, time=0.0, leaves=0, trivial=0, confirmed=0, confirm_open=0)
    paths = oblig = validated = skipped = nodes = 0
    funcs = set()
    samples = []
    viols = []
    percase = []
    decided = 0
    kf_hit = set()
    rdir = os.path.join(HERE, "replays")
    for k in sorted(out):
        name = cases[k][0]
        r = out[k]
        if "crash" in r:
            undecided.append("%s: %s" % (name, r["crash"]))
            if a.v and "tb" in r:
                print(r["tb"])
            continue
        st = r["stats"]
        for q in tot:
            tot[q] += st.get(q, 0)
        paths += r["paths"]
        oblig += r["obligations"]
        validated += r["validated"]
        skipped += r["skipped"]
        nodes += r["nodes"]
        funcs.update(r["functions"])
        if r["sample"]:
            samples.append(dict(case=name, witness=r["sample"]))
        percase.append(
            dict(case=name, paths=r["paths"], obligations=r["obligations"], queries=st["queries"],
                 solver_s=round(st["time"], 2), wall_s=round(r["wall"], 2), validated=r["validated"])
        )
        if a.v:
            print(percase[-1])
        for i, v in enumerate(r["violations"]):
            kf = is_known(prop, name, v)
            if kf is not None:
                if kf["id"] not in kf_hit:
                    print("KNOWN-FINDING: property=%s %s" % (prop, kf["what"]))
                kf_hit.add(kf["id"])
                continue
            os.makedirs(rdir, exist_ok=True)
            path = os.path.join(rdir, "%s-%s-%d.json" % (prop, name.replace("/", "_").replace(" ", "_"), i))
            with open(path, "w") as f:
                json.dump(dict(property=prop, case=name, **v), f, indent=1)
            print("VIOLATION property=%s replay=%s" % (prop, path))
            print("   case %s: %s[%s] code gives %s, property requires %s (%s)" % (
                name, v["check"], v["index"], v["got"], v["expected"], v["why"]))
            nviol += 1
            viols.append(dict(case=name, check=v["check"], replay=path))
        for m in r["inconclusive"]:
            undecided.append("%s: %s" % (name, m))
        if not r["inconclusive"]:
            decided += 1
    for m in undecided:
        print("UNDECIDED: %s" % m[:600])
    wall = time.time() - t0
    meta = registry.meta(prop)
    ev = dict(
        property=prop, tier=a.tier, seed=seed, level="model_checking",
        coverage=dict(
            states=paths + tot["leaves"], transitions=oblig, traces_validated_against_impl=validated,
            samples=samples[:8],
            explanation="symbolic execution of the real code: every execution path of each listed case was enumerated "
            "(states = paths + solver case-split leaves), every obligation on each path decided by SMT for all real values of the inputs",
            functions_encoded=sorted(funcs), bounds=meta.get("bounds", ""), outside_bounds=meta.get("outside", ""),
            cases=len(idx), cases_decided=decided, paths=paths, obligations=oblig, singular_points_not_compared=skipped,
            solver_queries=tot["queries"], solver_s=round(tot["time"], 2), closed_by_normal_form=tot["trivial"], normal_form_closures_reconfirmed_by_smt=tot["confirmed"],
            normal_form_closures_smt_timeout=tot["confirm_open"],
            dag_nodes=nodes, violations_found=viols, undecided=undecided[:40], per_case=percase, known_findings=sorted(kf_hit),
        ),
        assumptions=meta.get("assumptions", []),
        wall_s=round(wall, 2), violations=nviol,
    )
    if not a.case:
        os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
        with open(os.path.join(HERE, "evidence", prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
    print("%s %s: %d cases (%d decided), %d paths, %d obligations, %d queries, %.1f s solver, %d traces validated, %d violations, %d undecided, %.1f s" % (
        prop, a.tier, len(idx), decided, paths, oblig, tot["queries"], tot["time"], validated, nviol, len(undecided), wall))
    if nviol:
        return 1
    if decided == 0:
        return 2
    return 0


if __name__ == "__main__":
    sys.exit(main())
