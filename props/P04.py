import os
import subprocess
from lib import ROOT, ToolError


def run(c):
    c.build()
    q = c.quick
    shim = os.path.join(c.work, "step.so")
    p = subprocess.run(["gcc", "-shared", "-fPIC", "-O1", "-w", "-o", shim, os.path.join(ROOT, "harness/shim/step.c"), "-ldl"], capture_output=True, text=True)
    if p.returncode:
        raise ToolError(p.stderr)

    def job(mode, cfg, steps=0, sim=None):
        j = dict(module="MCStore", consts={"Mode": f'"{mode}"', "Cfg": str(cfg), "Steps": str(steps), "Sim": "TRUE" if sim else "FALSE"}, invs=["Complete", "Reads"],
                 props=["NotLost"] if mode == "model" else [], timeout=3000, name=f"MCStore_{mode}_{cfg}_{steps}", workers=3)
        if sim:
            j.update(sim=(sim, steps + 3), seed=c.seed * 100 + cfg, workers=1)
        return j
    c.gen([job("model", 3), job("model", 6 if not q else 4)])
    files = c.gen([job("sched", 1, 14), job("sched", 2, 5 if q else 8)] + [job("sched", k, s, 120 if q else 3000) for k, s in ((2, 24), (3, 30), (4, 30), (5, 40))])
    recs = c.record(files, cmd="store", tail=[shim], timeout=600 if q else 6000)
    c.accept("StoreTrace", recs, op="registry store", name="store", timeout=1000)
    return c.finish(rule="schedules of the store specification, followed by real processes that save and load one registry and stop before every file operation, some killed there; every recorded history is a behaviour of an atomic store")
