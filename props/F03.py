from props.fmt import job
from props.S01 import jobs as programs


def run(c):
    c.build()
    q = c.quick
    jobs = [job(c, "tensor", 1), job(c, "many", 1), job(c, "snap", 1), job(c, "text", 0)]
    if not q:
        jobs += [job(c, "tensor", 2, dts="{0,4,5,13}"), job(c, "many", 2)]
    for i in range(3 if q else 10):
        jobs += [job(c, m, k, sim=3000 if q else 60000, seed=10 * i + k) for m, k in (("tensor", 2), ("many", 2), ("snap", 3))]
    c.replay(c.gen(jobs), cmd="format", timeout=300 if q else 3000)
    files = c.gen([dict(j, sim=(60 if q else 3000, 8), seed=c.seed * 7 + i, workers=1) for i, j in enumerate(programs(c)) if j.get("sim")])
    c.replay(files, mode="damage", timeout=300 if q else 3000)
    return c.finish(rule="every file one edit (cut, byte changed, dropped, inserted, length replaced by an enormous one) away from a written one, and random files several edits away; every cut and changed byte of captured snapshots; text documents composed of fitting and unfitting fields")
