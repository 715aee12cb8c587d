from props.fmt import job
from props.S01 import jobs as programs


def run(c):
    c.build()
    q = c.quick
    c.replay(c.gen([job(c, "snap", 0)]), cmd="format")
    c.replay(c.gen(programs(c)), mode="reload", timeout=300 if q else 3000)
    return c.finish(rule="programs of the tensor specification run under capture, written and read back (memory and file): the same snapshot, and it evaluates to the specification's values; snapshots without operations against the specification of the file form")
