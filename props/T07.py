import os
MODES = ("red", "dim", "idx", "sh", "bin", "join", "mat", "ein", "conv", "win", "type", "einbad")


def run(c):
    c.build()
    q = c.quick
    inside = os.environ.get("T07_INSIDE") == "1"
    modes = os.environ.get("T07_MODES", ",".join(MODES)).split(",")
    jobs = [dict(module="MCDomain", consts={"Mode": f'"{m}"', "Big": "FALSE" if q else "TRUE", "Inside": "TRUE" if inside else "FALSE"},
                 invs=["Refused"], timeout=3000) for m in modes]
    c.replay(c.gen(jobs), mode="rot" if q else "all", timeout=250 if q else 2000)
    return c.finish(rule="every operation x operand shapes, element types and parameters around the boundary of its domain; only requests outside the domain are run")
