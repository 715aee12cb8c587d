INVS = ["OneEach", "Latest", "Exactly", "NoDangling"]


def jobs(c, mode, bfs, sims):
    out = []
    for depth, num in [(bfs, None)] + sims:
        j = dict(module="MCRegistry", consts={"Mode": f'"{mode}"', "Depth": str(depth), "Sim": "TRUE" if num else "FALSE"}, invs=INVS, timeout=3000, name=f"MCRegistry_{mode}_{depth}_{bool(num)}", workers=3)
        if num:
            j.update(sim=(num, depth + 3), seed=c.seed * 100 + depth, workers=1)
        out.append(j)
    return out


def run(c):
    c.build()
    q = c.quick
    c.replay(c.gen(jobs(c, "api", 3 if q else 4, [(d, 150 if q else 4000) for d in (6, 14, 30)])), cmd="admin", timeout=300 if q else 3000)
    return c.finish(rule="histories of registry operations of the registry specification: contents, lists, lookups and dependency checks after every operation")
