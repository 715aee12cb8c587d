def run(c):
    c.build()
    q = c.quick

    def job(n, depth, sim=None):
        j = dict(module="MCManager", consts={"Depth": str(depth), "N": str(n), "Sim": "TRUE" if sim else "FALSE"}, invs=["NoneUnasked", "Reused", "Answers"], timeout=3000,
                 name=f"MCManager_{n}_{depth}", workers=3)
        if sim:
            j.update(sim=(sim, depth + 3), seed=c.seed * 100 + n, workers=1)
        return j
    c.replay(c.gen([job(1, 2 if q else 3)] + [job(n, d, 60 if q else 1500) for n, d in ((2, 8), (4, 14))]), cmd="manager", timeout=500 if q else 5000, n=16)
    return c.finish(rule="histories of the manager specification with real plugin processes: result, processes started, processes alive and processes left behind after every operation and after the manager is gone")
