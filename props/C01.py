
def run(c):
    c.build()
    q = c.quick
    jobs = [dict(module="MCRun", consts={"Depth": str(d), "Sim": "TRUE"}, invs=["Served", "Refused"], sim=(n, d + 3), seed=c.seed * 10 + d, name=f"MCRun_{d}", timeout=1500) for d, n in ((8, 80 if q else 2500), (20, 50 if q else 2000))]
    c.replay(c.gen(jobs), cmd="run", timeout=300 if q else 3000)
    return c.finish(rule="histories of run commands of the run specification, with the program and recording backends: artifact executed, inputs passed, outputs reported")
