INVS = ["Inside", "Ordered", "Named", "Dry"]


def run(c):
    c.build()
    q = c.quick
    jobs = [dict(module="MCClean", consts={"Depth": "1", "Sim": "FALSE"}, invs=INVS, name="MCClean_all", workers=4, timeout=900),
            dict(module="MCClean", consts={"Depth": "8", "Sim": "TRUE"}, invs=INVS, sim=(150 if q else 4000, 24), seed=c.seed, name="MCClean_sim", timeout=1500)]
    c.replay(c.gen(jobs), cmd="clean", timeout=300 if q else 3000)
    return c.finish(rule="cleaning commands of the cleaning specification, run with the program in a scratch home directory: which files are gone afterwards")
