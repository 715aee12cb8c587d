INVS = ["OneBuild", "EnabledOnly", "Honest"]


def run(c):
    c.build()
    q = c.quick
    jobs = [dict(module="MCBuild", consts={"Depth": str(d)}, invs=INVS, sim=(n if q else 30 * n, d + 4), seed=c.seed * 100 + d, name=f"MCBuild_{d}", timeout=3000) for d, n in ((4, 800), (10, 250))]
    c.replay(c.gen(jobs), cmd="build", timeout=300 if q else 3000)
    return c.finish(rule="registries and build commands of the build specification, with the program and recording plugins: requests received by each plugin, exit status, files")
