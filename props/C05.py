INVS = ["OneEach", "SoundOnly"]


def run(c):
    c.build()
    q = c.quick
    jobs = [dict(module="MCInstall", consts={"Depth": "2" if q else "3", "Sim": "FALSE"}, invs=INVS, props=["Kept"], name="MCInstall_all", workers=4, timeout=3000)]
    jobs += [dict(module="MCInstall", consts={"Depth": str(d), "Sim": "TRUE"}, invs=INVS, props=["Kept"], sim=(n if q else 30 * n, d + 3), seed=c.seed * 100 + d, name=f"MCInstall_{d}", timeout=3000)
             for d, n in ((6, 150), (12, 120), (25, 50))]
    c.replay(c.gen(jobs), cmd="install", timeout=300 if q else 3000)
    return c.finish(rule="histories of install, update and remove commands over packages that change, with the program, a stand-in for cargo and real git repositories, some while nothing can be written: exit status, registry and every file after every command")
