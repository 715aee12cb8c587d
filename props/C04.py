
def run(c):
    c.build()
    q = c.quick
    jobs = [dict(module="MCConvert", consts={"Depth": str(d), "NPool": "4", "Sim": "TRUE"}, invs=["Untouched", "Sized"], sim=(n, d + 3), seed=c.seed * 10 + d, name=f"MCConvert_{d}", timeout=1500) for d, n in ((6, 80 if q else 2500), (16, 60 if q else 2000))]
    c.replay(c.gen(jobs), cmd="convert", timeout=300 if q else 3000)
    return c.finish(rule="chains of conversions of the conversion specification, run with the program and a format plugin, some of them failing: exit status and contents of every file after every command")
