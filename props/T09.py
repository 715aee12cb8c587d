def run(c):
    c.build()
    q = c.quick
    s0 = c.seed % 1000
    def st(n): return "{%s}" % ",".join(str(s0 + i) for i in range(n))
    jobs = []
    for m, n in (("ew", 70), ("bin", 60), ("red", 60), ("mm", 50), ("conv", 25), ("par", 100), ("mpar", 30)):
        jobs.append(dict(module="MCBig", spec="BSpec", name="big-" + m, invs=["Lemma"], timeout=3000,
                         consts={"Mode": f'"{m}"', "Streams": st(3 if q else 9), "Shapes": "<- ShapesQuick", "SYM": "FALSE", "MaxWorkers": "8"},
                         sim=(n if q else 12 * n, 12)))
    jobs.append(dict(module="MCWorkers", name="workers", consts={"W": "5" if q else "7", "T": "3" if q else "4"}, invs=["Shared", "Result", "Sound"], props=["Returns"], timeout=3000))
    c.replay(c.gen(jobs), mode="rot" if q else "all", timeout=300 if q else 3000)
    return c.finish(rule="operation x size around and beyond the share of a worker x layout x number of workers x order in which they finish, sampled; then the same concurrently")
