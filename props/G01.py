def run(c):
    c.build()
    q = c.quick
    s0 = c.seed % 1000
    st = "{%s}" % ",".join(str(s0 + i) for i in range(2 if q else 6))
    sh = {"MCGradMath": "<- ShapesQuick", "MCGradReduce": "<- ShapesQuick", "MCGradIndex": "<- ShapesQuick"}
    jobs = []
    def job(mod, mode, n, **consts):
        if mod in sh:
            consts["Shapes"] = sh[mod]
        jobs.append(dict(module=mod, spec="GSpec", consts={"Mode": f'"{mode}"', "Streams": st, **consts}, sim=(n if q else 8 * n, 3),
                         timeout=3000))
    job("MCGradMath", "un", 500); job("MCGradMath", "bin", 250); job("MCGradMath", "sc", 300)
    job("MCGradReduce", "int", 500, Nats="FALSE"); job("MCGradReduce", "real", 700, Nats="FALSE")
    job("MCGradIndex", "sel", 500); job("MCGradIndex", "join", 400); job("MCGradIndex", "pad", 300); job("MCGradIndex", "win", 300)
    for m, n in (("mm", 200), ("ein", 250), ("conv", 250), ("rz", 200), ("la", 200)):
        job("MCGradAlgebra", m, n, Deep="FALSE", SYM="TRUE")
    c.replay(c.gen(jobs), cmd="grad", timeout=200 if q else 2000)
    return c.finish(rule="distinct programs whose gradients were compared with the derivative of the specified function")
