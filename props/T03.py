def run(c):
    c.build()
    q = c.quick
    s0 = c.seed % 1000
    st = "{%s}" % ",".join(str(s0 + i) for i in range(4 if q else 12))
    jobs = [dict(module="MCMath", consts={"Shapes": "<- ShapesQuick" if q else "<- ShapesMore", "Mode": f'"{m}"', "Streams": st}, invs=["Shaped"], timeout=3000)
            for m in ("un", "unsp", "bin", "binsp", "sc", "scsp")]
    c.replay(c.gen(jobs), mode="rot" if q else "all", timeout=200 if q else 2000)
    return c.finish(rule="every function x every shape x every layout x data stream; finite points and IEEE special points; distinct cases only")
