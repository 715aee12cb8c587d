def run(c):
    c.build()
    q = c.quick
    s0 = c.seed % 1000
    sh = "<- ShapesQuick" if q else "<- ShapesMore"
    def st(n): return "{%s}" % ",".join(str(s0 + i) for i in range(n if q else n + 6))
    jobs = []
    for m, n, nats in (("int", 1, "FALSE"), ("int", 1, "TRUE"), ("real", 3, "FALSE"), ("sp", 4, "FALSE"), ("along", 3, "FALSE"), ("topk", 2, "FALSE"), ("topk", 2, "TRUE")):
        jobs.append(dict(module="MCReduce", consts={"Shapes": sh, "Mode": f'"{m}"', "Streams": st(n), "Nats": nats},
                         invs=["Shaped", "Assoc", "CumLast"], timeout=3000))
    c.replay(c.gen(jobs), mode="rot" if q else "all", timeout=200 if q else 2000)
    return c.finish(rule="every reduction/scan/selection x shape x axis list x keep x layout x data stream; distinct cases only")
