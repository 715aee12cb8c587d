def run(c):
    c.build()
    q = c.quick
    s0 = c.seed % 1000
    sh = "<- ShapesQuick" if q else "<- ShapesMore"
    def st(n): return "{%s}" % ",".join(str(s0 + i) for i in range(n if q else n + 5))
    jobs = []
    for m, n in (("sel", 2), ("find", 3), ("join", 2), ("pad", 2)):
        jobs.append(dict(module="MCIndex", consts={"Shapes": sh, "Mode": f'"{m}"', "Streams": st(n)},
                         invs=["Shaped", "Restores", "PutGet", "UniqueInv", "HotOne"], timeout=3000))
    c.replay(c.gen(jobs), mode="rot" if q else "all", timeout=200 if q else 2000)
    return c.finish(rule="every indexing/joining/cutting/padding/window operation x shape x axis x layout x data stream; distinct cases only")
