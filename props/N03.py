MODES = (("linear", 200), ("conv", 500), ("pool", 400), ("act", 250), ("norm", 350), ("bn", 300), ("embed", 200), ("rnn", 250), ("att", 400), ("rnd", 60))


def run(c):
    c.build()
    q = c.quick
    s0 = c.seed % 1000
    st = "{%s}" % ",".join(str(s0 + i) for i in range(3 if q else 12))
    jobs = [dict(module="MCModule", spec="MSpec", name=m, consts={"Mode": f'"{m}"', "Streams": st, "Shapes": "<- ShapesQuick", "SYM": "TRUE"},
                 invs=["MDone"], sim=(n if q else 10 * n, 3), timeout=3000) for m, n in MODES]
    c.replay(c.gen(jobs), cmd="nn", timeout=300 if q else 2000)
    return c.finish(rule="distinct modules whose results, running state and gradients were compared with their definition and its derivative")
