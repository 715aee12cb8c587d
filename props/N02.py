def run(c):
    c.build()
    q = c.quick
    s0 = c.seed % 1000
    st = "{%s}" % ",".join(str(s0 + i) for i in range(3 if q else 12))
    jobs = [dict(module="MCLoss", spec="LSpec", name=m, consts={"Mode": f'"{m}"', "Streams": st, "Shapes": "<- ShapesQuick"},
                 invs=["LShaped"], sim=(n if q else 10 * n, 3), timeout=3000) for m, n in (("plain", 900), ("class", 500), ("cos", 300))]
    c.replay(c.gen(jobs), cmd="nn", timeout=200 if q else 2000)
    return c.finish(rule="distinct loss evaluations whose value and gradients were compared with the formula and its derivative")
