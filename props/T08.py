def run(c):
    c.build()
    q = c.quick
    inv = ["AllWell", "Alone"]
    pr = ["Kept", "NoGradUnasked"]
    C = lambda **k: {**{"H": "4", "Lim": "1000000", "Threads": "1", "Depth": "30", "Mode": '"any"', "P": "2", "Focus": '"any"'}, **k}
    jobs = []
    jobs.append(dict(module="MCLife", consts=C(Depth="4" if q else "5", Mode='"all"'), invs=inv, props=pr, workers=1 if q else 4, timeout=3000))
    for i in range(5):
        jobs.append(dict(module="MCLife", consts=C(H=str(4 + i % 3), Depth=str((12, 20, 35, 60, 90)[i]), Focus='"keep"'), invs=inv, props=pr,
                         sim=((600, 500, 300, 200, 100)[i] * (1 if q else 30), 250), seed=c.seed * 10 + i, timeout=3000))
    c.replay(c.gen(jobs), cmd="life", mode="keep", timeout=60 if q else 1500)
    return c.finish(rule="every short and random long histories of operations, clones, drops, gradient handles, assignments, backward passes and optimizer steps; value, shape and dtype of every live handle after each event")
