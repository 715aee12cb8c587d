def run(c):
    c.build()
    q = c.quick
    inv = ["AllWell", "Alone"]
    pr = ["Kept", "NoGradUnasked"]
    C = lambda **k: {**{"H": "4", "Lim": "1000000", "Threads": "1", "Depth": "30", "Mode": '"any"', "P": "2", "Focus": '"any"'}, **k}
    jobs = []
    jobs.append(dict(module="MCLife", consts=C(Depth="4" if q else "5", Mode='"all"'), invs=inv, props=pr, workers=1 if q else 4, timeout=3000))
    for i in range(6):
        jobs.append(dict(module="MCLife", consts=C(H=str(5 + i % 2), Depth=str((6, 10, 16, 24, 40, 30)[i]), Mode='"any"' if i == 5 else '"round"', Focus='"any"' if i > 3 else '"loop"'), invs=inv, props=pr,
                         sim=((700, 700, 500, 300, 200, 400)[i] * (1 if q else 30), 250), seed=c.seed * 10 + i, timeout=3000))
    c.replay(c.gen(jobs), cmd="life", mode="count", timeout=60 if q else 1500)
    return c.finish(rule="random bodies over persistent parameters repeated five times, and every short history followed by the release of all handles: number of live records at the end of every round and of the history")
