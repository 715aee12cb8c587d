def run(c):
    c.build()
    q = c.quick
    C = lambda **k: {**{"H": "4", "NB": "3", "Threads": "1", "Depth": "14", "Mode": '"shared"'}, **k}
    inv, pr = ["Sound"], ["Separate"]
    jobs = [dict(module="MCCapture", consts=C(H="3", NB="2", Depth="7" if q else "8", Mode='"all"'), invs=inv, props=pr, workers=2 if q else 6, name="all1", timeout=3000),
            dict(module="MCCapture", consts=C(H="3", NB="2", Threads="2", Depth="6" if q else "7", Mode='"all"'), invs=inv, props=pr, workers=2 if q else 6, name="all2", timeout=3000)]
    for i in range(9):
        t = 1 + i % 3
        own = i >= 6 and t > 1
        jobs.append(dict(module="MCCapture", consts=C(H=str(8 if own else 5), NB=str(6 if own else 3), Threads=str(t), Depth=str((16, 26, 40)[i // 3 % 3]), Mode='"own"' if own else '"shared"'),
                         invs=inv, props=pr, sim=((1500 if q else 30000), 300), seed=c.seed * 10 + i, timeout=3000, name=f"sim{i}"))
    c.replay(c.gen(jobs), cmd="capture", timeout=100 if q else 1500)
    return c.finish(rule="every short history of two boards on one and two threads, random long histories with shared and with separate boards, under the history's schedule and free running")
