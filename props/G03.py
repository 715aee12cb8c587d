def run(c):
    c.build()
    q = c.quick
    inv = ["AllWell", "Alone"]
    pr = ["Kept", "NoGradUnasked"]
    C = lambda **k: {**{"H": "4", "Lim": "1000000", "Threads": "1", "Depth": "30", "Mode": '"any"', "P": "2", "Focus": '"any"'}, **k}
    jobs = []
    for i in range(5):
        jobs.append(dict(module="MCLife", consts=C(Threads=str((2, 3, 4, 2, 8)[i]), Depth=str((24, 36, 50, 60, 120)[i])), invs=inv, props=pr,
                         sim=((500, 400, 250, 150, 80)[i] * (1 if q else 25), 400), seed=c.seed * 10 + i, timeout=3000))
    c.replay(c.gen(jobs), cmd="life", mode="values", timeout=60 if q else 1500)
    return c.finish(rule="random interleaved histories of two to eight threads, replayed event by event under the schedule of the specification and again free-running: value, gradient and flag of every handle of every thread after each event")
