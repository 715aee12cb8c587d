INVS = ["Gets", "NeverOther", "AfterError"]


def run(c):
    c.build()
    q = c.quick

    def job(calls, lines, sim=None, seed=0):
        j = dict(module="MCClient", consts={"Calls": str(calls), "Lines": str(lines), "Sim": "TRUE" if sim else "FALSE"}, invs=INVS, timeout=3000,
                 name=f"MCClient_{calls}_{lines}_{seed}", workers=3)
        if sim:
            j.update(sim=(sim, calls * (lines + 2) + 2), seed=c.seed * 100 + seed, workers=1)
        return j
    jobs = [job(2, 2)] + [job(k, l, 200 if q else 5000, k) for k, l in ((2, 5), (3, 4), (5, 3))]
    if not q:
        jobs += [job(2, 3)]
    c.replay(c.gen(jobs), cmd="client", timeout=300 if q else 3000)
    return c.finish(rule="calls of the runtime's client against a plugin process that writes the lines of the plugin specification: outcome, result, notifications, requests and time of every call")
