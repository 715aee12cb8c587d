INVS = ["OnceEach", "InOrder", "InitOnce", "NotBefore"]


def run(c):
    c.build()
    q = c.quick

    def job(depth, small, sim=None, seed=0):
        j = dict(module="MCServer", consts={"Depth": str(depth), "Small": "TRUE" if small else "FALSE", "Sim": "TRUE" if sim else "FALSE"}, invs=INVS, timeout=3000,
                 name=f"MCServer_{depth}_{small}_{seed}", workers=3)
        if sim:
            j.update(sim=(sim, depth + 2), seed=c.seed * 100 + seed, workers=1)
        return j
    jobs = [job(2, False), job(3, True)] + [job(d, False, 250 if q else 6000, d) for d in (4, 8, 20)]
    if not q:
        jobs += [job(3, False), job(4, True)]
    c.replay(c.gen(jobs), cmd="server", timeout=300 if q else 3000)
    return c.finish(rule="message sequences of the plugin specification, sent to a server of the SDK in a process of its own: exactly the answers the specification owes, in order")
