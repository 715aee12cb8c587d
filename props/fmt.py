"""jobs over spec/MCFormat (F01, F02, F03)"""
ALL = "{%s}" % ",".join(map(str, range(15)))


def job(c, mode, edits=1, dts=ALL, sim=None, seed=0):
    j = dict(module="MCFormat", consts={"Mode": f'"{mode}"', "Dts": dts, "Edits": str(edits), "Depth": "1", "Sim": "TRUE" if sim else "FALSE"},
             invs=["ReadsBack", "Consistent", "Cuts"], timeout=3000, name=f"MCFormat_{mode}_{edits}_{seed}_{len(dts)}", workers=3)
    if sim:
        j.update(sim=(sim, edits + 3), seed=c.seed * 100 + seed, workers=1)
    return j
