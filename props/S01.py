INV = {"MCViews": ["LayoutDenotes", "Sized"], "MCElem": ["Shaped", "Commutes"], "MCMath": ["Shaped"], "MCReduce": ["Shaped", "Assoc", "CumLast"],
       "MCIndex": ["Shaped", "Restores", "PutGet", "UniqueInv", "HotOne"], "MCAlgebra": ["Shaped", "Adjoint", "AdjointW", "MatEin"]}


def jobs(c):
    q = c.quick
    s0 = c.seed % 1000 + 500
    st = "{%s}" % ",".join(str(s0 + i) for i in range(1 if q else 6))
    sh = "<- ShapesQuick" if q else "<- ShapesMore"
    out = []

    def job(module, **consts):
        out.append(dict(module=module, consts=consts, invs=INV[module], timeout=3000, name=f"{module}_{len(out)}"))
    job("MCViews", Shapes="<- ShapesQuick" if q else "<- ShapesSmall", Depth="2", Sim="FALSE")
    for m in ("bin", "un", "sel"):
        job("MCElem", Pairs="<- PairsQuick" if q else "<- PairsMore", Ops="<- OpsAll", Streams=st, Mode=f'"{m}"')
    for m in ("un", "sc"):
        job("MCMath", Shapes=sh, Mode=f'"{m}"', Streams=st)
    for m, n in (("int", "FALSE"), ("real", "FALSE"), ("along", "FALSE"), ("topk", "FALSE")):
        job("MCReduce", Shapes=sh, Mode=f'"{m}"', Streams=st, Nats=n)
    for m in ("sel", "find", "join", "pad"):
        job("MCIndex", Shapes=sh, Mode=f'"{m}"', Streams=st)
    for m in ("mm", "ein", "conv", "rz", "la"):
        job("MCAlgebra", Mode=f'"{m}"', Streams=st, SYM="FALSE", Deep="FALSE" if q else "TRUE")
    for i in range(3 if q else 12):
        out.append(dict(module="MCViews", consts={"Shapes": "<- ShapesMany", "Depth": "5" if i % 2 else "3", "Sim": "TRUE"}, invs=INV["MCViews"],
                        sim=(800 if q else 20000, 8), seed=c.seed * 100 + 50 + i, name=f"MCViews_sim{i}", timeout=3000))
    return out


def run(c):
    c.build()
    c.replay(c.gen(jobs(c)), mode="capture", timeout=300 if c.quick else 3000)
    return c.finish(rule="programs of the tensor specification run under capture, leaves as inputs or constants, different sets of targets; the snapshot, in memory or read back from its file form, is evaluated on the inputs")
