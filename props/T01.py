def run(c):
    c.build()
    q = c.quick
    inv = ["LayoutDenotes", "Sized"]
    jobs = [dict(module="MCViews", consts={"Shapes": "<- ShapesSmall", "Depth": "1", "Sim": "FALSE"}, invs=inv, workers=2),
            dict(module="MCViews", consts={"Shapes": "<- ShapesQuick" if q else "<- ShapesSmall", "Depth": "2", "Sim": "FALSE"}, invs=inv, workers=3 if q else 6, timeout=3000)]
    for i in range(4 if q else 12):
        jobs.append(dict(module="MCViews", consts={"Shapes": "<- ShapesMany", "Depth": "5" if i % 2 else "3", "Sim": "TRUE"}, invs=inv,
                         sim=(1500 if q else 20000, 8), seed=c.seed * 100 + i, name=f"MCViews_sim{i}", timeout=3000))
    files = c.gen(jobs)
    c.replay(files, mode="rot" if q else "all", timeout=200 if q else 2000)
    return c.finish(rule="every valid parameter of every view operation on the small shapes to the stated depth, plus random chains; distinct behaviours only")
