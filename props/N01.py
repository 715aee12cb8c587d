def run(c):
    c.build()
    q = c.quick
    inv = ["Counted", "RateUsed"]
    jobs = []
    for k in ("sgd", "adam", "adamw", "rmsprop", "adagrad"):
        jobs.append(dict(module="MCOptim", consts={"Kinds": f'{{"{k}"}}', "Depth": "3" if q else "5", "Sim": "FALSE", "MaxP": "2"}, invs=inv, workers=1 if q else 4, timeout=3000))
    for i, k in enumerate(("sgd", "adam", "adamw", "rmsprop", "adagrad")):
        jobs.append(dict(module="MCOptim", consts={"Kinds": f'{{"{k}"}}', "Depth": "14", "Sim": "TRUE", "MaxP": "3"}, invs=inv,
                         sim=(250 if q else 20000, 17), seed=c.seed * 10 + i, timeout=3000))
    jobs.append(dict(module="MCOptim", consts={"Kinds": '{"adam","adamw","rmsprop","adagrad"}', "Depth": "36", "Sim": "TRUE", "MaxP": "2"}, invs=inv,
                     sim=(150 if q else 3000, 40), seed=c.seed * 10 + 7, timeout=3000))
    c.replay(c.gen(jobs), cmd="optim", timeout=200 if q else 2000)
    return c.finish(rule="every short history and random long histories of backward, zero-grad, step, failing step and learning-rate change, for every optimizer and hyper-parameter choice, on f32 and f64 parameters")
