def run(c):
    c.build()
    q = c.quick
    gen = {"Gen": "TRUE", "Two": "TRUE", "Fails": "FALSE"}
    files = c.gen([dict(module="MCLoader", consts={"Ns": "{0,1,2,5,12,13}", "Bss": "{1,2,3,5}", "Depth": "10", "Sim": "TRUE", **gen}, sim=(1200 if q else 40000, 13), seed=c.seed, timeout=3000),
                   dict(module="MCLoader", consts={"Ns": "{3,5}", "Bss": "{2,4}", "Depth": "3" if q else "5", "Sim": "FALSE", **gen}, workers=3, timeout=3000),
                   dict(module="MCLoader", consts={"Ns": "{20,25}", "Bss": "{25,4,30}", "Depth": "6", "Sim": "TRUE", **gen}, sim=(300 if q else 5000, 9), seed=c.seed + 1, timeout=3000)])
    c.parallel([lambda: c.tlc_ok("MCLoader", {"Ns": "{2,3}", "Bss": "{1,2,3}", "Depth": "3" if q else "4", **{**gen, "Gen": "FALSE", "Sim": "FALSE"}}, invs=["AtMostOnce", "WholeEpoch", "OneOrder", "Sizes"], name="model2", workers=4, timeout=3000)])
    recs = c.record(files, "data")
    c.accept("LoaderTrace", recs, name="two loaders", workers=6)
    sf = c.gen([dict(module="SamplerTrace", consts={"Generate": "TRUE", "MaxN": "9" if q else "16"})])
    srecs = c.record(sf, "data", tag="sampler")
    c.accept("SamplerTrace", srecs, consts={"Generate": "FALSE", "MaxN": "1"}, name="samplers", last=1)
    return c.finish(rule="two loaders with the same seed and different batch sizes and histories must follow one order per epoch; every sampler case recorded twice")
