def run(c):
    c.build()
    q = c.quick
    inv = ["AtMostOnce", "WholeEpoch", "OneOrder", "Sizes"]
    base = {"Gen": "FALSE", "Two": "FALSE", "Sim": "FALSE", "Fails": "TRUE"}
    gen = {"Gen": "TRUE", "Two": "FALSE", "Sim": "FALSE", "Fails": "TRUE"}
    c.parallel([lambda: c.tlc_ok("MCLoader", {"Ns": "{0,1,2,3}" if q else "{0,1,2,3,4}", "Bss": "{1,2,3,4}", "Depth": "4" if q else "6", **base}, invs=inv, name="model", workers=3, timeout=3000)])
    files = c.gen([dict(module="MCLoader", consts={"Ns": "{0,1,2,3,5}" if q else "0..9", "Bss": "{1,2,3,6}" if q else "1..8", "Depth": "3" if q else "4", **gen}, workers=3, timeout=3000),
                   dict(module="MCLoader", consts={"Ns": "{0,1,3,5,6,8,12,13,20,23}", "Bss": "{1,2,3,4,5,6,7,12,13,40}", "Depth": "9", **{**gen, "Sim": "TRUE"}}, sim=(700 if q else 30000, 12), seed=c.seed, timeout=3000)])
    recs = c.record(files, "data")
    c.accept("LoaderTrace", recs, name="loader", workers=6)
    return c.finish(rule="every history of next/reset/iterate over every small configuration (size, batch, shuffle, drop, sample kind, failing samples), plus random longer ones; each recorded run checked against the Loader specification")
