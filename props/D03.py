def run(c):
    c.build()
    files = c.gen([dict(module="MCDatasets", consts={"Deep": "FALSE" if c.quick else "TRUE"}, invs=["Laws"], workers=4, timeout=3000)])
    c.replay(files, cmd="dataset", timeout=300 if c.quick else 3000)
    return c.finish(rule="every composition of tensor data sets, subsets and concatenations from the listed leaves to depth 4, read at every index and two beyond, split at each listed fraction with three seeds")
