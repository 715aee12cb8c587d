from props.fmt import job


def run(c):
    c.build()
    q = c.quick
    jobs = [job(c, "view", 1, dts="{0,1,2,3,4,5,6,7}"), job(c, "view", 1, dts="{8,9,10,11,12,13,14}"), job(c, "names", 0)]
    jobs += [job(c, "view", 1 + i % 3, sim=1500 if q else 40000, seed=i) for i in range(4 if q else 12)]
    c.replay(c.gen(jobs), cmd="format", timeout=300 if q else 3000)
    return c.finish(rule="every type with its extreme, non-finite and mixed bit patterns, every view of the tensor specification applied to small shapes; bytes, binary file, text file, collections, read back")
