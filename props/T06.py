def run(c):
    c.build()
    q = c.quick
    s0 = c.seed % 1000
    def st(n): return "{%s}" % ",".join(str(s0 + i) for i in range(n if q else n + 5))
    jobs = []
    for m, n in (("mm", 3), ("ein", 2), ("conv", 1), ("rz", 1), ("la", 2)):
        jobs.append(dict(module="MCAlgebra", consts={"Mode": f'"{m}"', "Streams": st(n), "SYM": "FALSE", "Deep": "FALSE" if q else "TRUE"},
                         invs=["Shaped", "Adjoint", "AdjointW", "MatEin"], timeout=3000))
    c.replay(c.gen(jobs), mode="rot" if q else "all", timeout=200 if q else 2000)
    return c.finish(rule="every matrix/einsum/convolution/resize/linear-algebra operation x shapes x hyper-parameters x layouts x data stream; distinct cases only")
