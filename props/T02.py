GROUPS = ['{"add","sub","mul","div","rem","pow"}', '{"maximum","minimum","logical_and","logical_or","logical_xor","eq"}',
          '{"ne","lt","le","gt","ge"}', '{"bitwise_and","bitwise_or","bitwise_xor","shl","shr"}']


def run(c):
    c.build()
    q = c.quick
    inv = ["Shaped", "Commutes"]
    pairs = "<- PairsQuick" if q else "<- PairsMore"
    st = "{%d, %d}" % (c.seed % 1000, c.seed % 1000 + 1) if q else "{%s}" % ",".join(str(c.seed % 1000 + i) for i in range(6))
    jobs = [dict(module="MCElem", consts={"Pairs": pairs, "Ops": g, "Streams": st, "Mode": '"bin"'}, invs=inv, timeout=3000) for g in GROUPS]
    jobs += [dict(module="MCElem", consts={"Pairs": pairs, "Ops": "<- OpsAll", "Streams": st, "Mode": f'"{m}"'}, invs=inv, timeout=3000) for m in ("un", "sel", "bad")]
    c.replay(c.gen(jobs), mode="rot" if q else "all", timeout=200 if q else 2000)
    return c.finish(rule="every elementwise operation x every shape pair x every layout of each operand, one case each; distinct cases only")
