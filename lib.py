"""Shared driver: TLC runs, harness build, parallel replay, known findings, evidence."""
import concurrent.futures as cf
import fcntl, glob, hashlib, json, os, re, shutil, signal, subprocess, sys, time

ROOT = os.path.dirname(os.path.abspath(__file__))
SPEC = os.path.join(ROOT, "spec")
TLCJAR = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
HV = os.path.join(ROOT, "target/debug/hv")


class ToolError(Exception):
    pass


def env():
    e = dict(os.environ)
    e.update(HOME=e.get("HOME", "/root"), LANG="C.UTF-8", LC_ALL="C.UTF-8", RUSTUP_TOOLCHAIN="stable-x86_64-unknown-linux-gnu",
             CARGO_NET_OFFLINE="true", CARGO_TERM_COLOR="never", RUSTC_WRAPPER="", CARGO_TARGET_DIR=ROOT + "/target",
             HODU_DISABLE_NATIVE="1", CC="ccache cc", CCACHE_DIR=ROOT + "/.ccache", CCACHE_COMPILERCHECK="content",
             OPENBLAS_NUM_THREADS="1")
    e["PATH"] = "/root/.cargo/bin:" + e.get("PATH", "/usr/bin:/bin")
    return e


class Ctx:
    def __init__(self, prop):
        self.prop = prop
        self.tier = os.environ.get("VERIF_TIER", "quick")
        self.seed = int(os.environ.get("VERIF_SEED", "1") or 1)
        self.quick = self.tier != "thorough"
        self.t0 = time.time()
        self.work = os.path.join(ROOT, "work", prop)
        shutil.rmtree(self.work, ignore_errors=True)
        os.makedirs(self.work)
        self.states = self.transitions = 0      # TLC
        self.validated = 0                      # behaviours replayed / traces validated
        self.samples = []
        self.extra = {}
        self.failures = []                      # dicts with op, kind, ... and 'replay' content
        self.tlc_runs = []

    # ---------------------------------------------------------------- build
    def build(self, bins=("hv",)):
        with open(ROOT + "/.build.lock", "w") as lk:
            fcntl.flock(lk, fcntl.LOCK_EX)
            cmd = ["cargo", "build", "--offline", "--quiet"]
            for b in bins:
                cmd += ["--bin", b]
            p = subprocess.run(cmd, cwd=ROOT + "/harness", env=env(), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=800)
            if p.returncode:
                raise ToolError("harness build failed:\n" + p.stdout[-4000:])

    # ---------------------------------------------------------------- TLC
    def tlc(self, module, consts, out=None, invs=(), sim=None, workers=1, seed=None, name=None, timeout=600, props=(),
            env_extra=None, heap="3g", constraint=None, post=None, view=None, spec="Spec", deadlock=False):
        """consts: {'A': '3', 'B': '<- X'}; sim=(num, depth). Returns dict."""
        name = name or module + (f"_s{seed}" if seed is not None else "")
        d = os.path.join(self.work, "tlc_" + name)
        os.makedirs(d, exist_ok=True)
        cfg = f"SPECIFICATION {spec}\n"
        for i in invs:
            cfg += f"INVARIANT {i}\n"
        for i in props:
            cfg += f"PROPERTY {i}\n"
        if constraint:
            cfg += f"CONSTRAINT {constraint}\n"
        if post:
            cfg += f"POSTCONDITION {post}\n"
        if view:
            cfg += f"VIEW {view}\n"
        if consts:
            cfg += "CONSTANTS\n" + "".join(f"  {k} {v}\n" if v.startswith("<-") else f"  {k} = {v}\n" for k, v in consts.items())
        if not deadlock:
            cfg += "CHECK_DEADLOCK FALSE\n"
        open(d + "/m.cfg", "w").write(cfg)
        e = env()
        if out:
            e["OUT"] = out
        e.update(env_extra or {})
        cmd = ["java", "-Xmx" + heap, "-Xss16m", "-XX:+UseSerialGC" if workers == 1 else "-XX:+UseParallelGC", "-XX:TieredStopAtLevel=4",
               "-Dutil.ExecutionStatisticsCollector.disabled=true", "-cp", TLCJAR, "tlc2.TLC", "-workers", str(workers),
               "-config", d + "/m.cfg", "-metadir", d + "/states", "-noGenerateSpecTE", "-fp", "7"]
        if sim:
            cmd += ["-simulate", f"num={sim[0]}", "-depth", str(sim[1]), "-seed", str(seed if seed is not None else self.seed)]
        cmd += [os.path.join(SPEC, module + ".tla")]
        t = time.time()
        try:
            p = subprocess.run(cmd, env=e, cwd=d, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout)
        except subprocess.TimeoutExpired:
            raise ToolError(f"TLC timeout on {name}")
        shutil.rmtree(d + "/states", ignore_errors=True)
        log = p.stdout
        open(d + "/log.txt", "w").write(log)
        r = {"name": name, "rc": p.returncode, "log": log, "secs": round(time.time() - t, 1), "states": 0, "distinct": 0}
        m = re.findall(r"(\d+) states generated, (\d+) distinct", log)
        if m:
            r["states"], r["distinct"] = int(m[-1][0]), int(m[-1][1])
        m = re.findall(r"(\d+) states checked, (\d+) traces", log)
        if m:
            r["states"] = r["distinct"] = int(m[-1][0])
            r["traces"] = int(m[-1][1])
        r["ok"] = p.returncode == 0 and "Error:" not in log
        self.states += r["distinct"]
        self.transitions += r["states"]
        self.tlc_runs.append({k: r[k] for k in ("name", "states", "distinct", "secs")})
        return r

    def tlc_ok(self, *a, **k):
        r = self.tlc(*a, **k)
        if not r["ok"]:
            i = r["log"].find("Error:")
            raise ToolError(f"TLC failed on {r['name']} (rc {r['rc']}):\n" + r["log"][max(0, i - 200):i + 3000])
        return r

    def parallel(self, jobs, n=8):
        """jobs: list of zero-argument callables"""
        with cf.ThreadPoolExecutor(n) as ex:
            return [f.result() for f in [ex.submit(j) for j in jobs]]

    def gen(self, jobs, n=7):
        """jobs: list of dicts for tlc_ok plus 'out' produced automatically. Returns list of case files."""
        outs = []
        calls = []
        for i, j in enumerate(jobs):
            j = dict(j)
            self.ngen = getattr(self, "ngen", -1) + 1
            out = os.path.join(self.work, f"cases_{self.ngen}.ndjson")
            outs.append(out)
            j["out"] = out
            j.setdefault("name", f"{j['module']}_{self.ngen}")
            calls.append(lambda j=j: self.tlc_ok(**j))
        self.parallel(calls, n)
        return [o for o in outs if os.path.exists(o)]

    # ---------------------------------------------------------------- harness
    def hv(self, args, timeout=300, stdin=None, extra_env=None, cwd=None):
        e = env()
        e.update(extra_env or {})
        try:
            p = subprocess.run([HV] + [str(a) for a in args], env=e, cwd=cwd or self.work, input=stdin, stdout=subprocess.PIPE,
                               stderr=subprocess.PIPE, text=True, timeout=timeout, errors="replace")
        except subprocess.TimeoutExpired:
            return None
        return p

    def replay(self, files, cmd="replay", mode="rot", n=8, timeout=120, tail=()):
        """Replays case files (ndjson) on the real code, in parallel chunks."""
        lines = []
        for f in files:
            with open(f) as h:
                lines += [l for l in h.read().split("\n") if l]
        lines = sorted(set(lines))          # independent of TLC worker order
        if not lines:
            raise ToolError("no cases generated")
        n = min(n, max(1, len(lines) // 20))
        parts = [lines[i::n] for i in range(n)]
        tot = {"cases": 0, "runs": 0, "skipped": 0, "per_dtype": {}}

        def one(i):
            src = os.path.join(self.work, f"part_{cmd}_{i}.ndjson")
            open(src, "w").write("\n".join(parts[i]) + "\n")
            out, prog = src + ".out", src + ".prog"
            start, fails, stats, crashes = 0, [], [], 0
            while True:
                p = self.hv([cmd, src, out, prog, mode, start] + list(tail), timeout=timeout)
                if p is not None and p.returncode == 0:
                    stats.append(json.loads(p.stdout.strip().split("\n")[-1]))
                    break
                if p is not None and p.returncode == 2:
                    raise ToolError("harness: " + p.stderr[-3000:])
                # crash or hang inside the code under test
                at = int(open(prog).read().strip() or 0) if os.path.exists(prog) else 0
                kind = "hang" if p is None else f"crash({-p.returncode if p.returncode < 0 else p.returncode})"
                case = parse(parts[i][at])
                fails.append({"case": at, "op": case["steps"][-1]["op"] if case.get("steps") else "?", "kind": kind, "dt": "?", "step": 0,
                              "exp": None, "got": (p.stderr[-400:] if p else "no answer")})
                crashes += 1
                start = at + 1
                if crashes >= 4 or start >= len(parts[i]):
                    break
            if os.path.exists(out):
                fails += [json.loads(l) for l in open(out) if l.strip()]
            for f in fails:
                f["program"] = parse(parts[i][f["case"]])
            return fails, stats

        for fails, stats in self.parallel([lambda i=i: one(i) for i in range(n)], n):
            self.failures += fails
            for s in stats:
                for k in ("cases", "runs", "skipped"):
                    tot[k] += s.get(k, 0)
                for k, v in s.get("per_dtype", {}).items():
                    tot["per_dtype"][k] = tot["per_dtype"].get(k, 0) + v
        self.validated += tot["runs"]
        for k in range(0, len(lines), max(1, len(lines) // 3)):
            if len(self.samples) < 6:
                self.samples.append(parse(lines[k]))
        self.extra.setdefault("replays", []).append({"cmd": cmd, "distinct_cases": len(lines), **tot})
        return tot

    def record(self, files, cmd, tag="", n=8, timeout=300, tail=()):
        """Runs the histories of the case files on the real code; returns what it recorded (list of dicts)."""
        lines = []
        for f in files:
            with open(f) as h:
                lines += [l for l in h.read().split("\n") if l]
        lines = sorted(set(lines))
        if not lines:
            raise ToolError("no cases generated")
        n = min(n, max(1, len(lines) // 20))
        def one(i):
            src = os.path.join(self.work, f"part_{cmd}{tag}_{i}.in")
            open(src, "w").write("\n".join(lines[i::n]) + "\n")
            p = self.hv([cmd, src, src + ".rec"] + list(tail), timeout=timeout)
            if p is None or p.returncode == 2:
                raise ToolError("harness: " + (p.stderr[-3000:] if p else "timeout"))
            if p.returncode:
                self.fail(cmd, f"crash({p.returncode})", got=p.stderr[-400:])
                return []
            return [json.loads(l) for l in open(src + ".rec") if l.strip()]
        recs = sum(self.parallel([lambda i=i: one(i) for i in range(n)], n), [])
        self.extra.setdefault("recordings", []).append({"cmd": cmd + tag, "histories": len(lines)})
        return recs

    def accept(self, module, recs, consts=None, name=None, last=None, op=None, timeout=600, workers=4, heap="4g", cap=4000):
        """Trace validation: `recs` (dicts, field ev unless `last`) are checked by the trace specification `module`, which
        writes "t i" for every event it accepts (i = position after it). A record is accepted when i reaches its end."""
        def part(k, rs, every="0"):
            src, out = os.path.join(self.work, f"part_{module}_{name}_{k}_{every}.tr"), os.path.join(self.work, f"part_{module}_{name}_{k}_{every}.ok")
            open(src, "w").write("".join(json.dumps(r) + "\n" for r in rs))
            r = self.tlc_ok(module, consts or {}, out=out, env_extra={"TRACES": src, "ALL": every}, name=f"{module}_{name}_{k}_{every}", timeout=timeout, workers=1, heap=heap)
            best = {}
            if os.path.exists(out):
                for l in open(out):
                    a = l.strip().strip('"').split()
                    if len(a) == 2:
                        best[int(a[0])] = max(best.get(int(a[0]), 1), int(a[1]))
            bad = []
            if every == "0" and last is None:
                rest = [x for n, x in enumerate(rs, 1) if best.get(n, 1) != len(x["ev"]) + 1]
                if rest:                    # once more, noting every event accepted
                    found = part(k, rest[:20], "1")
                    return found + [(x, 0, "?") for x in rest[20:]]
                return []
            for n, x in enumerate(rs, 1):
                end = (len(x["ev"]) if last is None else last) + 1
                if best.get(n, 1) != end:
                    i = best.get(n, 1)
                    bad.append((x, i, x["ev"][i - 1] if last is None else x))
            return bad
        n = max(1, -(-len(recs) // cap))
        n = max(n, min(workers, -(-len(recs) // 200)))
        bad = sum(self.parallel([lambda k=k: part(k, recs[k::n]) for k in range(n)], workers), [])
        for x, i, e in bad:
            self.fail(op or name or module, "not a behaviour of the specification", exp=f"event {i} allowed", got=e, step=i, program=x)
        self.validated += len(recs)
        if recs and len(self.samples) < 6:
            self.samples.append(recs[len(recs) // 2])
        self.extra.setdefault("trace_validation", []).append({"spec": module, "traces": len(recs), "rejected": len(bad)})
        return bad

    # ---------------------------------------------------------------- verdict
    def fail(self, op, kind, exp=None, got=None, **more):
        self.failures.append({"op": op, "kind": kind, "exp": exp, "got": got, **more})

    def finish(self, level="model_checking", rule=""):
        known = [k for k in json.load(open(ROOT + "/known_findings.json"))["findings"] if k["property"] == self.prop]
        hit, new = {}, []
        for f in self.failures:
            for k in known:
                if matches(k["match"], f):
                    hit.setdefault(k["id"], k)
                    break
            else:
                new.append(f)
        for k in hit.values():
            print(f"KNOWN-FINDING: property={self.prop} {k['id']}: {k['what']}")
        groups = {}
        for f in new:
            groups.setdefault((f.get("op"), f.get("kind")), []).append(f)
        vd = os.path.join(self.work, "violations")
        for n, (g, fs) in enumerate(sorted(groups.items(), key=lambda x: -len(x[1]))):
            if n >= 12:
                break
            os.makedirs(vd, exist_ok=True)
            path = os.path.join(vd, f"{n}.json")
            json.dump({"property": self.prop, "seed": self.seed, "tier": self.tier, "count": len(fs), "failures": fs[:5]}, open(path, "w"), indent=1)
            f = fs[0]
            print(f"VIOLATION property={self.prop} replay={path}")
            print(f"  {len(fs)} x op={g[0]} kind={g[1]} dt={f.get('dt')} expected {json.dumps(f.get('exp'))[:300]} got {json.dumps(f.get('got'))[:300]}")
        cov = {"states": self.states, "transitions": self.transitions, "traces_validated_against_impl": self.validated,
               "samples": self.samples[:6] or ["none"], "rule": rule, "tlc": self.tlc_runs, "failures": len(self.failures),
               "known_findings_hit": sorted(hit), **self.extra}
        ev = {"property": self.prop, "tier": self.tier if self.tier in ("quick", "thorough") else "quick", "seed": self.seed, "level": level,
              "coverage": cov, "wall_s": round(time.time() - self.t0, 2)}
        os.makedirs(ROOT + "/evidence", exist_ok=True)
        json.dump(ev, open(f"{ROOT}/evidence/{self.prop}.json", "w"), indent=1)
        print(f"{self.prop}: {'VIOLATED' if new else 'held'}; states={self.states} behaviours={self.validated} "
              f"known={len(hit)} wall={ev['wall_s']}s")
        for f in glob.glob(self.work + "/part_*") + glob.glob(self.work + "/cases_*"):
            if not new:
                os.remove(f)
        return 1 if new else 0


def parse(line):
    v = json.loads(line)
    return json.loads(v) if isinstance(v, str) else v


def matches(m, f):
    for k in ("op", "kind", "dt"):
        if k in m and f.get(k) not in (m[k] if isinstance(m[k], list) else [m[k]]):
            return False
    if "expr" in m:
        try:
            prog = f.get("program") or {}
            st = prog.get("steps", [])
            k = f.get("step", 0)
            step = st[k - 1] if k and k <= len(st) else {}
            return bool(eval(m["expr"], {"f": f, "prog": prog, "step": step, "p": step.get("p", {}), "any": any, "all": all, "len": len}))
        except Exception:
            return False
    return True
