"""mk(id, prop, edits, demo, needs, breaks): write a planted bug to seeded/<id>/ (demo: body of fn main or a full bash script)."""
import json, os, subprocess
REPO = os.environ.get("BUG_REPO", "/repo")
S = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "seeded")
SH = '''#!/bin/bash
# builds demo.rs against the libraries /opt/vp/build.sh left in target, and runs it
here=$(cd "$(dirname "$0")" && pwd)
D=$(mktemp -d); trap 'rm -rf "$D"' EXIT
export PATH=/root/.cargo/bin:$PATH RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu OPENBLAS_NUM_THREADS=1
deps=$PWD/target/debug/deps
x=()
for c in hodu_core hodu_nn hodu_datasets hodu_plugin hodu_plugin_runtime hodu_plugin_sdk hodu_cli tokio; do
  l=$(ls -t $deps/lib$c-*.rlib 2>/dev/null | head -1)
  [ -n "$l" ] && grep -q "\\b$c::" "$here/demo.rs" && x+=(--extern "$c=$l")
done
for j in $deps/libserde_json-*.rlib; do
  rustc --edition 2021 -A warnings "$here/demo.rs" "${x[@]}" --extern serde_json=$j -L dependency=$deps -o "$D/demo" && break
done
[ -x "$D/demo" ] || exit 3
cd "$D" && timeout 120 ./demo
'''
def mk(id, prop, edits, demo, needs, breaks, pre="use hodu_core::tensor::*;\n", sh=None, files={}):
    assert not subprocess.run(["git", "-C", REPO, "status", "--porcelain"], capture_output=True, text=True).stdout.strip()
    d = f"{S}/{id}"
    os.makedirs(d, exist_ok=True)
    try:
        for f, a, b in edits:
            p = REPO + "/" + f
            s = open(p).read()
            at = 0
            if isinstance(a, tuple): # the first occurrence after an anchor
                assert s.count(a[0]) == 1, (f, a, s.count(a[0]))
                at, a = s.index(a[0]), a[1]
                assert a in s[at:], (f, a)
            else:
                assert s.count(a) == 1, (f, a, s.count(a))
            open(p, "w").write(s[:at] + s[at:].replace(a, b, 1))
        diff = subprocess.run(["git", "-C", REPO, "diff"], capture_output=True, text=True).stdout
        open(d + "/patch.diff", "w").write(diff)
    finally:
        subprocess.run(["git", "-C", REPO, "checkout", "-q", "--", "."])
    open(d + "/demo.sh", "w").write(sh or SH)
    os.chmod(d + "/demo.sh", 0o755)
    if not sh:
        open(d + "/demo.rs", "w").write(demo if "fn main" in demo else pre + "fn main() {\n" + demo + "\n}\n")
    for n, c in files.items():
        open(f"{d}/{n}", "w").write(c)
    json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, open(d + "/meta.json", "w"), indent=1)
