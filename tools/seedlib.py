"""Helper to (re)generate a planted change: edits a scratch worktree and writes seeded/<id>/."""
import json, os, shutil, subprocess
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
def sh(c): return subprocess.run(c, shell=True, check=True, capture_output=True, text=True).stdout
def seed(id, prop, edits, needs, breaks, main, kit="demo"):
    wt = "/tmp/seedwt"
    if not os.path.exists(wt): sh(f"git -C /repo worktree add --detach {wt} HEAD")
    sh(f"git -C {wt} checkout -q --detach $(git -C /repo rev-parse HEAD) && git -C {wt} checkout -q -- .")
    for f, old, new in edits:
        p = os.path.join(wt, f); s = open(p).read()
        n = 1
        if isinstance(old, tuple): old, n = old   # (text, which occurrence of how many)
        cnt = s.count(old)
        if n == 1: assert cnt == 1, (id, f, cnt, old); s = s.replace(old, new)
        else:
            k, tot = n; assert cnt == tot, (id, cnt)
            i = -1
            for _ in range(k): i = s.index(old, i + 1)
            s = s[:i] + new + s[i + len(old):]
        open(p, "w").write(s)
    d = os.path.join(V, "seeded", id)
    shutil.rmtree(d, ignore_errors=True)
    shutil.copytree(os.path.join(V, "tools", kit), d)
    if kit == "demopool":   # the runtime and request builders of mcpool, without its checks
        m = os.path.join(V, "mcpool")
        for x in ["src", "shim", "p-simple", "p-admin", "p-owner"]: shutil.copytree(os.path.join(m, x), os.path.join(d, x))
        shutil.copy(os.path.join(m, "Cargo.lock"), d)
        main = "#![allow(dead_code)]\n" + "".join(f"mod {x};\n" for x in "codec custom explore mw owner pinit pool proxy pscen rt".split()) + main
    if kit == "democrank":  # the stand-in node of mccrank, without its checks
        os.makedirs(os.path.join(d, "src"))
        for x in ["node", "wire", "world"]: shutil.copy(os.path.join(V, "mccrank", "src", x + ".rs"), os.path.join(d, "src"))
        shutil.copy(os.path.join(V, "mccrank", "Cargo.lock"), d)
        main = "#![allow(dead_code)]\nmod node;\nmod wire;\nmod world;\nuse node::*;\nuse wire::*;\nuse world::*;\n" + main
    open(os.path.join(d, "patch.diff"), "w").write(sh(f"git -C {wt} diff"))
    open(os.path.join(d, "src", "main.rs"), "w").write(main)
    json.dump(dict(property=prop, needs=needs, what_it_breaks=breaks), open(os.path.join(d, "meta.json"), "w"), indent=1)
    sh(f"git -C {wt} checkout -q -- .")
