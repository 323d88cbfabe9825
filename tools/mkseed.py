#!/usr/bin/env python3
"""make() writes /verif/seeded/ID from textual replacements in /repo's files (made on scratch copies) and a demonstration program."""
import sys, os, subprocess, json, tempfile, shutil
def make(id, prop, edits, needs, breaks, main):
    d = os.environ.get("SEEDDIR", "/verif/seeded") + "/" + id; os.makedirs(d, exist_ok=True)
    w = tempfile.mkdtemp(prefix="mkseed", dir="/tmp")
    out = ""
    for f in sorted({e[0] for e in edits}):
        src = open("/repo/" + f).read(); new = src
        for g, o, n in edits:
            if g == f:
                assert new.count(o) == 1, (id, f, new.count(o))
                new = new.replace(o, n)
        for side, text in (("a", src), ("b", new)):
            os.makedirs(os.path.dirname(f"{w}/{side}/{f}"), exist_ok=True)
            open(f"{w}/{side}/{f}", "w").write(text)
        subprocess.call(["gofmt", "-l", f"{w}/b/{f}"])
        out += f"diff --git a/{f} b/{f}\n" + subprocess.run(["diff", "-u", "--label", "a/" + f, "--label", "b/" + f, f"a/{f}", f"b/{f}"], cwd=w, capture_output=True, text=True).stdout
    open(d + "/patch.diff", "w").write(out)
    shutil.rmtree(w)
    open(d + "/main.go", "w").write(main.strip() + "\n")
    subprocess.call(["gofmt", "-w", d + "/main.go"])
    open(d + "/demo.sh", "w").write('''#!/bin/bash
# run with cwd /repo: runs main.go (beside this file) as a package of the module
here="$(cd "$(dirname "$0")" && pwd)"
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
t=$(mktemp -d); trap 'rm -rf "$t"' EXIT
echo "{\\"Replace\\":{\\"$PWD/zzdemo/main.go\\":\\"$here/main.go\\"}}" > "$t/o.json"
timeout 200 go run -overlay "$t/o.json" ./zzdemo
''')
    json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, open(d + "/meta.json", "w"), indent=1)
