"""Build seeded/<id>/ from tools/bugs/defs/<id>.py (P, NEEDS, BREAKS, EDITS=[(file, old, new)], DEMO).
usage: mk.py <id>...   verify in /repo (applied and reverted): tests, demo with and without."""
import importlib.util, json, os, pathlib, shutil, subprocess, sys
V = pathlib.Path("/verif"); R = "/repo"
PY = "/opt/venv/bin/python"

def sh(cmd, **k):
    return subprocess.run(cmd, shell=True, capture_output=True, text=True, **k)

def main(ids, tests=True):
    assert not sh(f"git -C {R} status --porcelain").stdout.strip()
    for i in ids:
        spec = importlib.util.spec_from_file_location(i, V / "tools/bugs/defs" / f"{i}.py"); m = importlib.util.module_from_spec(spec); spec.loader.exec_module(m)
        d = V / "seeded" / i
        d.mkdir(parents=True, exist_ok=True)
        (d / "demo.py").write_text("import os, sys\nsys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))\nfrom kit import *\n" + m.DEMO.lstrip("\n"))
        shutil.copy(V / "tools/bugs/kit.py", d / "kit.py")
        (d / "demo.sh").write_text('#!/bin/bash\nexport PYTHONDONTWRITEBYTECODE=1 OMP_NUM_THREADS=1\nexec /opt/venv/bin/python -X utf8 "$(dirname "$0")/demo.py"\n')
        (d / "meta.json").write_text(json.dumps({"property": m.P, "needs": m.NEEDS, "what_it_breaks": m.BREAKS}, indent=1) + "\n")
        clean = sh(f"bash {d}/demo.sh", cwd=R)
        try:
            for f, old, new in m.EDITS:
                p = pathlib.Path(R) / f; s = p.read_text()
                assert s.count(old) == 1, (i, f, s.count(old), old)
                p.write_text(s.replace(old, new))
            (d / "patch.diff").write_text(sh(f"git -C {R} diff").stdout)
            # every removed line must be an original one
            removed = [l[1:].strip() for l in (d / "patch.diff").read_text().splitlines() if l.startswith("-") and not l.startswith("---") and len(l.strip()) > 3]
            orig = "\n".join(sh(f"git -C {R} show f7f6c70:{f}").stdout for f, _, _ in m.EDITS)
            notorig = [l for l in removed if l and l not in orig]
            bug = sh(f"bash {d}/demo.sh", cwd=R)
            t = sh("bash /opt/vp/test.sh /tmp/mk.json | tail -1").stdout.strip() if tests else "untested"
        finally:
            sh(f"git -C {R} checkout -- .")
        ok = clean.returncode == 0 and bug.returncode != 0 and "PROPERTY BROKEN" in bug.stdout and (not tests or t.startswith("256 passed"))
        print(("OK  " if ok else "BAD ") + i, m.P, "clean", clean.returncode, "bug", bug.returncode, t, "NOT ORIGINAL LINES" if notorig else "", flush=True)
        if not ok:
            print(clean.stdout[-300:], clean.stderr[-800:], bug.stdout[-300:], bug.stderr[-800:])

main([a for a in sys.argv[1:] if not a.startswith("-")], "-n" not in sys.argv)
