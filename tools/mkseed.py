"""Create a planted bug under /verif/seeded/<id>: seed(id, prop, edits, demo, needs, what, files).

The bug is confirmed in a scratch copy of the repository: the demonstration passes without and fails
with it, and the stable tests pass with it (run with the garbage collection of every sample stubbed).
"""

import json
import os
import shutil
import subprocess
import tempfile

REPO = "/repo"
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = "/opt/venv/bin/python"
TESTS = ["tests/test_crudedataset.py", "tests/test_epathlib.py", "tests/test_transforms.py"]

FASTGC = "import gc\ngc.collect = lambda *a, **k: 0\ngc.get_objects = lambda *a, **k: []\n"


def seed(id, prop, edits, demo, needs, what, files=None, tests=True):
    tmp = tempfile.mkdtemp(prefix="seed_")
    try:
        cp = os.path.join(tmp, "repo")
        subprocess.run(["cp", "-a", REPO, cp], check=True)
        src = os.path.join(cp, "src/megatron/energon")
        dd = os.path.join(tmp, "demo")
        os.makedirs(dd)
        for name, text in {"demo.py": demo, **(files or {})}.items():
            open(os.path.join(dd, name), "w").write(text.lstrip("\n"))
        open(os.path.join(dd, "demo.sh"), "w").write(
            "#!/bin/bash\n"
            'export PYTHONDONTWRITEBYTECODE=1 OMP_NUM_THREADS=1\n'
            'PYTHONPATH="$PWD/src" exec timeout 250 /opt/venv/bin/python "$(dirname "$0")/demo.py"\n'
        )
        os.chmod(os.path.join(dd, "demo.sh"), 0o755)

        def run_demo():
            p = subprocess.run(["bash", os.path.join(dd, "demo.sh")], cwd=cp, capture_output=True, text=True)
            return p.returncode, (p.stdout + p.stderr)[-1500:]

        rc, out = run_demo()
        assert rc == 0, f"demo fails on the unchanged tree: {out}"
        for path, old, new in edits:
            f = os.path.join(src, path)
            s = open(f).read()
            assert s.count(old) == 1, (path, s.count(old), old)
            open(f, "w").write(s.replace(old, new))
        diff = subprocess.run(["git", "diff"], cwd=cp, capture_output=True, text=True, check=True).stdout
        rc, out = run_demo()
        assert rc != 0, "demo passes with the patch"
        print(id, "demo fails with:", out.strip().splitlines()[-1][:200] if out.strip() else "")
        # only original lines may be changed
        bl = blame_ok(diff)
        assert bl is None, bl
        if tests:
            pl = os.path.join(tmp, "plug")
            os.makedirs(pl)
            open(os.path.join(pl, "fastgc.py"), "w").write(FASTGC)
            env = dict(os.environ, PYTHONPATH=f"{cp}/src:{pl}", PYTHONDONTWRITEBYTECODE="1", OMP_NUM_THREADS="1")
            p = subprocess.run(
                [PY, "-m", "pytest", "-q", "-p", "fastgc", "-p", "no:cacheprovider", "--timeout=120", "--tb=short", *TESTS],
                cwd=cp, env=env, capture_output=True, text=True,
            )  # fmt: skip
            last = p.stdout.strip().splitlines()[-1] if p.stdout.strip() else p.stderr[-300:]
            assert "17 passed" in last or p.returncode == 0, last + p.stdout[-2000:]
        out_dir = os.path.join(VERIF, "seeded", id)
        shutil.rmtree(out_dir, ignore_errors=True)
        shutil.copytree(dd, out_dir)
        open(os.path.join(out_dir, "patch.diff"), "w").write(diff)
        json.dump(
            {"property": prop, "needs": needs, "what_it_breaks": what},
            open(os.path.join(out_dir, "meta.json"), "w"), indent=1,
        )  # fmt: skip
        print(id, "kept")
        return True
    except AssertionError as e:
        print(id, "NOT KEPT:", e)
        return False
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def blame_ok(diff):
    """All removed lines belong to the original commit."""
    f, line, base = None, 0, "868cd7d"
    import re

    for l in diff.splitlines():
        if l.startswith("--- a/"):
            f = l[6:]
            blame = subprocess.run(["git", "blame", "-s", "HEAD", "--", f], cwd=REPO, capture_output=True, text=True).stdout.splitlines()
        m = re.match(r"@@ -(\d+)", l)
        if m:
            line = int(m.group(1))
            continue
        if l.startswith("---") or l.startswith("+++"):
            continue
        if l.startswith("-"):
            b = blame[line - 1]
            if not (b.startswith("^") or b.startswith(base)):
                return f"{f}:{line} is not an original line: {b}"
        if l[:1] in ("-", " "):
            line += 1
    return None
