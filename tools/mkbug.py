"""Write seeded/<id>/patch.diff from exact replacements in a scratch copy.
Usage (as a module): mkbug(id, prop, [(file, old, new)...], needs, breaks, demo_py)"""
import json, os, shutil, subprocess, tempfile

SEED = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "seeded")

DEMO_SH = '#!/bin/bash\nPYTHONPATH="$PWD" exec /opt/venv/bin/python -W ignore "$(dirname "$0")/demo.py"\n'


def mkbug(id, prop, edits, needs, breaks, demo):
    d = os.path.join(SEED, id)
    os.makedirs(d, exist_ok=True)
    t = tempfile.mkdtemp(prefix="mkbug_")
    w = os.path.join(t, "w")
    subprocess.check_call(["git", "-C", "/repo", "worktree", "add", "-q", "--detach", w, "HEAD"])
    try:
        for f, old, new in edits:
            p = os.path.join(w, f)
            s = open(p, newline="").read()
            if "\r\n" in s:
                old, new = old.replace("\n", "\r\n"), new.replace("\n", "\r\n")
            assert s.count(old) == 1, (id, f, s.count(old))
            open(p, "w", newline="").write(s.replace(old, new))
        diff = subprocess.check_output(["git", "-C", w, "diff"])
    finally:
        subprocess.call(["git", "-C", "/repo", "worktree", "remove", "--force", w])
        shutil.rmtree(t, ignore_errors=True)
    open(os.path.join(d, "patch.diff"), "wb").write(diff)
    open(os.path.join(d, "demo.sh"), "w").write(DEMO_SH)
    os.chmod(os.path.join(d, "demo.sh"), 0o755)
    open(os.path.join(d, "demo.py"), "w").write(demo.lstrip("\n"))
    json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks},
              open(os.path.join(d, "meta.json"), "w"), indent=1)
