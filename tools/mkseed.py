"""authoring and confirming planted bugs.  seed(...) writes /verif/seeded/<id> and confirms it in a scratch copy;
`python3 tools/mkseed.py check [ids]` runs the check of each planted bug's property against a scratch copy with the bug."""
import json, os, shutil, subprocess, sys, tempfile
from pathlib import Path

SEEDED = Path("/verif/seeded")
PY = "/opt/venv/bin/python"
DEMO = '''#!/bin/bash
# run with cwd at the repository
HERE="$(cd "$(dirname "$0")" && pwd)"
S="$(mktemp -d)"
trap 'rm -rf "$S"' EXIT
export XDG_DATA_HOME="$S/xdg" HOME="$S" TMPDIR="$S" PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 PYTHONPATH="$PWD/pkm/src:$PWD/pkm-cli/src"
unset PKM_HOME
cd "$S"
timeout 250 /opt/venv/bin/python "$HERE/demo.py"
'''


def copy(into: Path):
    r = into / "repo"
    subprocess.run(["cp", "-a", "/repo", str(r)], check=True)
    subprocess.run(["git", "-C", str(r), "checkout", "-q", "--", "."], check=True)
    return r


def run(cmd, cwd, env=None, timeout=900):
    e = {k: v for k, v in os.environ.items() if k not in ("PYTHONPATH",)}
    e.update(env or {})
    return subprocess.run(cmd, cwd=cwd, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout, errors="replace")


def tests(r: Path, w: Path):
    sh = w / "test.sh"
    sh.write_text(Path("/opt/vp/test.sh").read_text().replace("/repo", str(r)).replace("unset PYTHONPATH PKM_HOME", f"unset PKM_HOME; export PYTHONPATH={r}/pkm/src:{r}/pkm-cli/src"))
    run(["bash", str(sh), str(w / "out.json")], w)
    res = json.loads((w / "out.json").read_text())
    base = json.loads(Path("/opt/vp/BASELINE.json").read_text())
    stable = base.get("stable") or base.get("passed") or base
    lost = sorted(set(stable) - set(res["passed"])) if isinstance(stable, list) else [k for k in stable if k not in res["passed"]]
    return lost


def seed(id, prop, edits, needs, breaks, demo, kit=False):
    if demo == 'pass':
        return
    d = SEEDED / id
    shutil.rmtree(d, ignore_errors=True)
    d.mkdir(parents=True)
    with tempfile.TemporaryDirectory() as t:
        w = Path(t)
        r = copy(w)
        for f, old, new in edits:
            p = r / f
            s = p.read_text()
            assert s.count(old) == 1, (id, f, s.count(old), old)
            p.write_text(s.replace(old, new))
        diff = subprocess.run(["git", "-C", str(r), "diff"], stdout=subprocess.PIPE, text=True, check=True).stdout
        (d / "patch.diff").write_text(diff)
        (d / "demo.sh").write_text(DEMO)
        (d / "demo.sh").chmod(0o755)
        (d / "demo.py").write_text(demo.lstrip("\n"))
        if "import work" in demo:
            shutil.copy("/tmp/s/work.py", d / "work.py")
        if kit:
            shutil.copy("/verif/tools/kit.py", d / "kit.py")
        (d / "meta.json").write_text(json.dumps({"property": prop, "needs": needs, "what_it_breaks": breaks}, indent=1) + "\n")
        clean = run(["bash", str(d / "demo.sh")], "/repo")
        broken = run(["bash", str(d / "demo.sh")], r)
        lost = tests(r, w)
        base = subprocess.run(["git", "-C", "/repo", "show", "5026708:" + edits[0][0]], stdout=subprocess.PIPE, text=True).stdout
        removed = [ln[1:] for ln in diff.splitlines() if ln.startswith("-") and not ln.startswith("---")]
        orig = all(any(ln in subprocess.run(["git", "-C", "/repo", "show", "5026708:" + f], stdout=subprocess.PIPE, text=True).stdout.splitlines() for f, _, _ in edits) for ln in removed)
        good = clean.returncode == 0 and broken.returncode != 0 and not lost and orig
        print(id, "OK" if good else "BAD", "clean", clean.returncode, "broken", broken.returncode, "lost", lost, "original lines", orig)
        if clean.returncode:
            print(clean.stdout[-1500:])
        if not broken.returncode:
            print(broken.stdout[-800:])


def check(ids):
    for d in sorted(SEEDED.iterdir()):
        if ids and d.name not in ids and json.loads((d / "meta.json").read_text())["property"] not in ids:
            continue
        prop = json.loads((d / "meta.json").read_text())["property"]
        with tempfile.TemporaryDirectory() as t:
            w = Path(t)
            r = copy(w)
            a = run(["git", "-C", str(r), "apply", str(d / "patch.diff")], w)
            if a.returncode:
                print(d.name, "DOES NOT APPLY", a.stdout)
                continue
            p = run(["python3", "/verif/checks/run.py", prop], "/verif", {"VERIF_REPO": str(r), "VERIF_SEED": "1", "VERIF_TIER": "quick"})
            hit = p.returncode == 1 and f"VIOLATION property={prop}" in p.stdout
            print(d.name, "caught" if hit else f"MISSED rc={p.returncode}", p.stdout.strip()[-300:].replace(chr(10), ' | ')[-220:], flush=True)
            if p.returncode not in (0, 1):
                print(p.stdout[-1500:])


if __name__ == "__main__":
    if sys.argv[1] == "check":
        check(sys.argv[2:])
