#!/usr/bin/env python3
"""Writes /verif/seeded/<id>/ from tools/seeds.py and confirms each in a scratch copy of /repo: applies to original lines only,
builds, passes the stable tests, demo fails with it and passes without.  mkseeds.py [regex]"""
import json, os, re, shutil, subprocess, sys, tempfile
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(ROOT, "tools"))
from seeds import SEEDS
BASE = "cd4dc13"
STABLE = json.load(open("/opt/vp/BASELINE.json"))


def sh(cmd, **k): return subprocess.run(cmd, shell=True, capture_output=True, text=True, **k)


def original(path, lineno):
    o = sh("git -C /repo blame -l -s -L%d,%d HEAD -- %s" % (lineno, lineno, path)).stdout
    return o.startswith("^") or sh("git -C /repo merge-base --is-ancestor %s %s" % (o.split()[0].lstrip("^"), BASE)).returncode == 0


def main():
    pat = re.compile(sys.argv[1] if len(sys.argv) > 1 else ".")
    for s in SEEDS:
        if not pat.search(s["id"]): continue
        tmp = tempfile.mkdtemp(prefix="seed")
        try:
            sh("cp -a /repo/. %s" % tmp)
            bad, touched = [], 0
            for path, old, new in s["edits"]:
                rel = "src/pynmeagps/" + path
                f = os.path.join(tmp, rel)
                t = open(f, newline="").read()
                if "\r\n" in t: old, new = old.replace("\n", "\r\n"), new.replace("\n", "\r\n")
                n = s.get("nth", 0)
                if t.count(old) < 1: bad.append("text not found: %r" % old); continue
                i = -1
                for _ in range(n + 1): i = t.find(old, i + 1)
                if t.count(old) > 1 and "nth" not in s: bad.append("%d occurrences of %r" % (t.count(old), old))
                a = t[:i].count("\n") + 1
                ol, nl = t.split("\n"), (t[:i] + new + t[i + len(old):]).split("\n")
                import difflib
                for tag, p, q, _, _ in difflib.SequenceMatcher(None, ol, nl, False).get_opcodes():
                    if tag in ("replace", "delete"):
                        for k in range(p, q):
                            if original(rel, k + 1): touched += 1
                            else: bad.append("line %d is not original: %s" % (k + 1, ol[k].strip()))
                open(f, "w", newline="").write("\n".join(nl))
            if not touched: bad.append("no original line changed")
            d = os.path.join(ROOT, "seeded", s["id"])
            os.makedirs(d, exist_ok=True)
            diff = subprocess.run(["git", "-C", tmp, "diff"], capture_output=True).stdout
            open(os.path.join(d, "patch.diff"), "wb").write(diff)
            if sh("git -C /repo apply --check %s/patch.diff" % d).returncode: bad.append("patch does not apply")
            open(os.path.join(d, "demo.py"), "w").write("import os, sys\nsys.dont_write_bytecode = True\nsys.path.insert(0, os.path.join(os.getcwd(), \"src\"))\n" + s["demo"].strip() + "\n")
            open(os.path.join(d, "demo.sh"), "w").write('#!/bin/bash\nPYTHONPYCACHEPREFIX=/nonexistent exec python3 "$(dirname "$0")/demo.py"\n')
            os.chmod(os.path.join(d, "demo.sh"), 0o755)
            json.dump(dict(property=s["property"], needs=s["needs"], what_it_breaks=s["breaks"]), open(os.path.join(d, "meta.json"), "w"), indent=1)
            r = sh("timeout 250 bash %s/demo.sh" % d, cwd="/repo")
            if r.returncode: bad.append("demo fails on the unchanged tree: " + (r.stdout + r.stderr)[-300:])
            r = sh("timeout 250 bash %s/demo.sh" % d, cwd=tmp)
            if not r.returncode: bad.append("demo passes with the patch")
            env = dict(os.environ, PYTHONDONTWRITEBYTECODE="1", PYTHONPYCACHEPREFIX="/nonexistent", TZ="UTC")
            r = sh("/opt/venv/bin/python -m pytest -q -x -p no:cacheprovider --no-cov tests -o pythonpath=%s/src" % tmp, cwd=tmp, env=env)
            if r.returncode: bad.append("tests: " + r.stdout[-400:])
            print(s["id"], "ok" if not bad else "BAD " + "; ".join(bad), flush=True)
            if bad: shutil.rmtree(d)
        finally:
            shutil.rmtree(tmp)


main()
