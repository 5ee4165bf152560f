"""plant.py ID [--props C01,C02] [--check]: confirms a planted bug in a scratch copy, then runs checks against it.

Confirms that the patch applies, builds and passes the tests, and that the demo tells the two trees apart."""
import json
import os
import shutil
import subprocess
import sys
import tempfile

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = "/opt/venv/bin/python"


def sh(cmd, cwd, env=None, t=600):
    r = subprocess.run(cmd, shell=True, cwd=cwd, env=dict(os.environ, **(env or {})), stdout=subprocess.PIPE,
                       stderr=subprocess.STDOUT, text=True, timeout=t)
    return r.returncode, r.stdout


def main():
    i = sys.argv[1]
    d = os.path.join(ROOT, "seeded", i)
    meta = json.load(open(d + "/meta.json"))
    props = [meta["property"]]
    extra = []
    for a in sys.argv[2:]:
        if a.startswith("--props="):
            props = a[8:].split(",")
        else:
            extra.append(a)
    tmp = tempfile.mkdtemp(prefix="plant.")
    out = "%-28s" % i
    try:
        env = {"PYTHONDONTWRITEBYTECODE": "1", "MPLBACKEND": "Agg", "PYTHONHASHSEED": "0"}
        dd = tmp + "/demo"
        shutil.copytree(d, dd)
        for x in ("patch.diff", "meta.json"):
            os.remove(dd + "/" + x)
        bad = []
        if "--nodemo" not in extra:
            sh("cp -a /repo %s/clean" % tmp, tmp)
            rc, o = sh("bash %s/demo.sh" % dd, tmp + "/clean", env)
            if rc:
                bad.append("demo fails on the clean tree: " + o[-200:])
        sh("cp -a /repo %s/repo" % tmp, tmp)
        rp = tmp + "/repo"
        rc, o = sh("git apply %s/patch.diff" % d, rp)
        if rc:
            bad.append("does not apply: " + o[-300:])
        else:
            if ".f90" in open(d + "/patch.diff").read():
                sh("sed 's#REPO = \"/repo\"#REPO = \"%s\"#' /opt/vp/build_ext.py > %s/b.py" % (rp, tmp), tmp)
                rc, o = sh("%s %s/b.py" % (PY, tmp), rp, env)
                if rc:
                    bad.append("does not build: " + o[-300:])
            rc, o = sh("PYTHONPATH=%s %s -m pytest -q -p no:cacheprovider tests 2>&1 | tail -1" % (rp, PY), rp, env)
            if "32 passed" not in o:
                bad.append("tests: " + o[-200:])
            if "--nodemo" not in extra:
                rc, o = sh("bash %s/demo.sh" % dd, rp, env)
                if not rc:
                    bad.append("demo passes on the patched tree")
        out += "BAD %s" % bad if bad else "ok "
        if not bad and "--nocheck" not in extra:
            for p in props:
                rc, o = sh("%s -m dst.check %s --tier quick %s" % (PY, p, " ".join(x for x in extra if x not in ("--nodemo",))),
                           ROOT, {"DST_REPO": rp}, 900)
                line = [l for l in o.splitlines() if l.startswith("violation at")]
                out += " %s=%s %s" % (p, {0: "MISSED", 1: "caught"}.get(rc, "rc%d %s" % (rc, o[-300:])), line[:1])
        print(out, flush=True)
    finally:
        shutil.rmtree(tmp)


main()
