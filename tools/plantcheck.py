#!/usr/bin/env python3
"""Verify planted bugs: plantcheck.py [ID ...] [--checks] [--tests]

In a scratch copy of /repo: the patch applies, the stable tests pass, the demo
passes without and fails with it; with --checks, run the property's check
against the patched copy (VERIF_REPO) and report whether it is caught.
"""
import json, os, shutil, subprocess, sys, tempfile
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BASE = json.load(open("/opt/vp/BASELINE.json"))
STABLE = BASE if isinstance(BASE, list) else None
ENV = dict(os.environ, PYTHONPATH="/opt/vp/support", PYTHONDONTWRITEBYTECODE="1",
           PYTHONHASHSEED="0", TF_ENABLE_ONEDNN_OPTS="0",
           CUDA_VISIBLE_DEVICES="-1", TF_CPP_MIN_LOG_LEVEL="3",
           OMP_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1")


def tests(copy):
    p = subprocess.run(
        ["/opt/venv/bin/python", "-m", "pytest", "-p", "tf1_api", "-q", "-p",
         "no:cacheprovider", "-n", "8", "--timeout=300", "--tb=no", "-W",
         "ignore", "tests"], cwd=copy, env=ENV, stdout=subprocess.PIPE,
        stderr=subprocess.STDOUT, text=True)
    fails = sorted(l for l in p.stdout.splitlines() if l.startswith("FAILED"))
    return [f.split(" ")[1] for f in fails], p.stdout.splitlines()[-1]


def demo(d, copy):
    return subprocess.run(["bash", os.path.join(d, "demo.sh")], cwd=copy,
                          stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                          text=True, timeout=300)


def main():
    args = [a for a in sys.argv[1:] if not a.startswith("--")]
    root = os.path.join(HERE, "seeded")
    ids = args or sorted(os.listdir(root))
    tmp = tempfile.mkdtemp(prefix="plant")
    copy = os.path.join(tmp, "repo")
    subprocess.check_call(["cp", "-a", "/repo", copy])
    base_fail = None
    try:
        for i in ids:
            d = os.path.join(root, i)
            meta = json.load(open(os.path.join(d, "meta.json")))
            subprocess.check_call(["git", "-C", copy, "checkout", "-q", "--", "."])
            out = [i, meta["property"]]
            if "--nodemo" not in sys.argv:
                p = demo(d, copy)
                out.append("demo-clean=%d" % p.returncode)
                if p.returncode:
                    print(p.stdout[-1500:])
            a = subprocess.run(["git", "-C", copy, "apply",
                                os.path.join(d, "patch.diff")])
            if a.returncode:
                out.append("PATCH DOES NOT APPLY")
                print(*out)
                continue
            if "--nodemo" not in sys.argv:
                p = demo(d, copy)
                out.append("demo-bug=%d" % p.returncode)
                if not p.returncode:
                    print(p.stdout[-1500:])
            if "--tests" in sys.argv:
                f, last = tests(copy)
                if base_fail is None:
                    subprocess.check_call(["git", "-C", copy, "stash", "-q"])
                    base_fail, _ = tests(copy)
                    subprocess.check_call(["git", "-C", copy, "stash", "pop", "-q"])
                new = sorted(set(f) - set(base_fail))
                out.append("tests=%s" % (new or "ok"))
            if "--checks" in sys.argv:
                props = [meta["property"]]
                for pr in props:
                    c = subprocess.run([os.path.join(HERE, "check"), pr],
                                       env=dict(os.environ, VERIF_REPO=copy),
                                       stdout=subprocess.PIPE,
                                       stderr=subprocess.PIPE, text=True)
                    out.append("%s=%s" % (pr, {0: "MISSED", 1: "caught"}.get(
                        c.returncode, "rc%d" % c.returncode)))
                    msg = [l for l in c.stdout.splitlines()
                           if l.startswith("  ")][:4]
                    out.append(" | ".join(m.strip()[:160] for m in msg))
                    if c.returncode not in (0, 1):
                        print(c.stderr[-2000:])
            print(*out, flush=True)
    finally:
        shutil.rmtree(tmp)


main()
