#!/usr/bin/env python3
"""Examines planted bugs: seedtest.py [--tests] [--no-check] ID...   (-j N at a time)
Each is applied to a copy of /repo that is mounted over /repo in a private mount and network namespace:
build, demo, (stable tests), check of its property.  The demo is also run on an unchanged copy."""
import argparse, json, os, shutil, subprocess, sys, time
from concurrent.futures import ThreadPoolExecutor
ap = argparse.ArgumentParser(); ap.add_argument("ids", nargs="*"); ap.add_argument("--tests", action="store_true")
ap.add_argument("--no-check", action="store_true"); ap.add_argument("--no-demo", action="store_true"); ap.add_argument("-j", type=int, default=2); ap.add_argument("--props", default="")
A = ap.parse_args()
V = "/verif"; S = V + "/seeded"
ids = A.ids or sorted(os.listdir(S))


def ns(copy, cmd, timeout=1500):
    full = ("ip link set lo up; mount --bind %s /repo && mount -t proc proc /proc && mount -t tmpfs tmpfs %s/evidence && cd /repo && " % (copy, V)) + cmd
    t = time.time()
    try: r = subprocess.run(["unshare", "-Urmnp", "--fork", "--kill-child", "bash", "-c", full], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout)
    except subprocess.TimeoutExpired as e: return 124, (e.stdout or b"").decode("utf8", "replace"), timeout
    return r.returncode, r.stdout.decode("utf8", "replace"), time.time() - t


def clean():
    head = subprocess.check_output(["git", "-C", "/repo", "rev-parse", "HEAD"], text=True).strip()
    c = "/tmp/sb-clean-" + head[:10]
    if not os.path.exists(c + "/.done"):
        for d in os.listdir("/tmp"):
            if d.startswith("sb-clean-"): shutil.rmtree("/tmp/" + d)
        subprocess.check_call(["cp", "-a", "/repo", c]); subprocess.check_call(["git", "-C", c, "checkout", "-q", "."])
        rc, out, _ = ns(c, "bash /opt/vp/build.sh")
        assert rc == 0, out[-3000:]
        open(c + "/.git/info/exclude", "a").write(".done\n"); open(c + "/.done", "w").close()
    return c


def one(i, base):
    d = "%s/%s" % (S, i); meta = json.load(open(d + "/meta.json")); res = [i, meta["property"]]
    c = "/tmp/sb-" + i; shutil.rmtree(c, ignore_errors=True)
    dd = "/tmp/sbd-" + i; shutil.rmtree(dd, ignore_errors=True)
    shutil.copytree(d, dd, ignore=shutil.ignore_patterns("*.diff", "*.patch", "meta.json"))
    log = ""
    try:
        subprocess.check_call(["cp", "-a", base, c])
        r = subprocess.run(["git", "-C", c, "apply", d + "/patch.diff"], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if r.returncode: return res + ["PATCH DOES NOT APPLY"], r.stdout
        if not A.no_demo:
            rc, out, t = ns(base, "bash %s/demo.sh" % dd, 320); log += "--- demo clean\n" + out[-3000:]
            res.append("demo-clean %s %d (%.0f s)" % ("ok" if rc == 0 else "BAD", rc, t))
            rc, out, _ = ns(c, "bash /opt/vp/build.sh")
            if rc: return res + ["DOES NOT BUILD"], log + out[-4000:]
            rc, out, t = ns(c, "bash %s/demo.sh" % dd, 320); log += "--- demo patched\n" + out[-3000:]
            res.append("demo-patched %s %d (%.0f s)" % ("ok" if rc else "BAD", rc, t))
        if A.tests:
            rc, out, t = ns(c, "bash /opt/vp/test.sh /tmp/sbd-%s/t.json" % i)
            try:
                passed = set(json.load(open(dd + "/t.json"))["passed"]); miss = set(json.load(open("/opt/vp/BASELINE.json"))["stable"]) - passed
                res.append("tests ok" if not miss else "TESTS FAIL %d %s" % (len(miss), sorted(miss)[:3]))
            except (OSError, ValueError) as e: res.append("TESTS: %s %s" % (e, out[-500:]))
        if not A.no_check:
            for p in (A.props.split(",") if A.props else [meta["property"]]):
                rc, out, t = ns(c, "cd %s && VERIF_SEED=1 VERIF_TIER=quick python3 check.py %s" % (V, p), 920); log += "--- check %s\n" % p + out[-3000:]
                res.append("%s %s (%.0f s)" % (p, "CAUGHT" if rc == 1 and "VIOLATION property=%s" % p in out else "missed (%d)" % rc, t))
        return res, log
    finally:
        shutil.rmtree(c, ignore_errors=True); shutil.rmtree(dd, ignore_errors=True)


base = clean()
with ThreadPoolExecutor(A.j) as ex:
    for i, (res, log) in zip(ids, ex.map(lambda i: one(i, base), ids)):
        print(" | ".join(res), flush=True)
        os.makedirs("/tmp/seedlog", exist_ok=True); open("/tmp/seedlog/%s.log" % i, "w").write(log)
