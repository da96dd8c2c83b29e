#!/usr/bin/env python3
"""seed.py pack ID [source...]   write demo.sh and kit.tgz of a planted bug
seed.py try ID...              confirm planted bugs and run their property's check
(a development aid: no check uses it)"""
import io
import json
import os
import subprocess
import sys
import tarfile

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SEED = os.path.join(VERIF, "seeded")


def sh(cmd, **kw):
    return subprocess.run(cmd, shell=isinstance(cmd, str), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, **kw)


def pack(i, srcs):
    d = os.path.join(SEED, i)

    def plain(t):
        t.mtime, t.uid, t.gid, t.uname, t.gname = 0, 0, 0, "", ""
        return None if "__pycache__" in t.name else t
    with open(os.path.join(d, "demo.cpp")) as f:
        txt = f.read()
    import gzip
    raw = io.BytesIO()
    with tarfile.open(fileobj=raw, mode="w") as t:
        t.add(os.path.join(VERIF, "tools/seedkit/make.sh"), "kit/make.sh", filter=plain)
        if "nomfem" not in srcs:
            t.add(os.path.join(VERIF, "minimfem"), "kit/minimfem", filter=plain)
        for h in ("common.h", "meshes.h", "gmsh.h"):
            if h in txt:
                t.add(os.path.join(VERIF, "harness", h), "kit/harness/" + h, filter=plain)
        if "gmsh.h" in txt and "common.h" not in txt:
            t.add(os.path.join(VERIF, "harness/common.h"), "kit/harness/common.h", filter=plain)
    with open(os.path.join(d, "kit.tgz"), "wb") as f:
        f.write(gzip.compress(raw.getvalue(), 9, mtime=0))
    with open(os.path.join(VERIF, "tools/seedkit/demo.sh")) as f:
        t = f.read().replace("@SRCS@", " ".join(srcs)).replace(" \n", "\n")
    with open(os.path.join(d, "demo.sh"), "w") as f:
        f.write(t)
    os.chmod(os.path.join(d, "demo.sh"), 0o755)


def attempt(i):
    d = os.path.join(SEED, i)
    meta = json.load(open(os.path.join(d, "meta.json")))
    assert not sh("git -C /repo status --porcelain").stdout, "/repo is not clean"
    tmp = "/tmp/seedrun-" + i
    sh(["cp", "-a", d, tmp])
    sh(["rm", "-f", tmp + "/patch.diff", tmp + "/meta.json"])
    a = sh(["bash", tmp + "/demo.sh"], cwd="/repo")
    res = {"clean": a.returncode}
    if a.returncode:
        print(a.stdout.decode()[-2000:])
    try:
        p = sh(["git", "-C", "/repo", "apply", d + "/patch.diff"])
        if p.returncode:
            print(p.stdout.decode())
            return
        res["build"] = sh("bash /opt/vp/build.sh").returncode
        sh("bash /opt/vp/test.sh /tmp/seedtest.json")
        base = json.load(open("/opt/vp/BASELINE.json"))
        res["tests"] = open("/tmp/seedtest.json").read()[:60].replace("\n", " ")
        b = sh(["bash", tmp + "/demo.sh"], cwd="/repo")
        res["patched"] = b.returncode
        res["says"] = b.stdout.decode(errors="replace")[-160:].strip()
        e = dict(os.environ, VERIF_SEED="1", VERIF_TIER="quick")
        c = sh(["python3", VERIF + "/tools/check.py", meta["property"]], env=e)
        res["check"] = c.returncode
        res["check_says"] = c.stdout.decode(errors="replace")[-400:]
    finally:
        sh("git -C /repo checkout -- .")
        sh(["rm", "-rf", tmp])
        sh("bash /opt/vp/build.sh")
    ok = res["clean"] == 0 and res.get("patched") and res.get("build") == 0
    print(i, meta["property"], "COUNTS" if ok else "DOES NOT COUNT", "CAUGHT" if res.get("check") == 1 else "MISSED", json.dumps(res))


if __name__ == "__main__":
    if sys.argv[1] == "pack":
        pack(sys.argv[2], sys.argv[3:])
    else:
        for x in sys.argv[2:]:
            attempt(x)
