#!/usr/bin/env python3
"""Compares the operators of spec/Soil.tla as TLC evaluates them from their definitions with java/Soil.java's overrides."""
import json
import math
import os
import struct
import subprocess
import sys
import tempfile

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TLA = "/opt/veriftools/tla"


def run(d, name, files):
    cls = "%s/%s" % (d, name)
    os.makedirs(cls)
    subprocess.run(["javac", "-nowarn", "-cp", TLA + "/tla2tools.jar", "-d", cls] + ["%s/java/%s" % (HERE, f) for f in files], check=True)
    if name == "definitions" and os.path.exists(cls + "/Soil.class"):
        os.unlink(cls + "/Soil.class")
    out = cls + ".json"
    subprocess.run(["java", "-Xss64m", "-cp", "%s/tla2tools.jar:%s/CommunityModules-deps.jar:%s" % (TLA, TLA, cls), "tlc2.TLC", "-nowarning",
                    "-metadir", cls + "/md", "-config", "SelfTest.cfg", "SelfTest"], cwd=HERE + "/spec", env=dict(os.environ, OUT=out),
                   stdout=subprocess.DEVNULL, check=True)
    return json.load(open(out))


def num(x):
    return struct.unpack(">d", struct.pack(">ii", x[0], x[1]))[0]


def compare(a, b, at, worst):
    if isinstance(a, list) and len(a) == 2 and all(isinstance(q, int) for q in a):
        x, y = num(a), num(b)
        e = 0 if x == y or (math.isnan(x) and math.isnan(y)) else abs(x - y) / max(abs(x), abs(y))
        worst.append((e, at, x, y))
    elif isinstance(a, (list, dict)):
        for k in (range(len(a)) if isinstance(a, list) else a):
            compare(a[k], b[k], at + (k,), worst)
    elif a != b:
        worst.append((math.inf, at, a, b))


with tempfile.TemporaryDirectory() as d:
    worst = []
    compare(run(d, "definitions", ["Dbl.java"]), run(d, "overrides", ["Dbl.java", "Soil.java"]), (), worst)
worst.sort(reverse=True)
print("%d values compared, largest relative difference %.2g at %s" % (len(worst), worst[0][0], worst[0][1:]))
sys.exit(0 if worst[0][0] < 1e-6 else 1)
