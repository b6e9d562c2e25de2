#!/usr/bin/env python3
"""Copies /repo/ucan to mcthreads/shadow/ucan with the paths of the standard
library (std::, and core::sync) leading to mcstd, whose locks are scheduling
points, and futures to mcfutures, whose asynchronous mutex is one. Everything
else stays as it is. Files that come out unchanged are left alone; prints
"changed" if any is not."""
import os, re, shutil
here = os.path.dirname(os.path.abspath(__file__))
src, dst = "/repo/ucan", f"{here}/shadow/ucan"
path = re.compile(r"(?<![A-Za-z0-9_:$])(?:::)?(?:std(?=::)|core(?=::(?:sync|hint)\b))")
want = {}
for base, dirs, files in os.walk(f"{src}/src"):
    if base == f"{src}/src":
        dirs[:] = [d for d in dirs if d != "tests"]
    for f in files:
        p = os.path.join(base, f)
        rel = os.path.relpath(p, src)
        data = open(p, "rb").read()
        if f.endswith(".rs"):
            data = path.sub("::mcstd", data.decode()).encode()
        want[rel] = data
toml = open(f"{src}/Cargo.toml").read()
toml = re.sub(r"(?ms)^\[(target\.[^\n]*\.)?dev-dependencies[^\n]*\]\n.*?(?=^\[|\Z)", "", toml)
toml = re.sub(r"(?m)^readme *=.*\n", "", toml)
toml = re.sub(r"(?m)^\[dependencies\]\n", '[dependencies]\nmcstd = { path = "../../mcstd" }\n', toml)
toml = re.sub(r"(?m)^futures *=.*$", 'futures = { path = "../../mcfutures" }', toml)
want["Cargo.toml"] = (toml + "\n[workspace]\n").encode()
for f in ("build.rs",):
    if os.path.exists(f"{src}/{f}"):
        want[f] = open(f"{src}/{f}", "rb").read()
changed = False
for base, dirs, files in os.walk(dst):
    for f in files:
        rel = os.path.relpath(os.path.join(base, f), dst)
        if rel not in want:
            os.unlink(os.path.join(base, f)); changed = True
for rel, data in want.items():
    p = os.path.join(dst, rel)
    if os.path.exists(p) and open(p, "rb").read() == data:
        continue
    os.makedirs(os.path.dirname(p), exist_ok=True)
    open(p, "wb").write(data)
    changed = True
print("changed" if changed else "same")
