#!/usr/bin/env python3
"""Lays out /verif/work/scope (the modules of /repo that build without the two git
dependencies) and /verif/work/full (all of /repo's library, to be built against the
stand-ins in /verif/full/stubs).  Sources are copied from /repo's working tree on every run; only
the manifests and, for scope, the mod lists are generated.  Nothing is written outside /verif/work."""
import os
import re
import shutil
import sys

ROOT = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("SURFRS_REPO", "/repo")
WORK = os.path.join(ROOT, "work")
GIT_DEPS = ("gribberish", "readap")
LEFT_OUT = {
    "src/model",
    "src/tools/dap.rs",
    "src/buoy_station.rs",
    "src/data/gfs_wave_grib_point_data_record.rs",
    "src/data/latest_obs_data_record.rs",
    "src/data/meteorological_data_record.rs",
    "src/data/swden_wave_data_record.rs",
}


def put(path, text):
    """Writes only what differs, so that the build sees exactly the files whose content changed."""
    data = text if isinstance(text, bytes) else text.encode()
    os.makedirs(os.path.dirname(path), exist_ok=True)
    if os.path.islink(path):
        os.remove(path)
    if os.path.exists(path) and open(path, "rb").read() == data:
        return
    with open(path, "wb") as f:
        f.write(data)


def left_out(rel):
    return any(rel == x or rel.startswith(x + "/") for x in LEFT_OUT)


def manifest(extra):
    text = open(os.path.join(REPO, "Cargo.toml"), encoding="utf-8").read()
    text = re.sub(r"(?m)^(%s)\s*=.*\n?" % "|".join(GIT_DEPS), "", text)
    # only the library is built: no dev-dependencies, nothing that could pull in the network
    text = re.sub(r"(?ms)^\[dev-dependencies\].*?(?=^\[|\Z)", "", text)
    return text.rstrip() .replace("[dependencies]", "[dependencies]" + extra, 1) + "\n\n[workspace]\n"


def lay(name, scoped, extra):
    base = os.path.join(WORK, name)
    wanted = set()
    for d, _, names in os.walk(os.path.join(REPO, "src")):
        for n in sorted(names):
            src = os.path.join(d, n)
            rel = os.path.relpath(src, REPO)
            if scoped and left_out(rel):
                continue
            dst = os.path.join(base, rel)
            wanted.add(dst)
            if scoped and n in ("mod.rs", "lib.rs"):
                def keep(m):
                    stem = os.path.join(os.path.dirname(rel), m.group(2))
                    return "\n" if left_out(stem) or left_out(stem + ".rs") else m.group(0)
                text = open(src, encoding="utf-8").read()
                text = re.sub(r"^[ \t]*(pub(?:\([^)]*\))?[ \t]+)?mod[ \t]+(\w+);[^\n]*\n?", keep, text, flags=re.M)
                put(dst, text)
            else:
                put(dst, open(src, "rb").read())
    for d, _, names in os.walk(os.path.join(base, "src")):
        for n in names:
            p = os.path.join(d, n)
            if p not in wanted:
                os.remove(p)
    put(os.path.join(base, "Cargo.toml"), manifest(extra))


def main():
    lay("scope", True, "")
    stubs = os.path.join(ROOT, "full", "stubs")
    lay("full", False, '\ngribberish = { path = "%s/gribberish" }\nreadap = { path = "%s/readap" }' % (stubs, stubs))


if __name__ == "__main__":
    main()
