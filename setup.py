#!/usr/bin/env python3
"""Builds every driver of the quick tier, so that the first check is fast."""
import concurrent.futures, os, sys
os.chdir(os.path.dirname(os.path.abspath(__file__)))
import run
os.makedirs("build", exist_ok=True)
for pid in sorted(run.CHECKS):
    pass
bad = []
def one(pid):
    try:
        run.build(run.CHECKS[pid], "asan")
    except SystemExit:
        bad.append(pid)
ids = sorted(run.CHECKS)
if ids:
    one(ids[0])  # the library objects, once
with concurrent.futures.ThreadPoolExecutor(4) as ex:
    list(ex.map(one, ids[1:]))
# A tree that does not build is for each check to report.
print("built %d drivers, failed: %s" % (len(ids) - len(bad), bad))
