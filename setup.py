#!/usr/bin/env python3
"""Builds every simulator binary once so that the checks only rebuild what changed."""
import sys
import build as B
from plan import PROPS
done = set()
for pid, spec in PROPS.items():
    for j in spec["jobs"]:
        k = (j["config"], tuple(j["files"]), bool(j.get("plain")))
        if k in done: continue
        done.add(k)
        try: print(B.build(j["config"], list(j["files"]), plain=k[2]))
        except B.BuildError as e: print(e); sys.exit(1)
