#!/usr/bin/env python3
"""Refreshes verus/snapshot: the sources (without tests) that the contracts were last accepted for. They hold the place of a function that is
left undecided, and tell an obligation that changed from one that did not. Nothing proved about them is ever counted."""
import os, shutil
S = '/verif/verus/snapshot/src'
shutil.rmtree(S, ignore_errors=True)
shutil.copytree('/repo/src', S)
for r, _, fs in os.walk(S):
    for f in fs:
        p = os.path.join(r, f); t = open(p).read(); k = t.find('#[cfg(test)]\nmod ')
        if k > 0: open(p, 'w').write(t[:k].rstrip() + '\n')
