#!/usr/bin/env python3
"""setup_cmd: builds the library variants and every check binary from the committed files."""
import os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__))); sys.path.insert(0, V); sys.path.insert(0, V + '/mc'); sys.dont_write_bytecode = True
import build
from meta import META
by = {}
for m in META.values():
    for v in m['variants']: by.setdefault(v, set()).add(m['check'])
for v, cs in by.items(): build.build(sorted(cs), [v])
print('built', {v: len(c) for v, c in by.items()})
