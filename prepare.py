#!/usr/bin/env python3
"""Mirrors /repo/src into /verif/build/src by content: a file's mtime moves only when its content does,
so cargo rebuilds exactly what changed whatever the mtimes in /repo are."""
import os, sys, shutil
SRC, DST = '/repo/src', os.path.join(os.path.dirname(os.path.abspath(__file__)), 'build/src')
CRATES = ['common', 'metadata', 'storage', 'query', 'platform', 'ingester', 'cmd', 'events-gen']

def transform(rel, data):
    if rel == 'query/src/lib.rs':
        # the unstable feature concat_idents is gone from this toolchain; the macro comes from a stand-in crate
        data = data.replace(b'#![feature(let_chains, concat_idents)]', b'#![feature(let_chains)] #[macro_use] extern crate concat_idents_shim;')
    return data

seen = set()
for c in CRATES:
    for root, dirs, files in os.walk(os.path.join(SRC, c)):
        dirs[:] = [d for d in dirs if d != 'target']
        for f in files:
            p = os.path.join(root, f)
            rel = os.path.relpath(p, SRC)
            seen.add(rel)
            with open(p, 'rb') as h: data = transform(rel, h.read())
            q = os.path.join(DST, rel)
            try:
                with open(q, 'rb') as h:
                    if h.read() == data: continue
            except OSError: pass
            os.makedirs(os.path.dirname(q), exist_ok=True)
            with open(q, 'wb') as h: h.write(data)
for root, dirs, files in os.walk(DST):
    for f in files:
        q = os.path.join(root, f)
        if os.path.relpath(q, DST) not in seen: os.remove(q)
