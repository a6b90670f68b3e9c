"""Shared by the persistence checks: fault injection, object comparison, archives."""
import io, json, os, sys, zipfile
import numpy as np
from pyvc.harness import *


def snapshot(root):
    """{relative path: (kind, bytes/target, mtime_ns, mode)} of everything below root"""
    out = {}
    for d, ds, fs in os.walk(root):
        for n in ds + fs:
            p = os.path.join(d, n)
            st = os.lstat(p)
            r = os.path.relpath(p, root)
            if os.path.islink(p):
                out[r] = ("link", os.readlink(p))
            elif os.path.isdir(p):
                out[r] = ("dir",)
            else:
                with open(p, "rb") as f:
                    out[r] = ("file", f.read(), st.st_mtime_ns, st.st_ino, st.st_mode & 0o777)
    return out


def diff(a, b):
    return {k: ("removed" if k not in b else "created" if k not in a else "changed") for k in set(a) | set(b) if a.get(k) != b.get(k)}
