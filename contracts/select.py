"""Units of a shared module, restricted to the obligations that belong to one property."""
from __future__ import annotations
import re


class Only:
    """obligations whose name matches `keep` (and not `drop`); vacuity obligations always stay"""

    def __init__(self, P, keep=None, drop=None):
        self.P, self.keep, self.drop = P, keep and re.compile(keep), drop and re.compile(drop)

    def __getattr__(self, name):
        return getattr(self.P, name)

    def unit(self, name, fn, mk, policy=None):
        rec = self.P.unit(name, fn, mk, policy)
        if rec["reach"] != "ok":
            return rec
        rec["obligations"] = [o for o in rec["obligations"] if self.mine(o.name)]
        if not any(o.kind != "vacuity" for o in rec["obligations"]):
            self.P.units.remove(rec)
        return rec

    def mine(self, name):
        if name.endswith("reachable") or re.search(r": \d+ states, \d+ paths$|: \d+ paths", name):
            return True
        return (not self.keep or bool(self.keep.search(name))) and not (self.drop and self.drop.search(name))
