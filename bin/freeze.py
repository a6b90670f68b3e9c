"""Writes data/templates.json and data/corpus.json once: archives made by the verified tree, kept as committed inputs
(so that the checks do not depend on what a changed dump writes)."""
import sys; sys.path[:0] = ["/verif", (sys.argv[1] if len(sys.argv) > 1 else "/repo")]
import warnings; warnings.simplefilter("ignore")
import base64, io, json, zipfile
import skops.io as sio
from contracts import corpus


def renumber(schema, members):
    ids, files = {}, {}

    def walk(s):
        if isinstance(s, dict):
            out = {}
            for k, v in s.items():
                if k == "__id__":
                    out[k] = ids.setdefault(v, len(ids) + 1)
                elif k == "file":
                    out[k] = files.setdefault(v, f"m{len(files)}" + v[v.rindex("."):])
                else:
                    out[k] = walk(v)
            return out
        return [walk(x) for x in s] if isinstance(s, list) else s
    sch = walk(schema)
    return sch, {files[k]: base64.b64encode(v).decode() for k, v in members.items()}


def read(data):
    z = zipfile.ZipFile(io.BytesIO(data))
    sch = json.loads(z.read("schema.json"))
    return renumber(sch, {n: z.read(n) for n in z.namelist() if n != "schema.json"})


out = {}
best = {}
for key in corpus.KEYS:
    obj = corpus.make(key)
    try:
        sch, mem = read(sio.dumps(obj))
    except Exception as ex:
        print(key, repr(ex)[:150])
        continue
    sch.pop("_skops_version"), sch.pop("protocol")
    out[key] = {"state": sch, "members": mem}

    def walk(s):
        if isinstance(s, dict):
            l = s.get("__loader__")
            if l:
                files = set()

                def fs(x):
                    if isinstance(x, dict):
                        if "file" in x: files.add(x["file"])
                        [fs(y) for y in x.values()]
                    elif isinstance(x, list):
                        [fs(y) for y in x]
                fs(s)
                t = json.dumps(s)
                kind = l + (":" + s["type"] if "type" in s else "")
                if kind not in best or len(t) < len(json.dumps(best[kind]["state"])):
                    if not ("CachedNode" in t or s.get("content") in ([], {}) and l in ("ListNode", "DictNode", "TupleNode")):
                        best[kind] = {"state": s, "members": {f: mem[f] for f in files}}
            [walk(y) for y in s.values()]
        elif isinstance(s, list):
            [walk(y) for y in s]
    walk(sch)
if len(sys.argv) > 1:
    # archives of an older tree
    json.dump(out, open("/verif/data/corpus_orig.json", "w"), indent=0)
else:
    json.dump(out, open("/verif/data/corpus.json", "w"), indent=0)
    json.dump(best, open("/verif/data/templates.json", "w"), indent=0)
print(sorted(best))
