"""Records the shape of every function under contract on the unchanged tree (run by hand, committed)."""
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import layer_a
exe = layer_a.build_extractor()
ex, err = layer_a.extract(exe, "/tmp/w/base", set())
assert ex, err
# first without the old shapes: the annotations are numbered by position in the unchanged source
shapes = os.path.join(layer_a.ROOT, "contracts", "shapes.txt")
if os.path.exists(shapes):
    os.remove(shapes)
ex, err = layer_a.extract(exe, "/tmp/w/base", set())
assert ex, err
with open(shapes, "w") as f:
    for x in ex["fns"]:
        for k in x["keys"]:
            kind, _, text = k.partition(" ")
            f.write(f"{x['key']}\t{kind}\t{text}\n")
ex, err = layer_a.extract(exe, "/tmp/w/base", set())
assert ex and not any(x["extra"] for x in ex["fns"]), err
out = {f["key"]: layer_a.shape(f) for f in ex["fns"] if not f["key"].startswith("raw ")}
json.dump({"fns": out, "types": ex["types"]}, open(os.path.join(layer_a.ROOT, "contracts", "baseline.json"), "w"), indent=0, sort_keys=True)
print(len(out), "functions")
