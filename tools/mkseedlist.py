# Rewrites the list of planted bugs at the end of DESIGN.md from seeded/*/meta.json.
import glob, json, os
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
d = open(root + "/DESIGN.md").read()
head = "Caught by the quick check of the property in brackets; what each needs to manifest:\n"
i = d.index(head) + len(head)
out = ["\n"]
for m in sorted(glob.glob(root + "/seeded/*/meta.json")):
    j = json.load(open(m))
    n = j["needs"]
    out.append(f"- `{os.path.basename(os.path.dirname(m))}` ({j['property']}): {n[0].upper() + n[1:]}\n")
open(root + "/DESIGN.md", "w").write(d[:i] + "".join(out))
