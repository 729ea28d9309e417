"""Print the markdown table of planted bugs from seeded/*/meta.json (the results column is kept in tools/caught.json)."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
caught = json.load(open(os.path.join(V, "tools/caught.json"))) if os.path.exists(os.path.join(V, "tools/caught.json")) else {}
print("| planted change | property | needs | caught by |\n|---|---|---|---|")
for d in sorted(os.listdir(os.path.join(V, "seeded"))):
    m = json.load(open(os.path.join(V, "seeded", d, "meta.json")))
    print(f"| {d} | {m['property']} | {m['needs']} | {caught.get(d, m['property'])} |")
