"""Development tool: refreshes sections 5 and 6 of DESIGN.md from known_findings.jsonl, the planted bugs and the results
of tools/try_bug.py (/tmp/try_bug.jsonl; results that are not there any more keep their old line)."""
import json
import os
import re

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def section(text, mark, body):
    a, b = f"<!-- {mark} -->", f"<!-- /{mark} -->"
    new = f"{a}\n{body}\n{b}"
    if a in text:
        return text[:text.index(a)] + new + text[text.index(b) + len(b):]
    return text.replace(f"@@{mark.upper()}@@", new)


def main():
    path = HERE + "/DESIGN.md"
    text = open(path).read()
    kf = [json.loads(x) for x in open(HERE + "/known_findings.jsonl") if x.strip()]
    out = ["## 5. Defects of thinc", "", "Repaired (one `fix:` commit each; a replay of the violation exists in spirit of "
           "each check, which reports it again if it returns):", ""]
    out += [f"* {k['property']} {k['what'].split(' ', 2)[2]}" for k in kf if k["status"] == "fixed"]
    out += ["", "Recorded as known findings (known_findings.jsonl), because the repair is not small or breaks an existing test:", ""]
    out += [f"* {k['property']} {k['what']}" for k in kf if k["status"] == "known"]
    out += ["", open(HERE + "/tools/observations.md").read().strip()]
    text = section(text, "findings", "\n".join(out))
    old = dict(re.findall(r"^\| ([\w-]+) \| (.*)$", text, re.M))
    res = {}
    if os.path.exists("/tmp/try_bug.jsonl"):
        for line in open("/tmp/try_bug.jsonl"):
            d = json.loads(line)
            res.setdefault(d["bug"], {}).update(d)
    rows = ["## 6. Planted bugs", "", "Every bug in seeded/ was confirmed in a scratch copy: it builds, the stable tests pass, its demonstration "
            "tells the trees apart. Result of the quick check of its property with seed 1:", "",
            "| bug | property | what it needs | caught by |", "|---|---|---|---|"]
    n = c = 0
    for b in sorted(os.listdir(HERE + "/seeded")):
        m = json.load(open(f"{HERE}/seeded/{b}/meta.json"))
        p = m["property"]
        r = res.get(b, {})
        if f"check_{p}" in r:
            caught = f"{p} ({(r.get(f'check_{p}_out') or ['?'])[0].split(': ')[1] if r[f'check_{p}'] == 1 else ''})" if r[f"check_{p}"] == 1 else "missed"
        elif b in old:
            caught = old[b].rstrip(" |").split("|")[-1].strip()
        else:
            caught = "?"
        n += 1
        c += caught != "missed"
        rows.append(f"| {b} | {p} | {m['needs'].replace('|', '/')} | {caught} |")
    rows += ["", f"{c} of {n} caught."]
    text = section(text, "bugs", "\n".join(rows))
    open(path, "w").write(text)


main()
