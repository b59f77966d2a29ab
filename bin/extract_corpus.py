#!/usr/bin/env python3
"""One-off: source snippets (language TAB escaped text) from the parser testsuite, committed as data/corpus.txt."""
import glob, re, html
seen, out = set(), []
for f in sorted(glob.glob("/repo/test/parser/testsuite/*.xml")):
    s = open(f, encoding="utf-8", errors="replace").read()
    s = re.sub(r"<!--.*?-->", "", s, flags=re.S)
    for m in re.finditer(r'<unit\b([^>]*?)language="([^"]*)"[^>]*>(.*?)</unit>', s, flags=re.S):
        body = m.group(3)
        if "<unit" in body: body = body[body.rindex("<unit"):]; body = body[body.index(">") + 1:]
        t = re.sub(r'<escape char="(0x[0-9a-fA-F]+)"/>', lambda q: chr(int(q.group(1), 16)), body)
        t = html.unescape(re.sub(r"<[^>]*>", "", t)).strip("\n")
        if not t or len(t) > 200: continue
        k = (m.group(2), t)
        if k in seen: continue
        seen.add(k); out.append(k)
with open("/verif/data/corpus.txt", "w", encoding="utf-8", newline="\n") as f:
    for l, t in out:
        f.write(l + "\t" + t.replace("\\", "\\\\").replace("\n", "\\n").replace("\r", "\\r").replace("\t", "\\t") + "\n")
from collections import Counter
print(len(out), Counter(l for l, _ in out), sum(len(t) for _, t in out))
