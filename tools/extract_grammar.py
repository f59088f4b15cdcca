#!/usr/bin/env python3
"""one-off: extracts the productions of the SQL grammar into lib/grammar.json (the hostile-text generator derives sentences from it)"""
import json, re, sys
t = open(sys.argv[1]).read()
t = t.split('%%')[1]
t = re.sub(r'/\*.*?\*/', ' ', t, flags=re.S)
# strip actions
out, depth, i, q = [], 0, 0, None
while i < len(t):
    c = t[i]
    if depth and q:
        if c == '\\':
            i += 1
        elif c == q:
            q = None
    elif depth and c in '"\'':
        q = c
    elif c == '{' :
        depth += 1
    elif c == '}':
        depth -= 1
        i += 1
        continue
    elif not depth and c == "'":
        out.append(t[i:i + 3]); i += 3
        continue
    if not depth:
        out.append(c)
    i += 1
t = ''.join(out)
toks = re.findall(r"'.'|%\w+|\w+|[:;|]", t)
g, i = {}, 0
lhs = None
while i < len(toks):
    if i + 1 < len(toks) and toks[i + 1] == ':' :
        lhs = toks[i]; i += 2
        g.setdefault(lhs, []).append([])
        continue
    x = toks[i]
    if x == '|':
        g[lhs].append([])
    elif x == ';':
        pass
    elif x == '%prec':
        i += 1
    else:
        g[lhs][-1].append(x)
    i += 1
json.dump(g, open(sys.argv[2], 'w'), indent=0)
terms = {s for ps in g.values() for p in ps for s in p} - set(g)
print(sorted(terms))
