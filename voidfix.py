#!/usr/bin/env python3
"""voidfix.py DIR ERRFILE: GNU arithmetic on void pointers, which clang rejects in C++, is given its GNU meaning: the
operand that clang names is cast to char*, and the sum back to void* where it is static_cast to another type. The casts go to copies in DIR, laid over the originals by DIR/o.yaml;
lines and columns before the casts stay as they were. Exit 0 if something was changed."""
import sys, re, os, json
D, E = sys.argv[1:]
os.makedirs(D, exist_ok=True)
mapf = D + '/map.json'
m = json.load(open(mapf)) if os.path.exists(mapf) else {}
ed = {}
for l in open(E, errors='replace'):
    r = re.match(r'(\S+?):\d+:\d+:\{(\d+):(\d+)-(\d+):(\d+)\}: error: arithmetic on a pointer to void', l)
    w = '((char *)('
    if not r:   # the sum is cast back to another pointer: from void* again
        r = re.match(r"(\S+?):\d+:\d+:\{[-:\d]+\}\{(\d+):(\d+)-(\d+):(\d+)\}: error: static_cast from 'char \*' to '[^']*\*' is not allowed", l); w = '((void *)('
        if r and os.path.realpath(r.group(1)) not in m: continue
    if r and r.group(2) == r.group(4): ed.setdefault(os.path.realpath(r.group(1)), set()).add(tuple(map(int, r.group(2, 3, 5))) + (w,))
for f, es in ed.items():
    src = m.get(f, f)
    L = open(src, encoding='latin-1').read().split('\n')
    for ln, a, b, w in sorted(es, reverse=True):
        s = L[ln-1]
        L[ln-1] = s[:a-1] + w + s[a-1:b-1] + '))' + s[b-1:]
    dst = m.setdefault(f, '%s/%d_%s' % (D, len(m), os.path.basename(f)))
    open(dst, 'w', encoding='latin-1').write('\n'.join(L))
json.dump(m, open(mapf, 'w'))
dirs = {}
for f, d in m.items(): dirs.setdefault(os.path.dirname(f), []).append({'name': os.path.basename(f), 'type': 'file', 'external-contents': d})
json.dump({'version': 0, 'use-external-names': False, 'roots': [{'name': k, 'type': 'directory', 'contents': v} for k, v in dirs.items()]}, open(D + '/o.yaml', 'w'))
sys.exit(0 if ed else 1)
