import sys, json
f = sys.argv[1]; t = open(f).read()
for l in t.split('\n'):
    if l.startswith('RESULT '):
        r = json.loads(l[7:]); print('%s:%d %s obl %d proved %d failed %d und %d hav %d t %.1f/%.1f cover %s %s' % (r['entry'], r['cfg'], r['status'], r['obl'], r['proved'], len(r['failed']), len(r['undecided']), r['nhavocs'], r['t_exec'], r['t'], list(r['cover'].values()), r['note'][:300]))
        for x in r['failed'][:4]: print('    FAILED', 'solid' if x['solid'] else 'soft', x['label'], x['where'], x['goal'][:200], str(x['model'])[:200])
        for x in r['undecided'][:4]: print('    UNDEC', x[:250])
        for x in r['havocs'][:4]: print('    havoc', x[:200])
        break
else: print(f, 'NO RESULT', t[-250:])
