import json,os
D='/verif/seeded'; rows=['| planted bug | property | what it needs to show | caught by |','|---|---|---|---|']
for b in sorted(os.listdir(D)):
    m=json.load(open(f'{D}/{b}/meta.json'))
    rows.append(f"| {b} | {m['property']} | {m['needs'].replace('|','/')} | {m.get('caught','its own check')} |")
t='\n'.join(rows)
s=open('/verif/DESIGN.md').read()
a=s.index('## 6. Planted bugs'); e=s.index('## 7. Limits')
intro='''## 6. Planted bugs

Each builds, passes the 22 stable tests, and has a demonstration that fails with it and passes
without it. "Its own check" means that the quick check of its property exits 1 with it at seed 1.
Building them led to: the parts `lifetime`, `only-*`, `cfgA`/`cfgB`, `stack`; restart on a generated
CPU (H_EMU) for a library that probes before main; a crash before main counted as a violation; every
power of two in C15; squares and products of primes in C18.

'''
open('/verif/DESIGN.md','w').write(s[:a]+intro+t+'\n\n'+s[e:])
