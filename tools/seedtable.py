import json,os,re
first={'p05-partial-any':'missed at first (P05 had no `then_partial` at the places that matter); led to the framed sweeps','p15-retry':'missed at first (scripts failed with one kind only); led to all error kinds','p09-range-column':'missed at first (ASCII only); led to characters of two bytes','p19-optional-group':'missed at first; led to patterns with optional groups','p05-take-until-committed':'missed at first; led to the sweep of places where it matters what was consumed','p23-outer-end':'missed at first; led to `spanned` as an alternative'}
rows=['Every planted bug is caught by the quick check of its property (`tools/runseed.sh ID` repeats this).','','| bug | check | needs | remarks |','|---|---|---|---|']
for d in sorted(os.listdir('/verif/seeded')):
    m=json.load(open(f'/verif/seeded/{d}/meta.json'))
    rows.append(f"| {d} | {m['property']} | {m['needs']} | {first.get(d,'')} |")
rows+=['','Planted and dropped, as the change cannot be observed or breaks nothing that is specified: a `take_until` that searches again from the start when resumed; the position at which a failed `look_ahead` leaves the input.']
s=open('/verif/DESIGN.md').read()
if 'SEEDTABLE' in s:
    s=s.replace('SEEDTABLE','<!-- table: seeded -->\n'+'\n'.join(rows)+'\n<!-- end -->')
else:
    s=re.sub(r'<!-- table: seeded -->.*?<!-- end -->',lambda _:'<!-- table: seeded -->\n'+'\n'.join(rows)+'\n<!-- end -->',s,flags=re.S)
open('/verif/DESIGN.md','w').write(s)
