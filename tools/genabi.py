#!/usr/bin/env python3
"""Writes harness/abistubs.h: C functions of many signatures (callers and callees), the other side of generated functions."""
import itertools, os
out = ['/* generated by tools/genabi.py */']
TY = 'WIDF'
n = 0
tab = []
for k in range(5):
    for idx, args in enumerate(itertools.product(TY, repeat=k)):
        rets = 'VWIDF' if k <= 2 else 'VWIDF'[(idx + idx // 5 + idx // 25) % 5]
        for r in rets:
            a = ','.join(args)
            out.append('ST%d(%s%s%s)' % (k, r, ',' if args else '', a))
            tab.append('{"%s%s",(void*)ce_%s%s,ca_%s%s}' % ((r, ''.join(args)) * 3))
out.append('static const stub stubs[]={')
out += [t + ',' for t in tab]
out.append('};')
with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'harness', 'abistubs.h'), 'w') as f:
    f.write('\n'.join(out) + '\n')
