#!/usr/bin/env python3
"""One-off: reads the unavoidable bit conditions out of the C original
(cgo/ubc_check.c) into a declarative table, one list of two-bit parity
conditions per disturbance vector.  The result is committed as
spec/UbcTable.tla; no check runs this script."""
import re, sys
src = open(sys.argv[1]).read()
bits = {m.group(1): int(m.group(2)) for m in re.finditer(r'(DV_I+_\d+_\d+)_bit = \(uint32_t\)\(1\) << (\d+)', src)}
body = src[src.index('void ubc_check'):]
conds = {n: [] for n in bits}

def term(t):
    t = t.strip().strip('()')
    m = re.fullmatch(r'W\[(\d+)\](?:\s*(>>|<<)\s*(\d+))?', t)
    sh = 0
    if m.group(2): sh = int(m.group(3)) * (1 if m.group(2) == '>>' else -1)
    return int(m.group(1)), sh
T = r'(\(?W\[\d+\](?: (?:>>|<<) \d+\))?)'
def cond(t1, t2, bit, want):
    (i, si), (j, sj) = term(t1), term(t2)
    return (i, bit + si, j, bit + sj, want)
for st in re.findall(r'mask &= (.*?);', body, re.S):
    st = ' '.join(st.split())
    dvs = [d for d in re.findall(r'(DV_I+_\d+_\d+)_bit', st)]
    if re.fullmatch(r'~DV_I+_\d+_\d+_bit', st): continue
    for rx, f in [
        (r'\(\(\(\(\((W\[\d+\]) \^ (W\[\d+\])\) >> (\d+)\) & 1\) - 1\)', lambda m: cond(m[1], m[2], int(m[3]), 0)),
        (r'\(\(\(\(' + T + r' \^ ' + T + r'\) & 1\) - 1\)', lambda m: cond(m[1], m[2], 0, 0)),
        (r'\(\(\(\(' + T + r' \^ ' + T + r'\) & \(1 << (\d+)\)\) - \(1 << \d+\)\)', lambda m: cond(m[1], m[2], int(m[3]), 0)),
        (r'\(\(0 - \(\(\((W\[\d+\]) \^ (W\[\d+\])\) >> (\d+)\) & 1\)\)', lambda m: cond(m[1], m[2], int(m[3]), 1)),
        (r'\(\(0 - \(\(' + T + r' \^ ' + T + r'\) & \(1 << (\d+)\)\)\)', lambda m: cond(m[1], m[2], int(m[3]), 1)),
        (r'\(\(~\(\((W\[\d+\]) \^ (W\[\d+\])\) >> (\d+)\)\)', lambda m: cond(m[1], m[2], bits[dvs[0]] + int(m[3]), 0)),
        (r'\(\(\(\((W\[\d+\]) \^ (W\[\d+\])\) << (\d+)\)\)', lambda m: cond(m[1], m[2], bits[dvs[0]] - int(m[3]), 1)),
    ]:
        m = re.match(rx, st)
        if m:
            c = f(m)
            break
    else:
        # (((((W[46] >> 4) ^ (W[49] >> 29)) & 1) - 1)
        m = re.match(r'\(\(\(\(\(W\[(\d+)\] >> (\d+)\) \^ \(W\[(\d+)\] >> (\d+)\)\) & 1\) - 1\)', st)
        if not m: sys.exit('unparsed: ' + st)
        c = (int(m[1]), int(m[2]), int(m[3]), int(m[4]), 0)
    for d in dvs: conds[d].append(c)
for m in re.finditer(r'if \(mask & (DV_I+_\d+_\d+)_bit\)\s*if \((.*?)\)\s*mask &= ~(DV_I+_\d+_\d+)_bit;', body, re.S):
    assert m[1] == m[3]
    for t in m[2].split('||'):
        t = t.strip()
        want = 0 if t.startswith('!(!') else 1
        n = re.search(T + r' \^ ' + T + r'\) & \(1 << (\d+)\)', t)
        conds[m[1]].append(cond(n[1], n[2], int(n[3]), want))
order = sorted(bits, key=bits.get)
print('------------------------------ MODULE UbcTable ------------------------------')
print('(* The unavoidable bit conditions (UBCs) of the 32 disturbance vectors, as a *)')
print('(* declarative table.  UbcConds[k] lists those of the vector with mask bit   *)')
print('(* k-1; <<i, bi, j, bj, p>> stands for                                       *)')
print('(*      (bit bi of W[i]) xor (bit bj of W[j]) = p.                           *)')
print('(* Normalised from the original ubc_check (tools/extract_ubc.py); what ties  *)')
print('(* it to the disturbance vectors themselves is checked in MCTables.tla.      *)')
print('UbcConds == <<')
for n, d in enumerate(order):
    cs = []
    for (i, bi, j, bj, p) in conds[d]:
        assert 0 <= bi < 32 and 0 <= bj < 32, (d, i, bi, j, bj)
        a, b = sorted([(i, bi), (j, bj)])
        cs.append((a[0], a[1], b[0], b[1], p))
    cs = sorted(set(cs))
    body = ',\n     '.join(', '.join('<<%d,%d,%d,%d,%d>>' % c for c in cs[q:q+5]) for q in range(0, len(cs), 5))
    print('  \\* %2d: %s\n  << %s >>%s' % (n, d.replace('DV_', ''), body, ',' if n < 31 else ''))
print('>>')
print('=============================================================================')
