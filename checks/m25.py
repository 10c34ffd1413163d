"""sequence numbers"""
import re, os
from common import *
from m10 import unpack, minus
import m08, m09, m10
TY = dict(u8=8, u16=16, u32=32, u64=64, i8=8, i32=32, i64=64)
A, B = ('argv', 0), ('argv', 1)
def run(ck):
    for cfg, f in ck.ir('m25.cpp', HANDLE_PRIMS).items():
        for t, w in TY.items():
            if not ck.viol: numbers(ck, f, cfg, t, w)
    decisions(ck)
    ck.assumptions = ['numbers that are compared are less than half the range apart', 'how the sequencers use the ordering otherwise is M08, M09 and M10']
    ck.finish('difference and ordering of numbers and every operation of ranges and their iterators, for unsigned and signed numbers of 8 to 64 bits; every comparison compiled into barrier, single and multiple producer sequencer, instantiated with an opaque ordering',
              'results are compared as linear forms modulo the width of the number; ordering is the sign of the difference; with opaque traits no relational comparison, minimum or maximum is made of two positions (only of distances and counts), and no distance is cut to fewer bits')
def same(a, b, w): return a is not None and lineq(a, b, w)
def before_(t, w):
    """a term that is the sign of a - b"""
    t = strip(t)
    if t[0] == 'not': r = before_(t[1], w); return None if r is None else -r
    if t[0] != 'cmp' or t[4] != w if len(t) > 4 else True: return None
    _, p, x, y, _ = t; d = mk_op('sub', A, B, w); n = mk_op('sub', B, A, w); H = (1 << (w - 1)) - 1; M = (1 << w) - 1
    k = y[1] & M if y[0] == 'c' else None; j = x[1] & M if x[0] == 'c' else None
    if same(x, d, w) and (p, k) in (('slt', 0), ('sle', M), ('ugt', H), ('uge', H + 1)): return 1
    if same(x, d, w) and (p, k) in (('sge', 0), ('sgt', M), ('ule', H), ('ult', H + 1)): return -1
    if same(y, d, w) and (p, j) in (('sgt', 0), ('sge', M), ('ult', H), ('ule', H + 1)): return 1
    if same(y, d, w) and (p, j) in (('sle', 0), ('slt', M), ('uge', H), ('ugt', H + 1)): return -1
    if same(x, n, w) and (p, k) in (('sgt', 0), ('sge', 1)): return 1
    if same(x, n, w) and (p, k) in (('sle', 0), ('slt', 1)): return -1
    if same(y, n, w) and (p, j) in (('slt', 0), ('sle', 1)): return 1
    if same(y, n, w) and (p, j) in (('sge', 0), ('sgt', 1)): return -1
    return None
def numbers(ck, f, cfg, t, w):
    W = w // 8
    def ob(s, ok, more=''): ck.obligation('%s (%s) [%s]' % (s, t, cfg), ok, str(more)[:300])
    def go(n):
        fn = f.get('w_%s_%s' % (n, t))
        if fn is None: raise Missing('%s of numbers of type %s' % (n, t))
        ps = paths(fn, widths=True); ck.stats['functions'] += 1; ck.stats['paths'] += len(ps)
        ps = [p for p in ps if p[0] != 'abort']
        if not ps: raise Missing('no path of %s' % n)
        if any(p[0] == 'unwind' for p in ps): ob(n + ' does not throw', False); return []
        return ps
    def src(evs, root):
        """numbers read from an object, by offset"""
        r = {}
        for e in evs:
            if e.kind == 'load' and e.root == root: r.setdefault(e.off, strip(e.res))
        return r
    # differences
    for k, r, st, evs in go('diff'): ob('the difference is the difference', same(r, mk_op('sub', A, B, w), w), r)
    for k, r, st, evs in go('prec'):
        if r[0] == 'c': v = [before_(q, w) * (1 if b else -1) for q, b in st.tr.items() if before_(q, w)]; ob('a number precedes another if their difference is negative', v and all((x > 0) == bool(r[1]) for x in v), (r, st.tr))
        else: ob('a number precedes another if their difference is negative', before_(r, w) == 1, r)
    # ranges
    o = {}
    for k, r, st, evs in go('make'):
        m = fields(st, ('arg', 0)); o = unpack(m, w) if 0 in m and W not in m else m
        b = [x for x, v in o.items() if same(v, ('argv', 1), w)]; e = [x for x, v in o.items() if same(v, ('argv', 2), w)]
        ob('a range keeps its two ends', len(b) == 1 and len(e) == 1, o)
    if ck.viol: return
    BO, EO = b[0], e[0]
    def rng(st, root):
        m = fields(st, root)
        if w < 64 and not (BO in m and EO in m and not (m[min(BO, EO)][0] == 'op' and m[min(BO, EO)][1] == 'or')):
            u = unpack({0: m.get(0)} if m.get(0) is not None else {}, w)
            lo, hi = (0, W)
            return (u.get(lo), u.get(hi)) if BO < EO else (u.get(hi), u.get(lo))
        return m.get(BO), m.get(EO)
    def ends(evs, root=('arg', 0)):
        s = src(evs, root); return s.get(BO), s.get(EO)
    for k, r, st, evs in go('none'): m = fields(st, ('arg', 0)); bb, ee = rng(st, ('arg', 0)); ob('a default range is empty', (bb is not None and ee is not None and lineq(bb, ee, w)) or m.get(0) == C(0), m)
    for n, what in (('front', 'b'), ('back', 'e-1'), ('begin', 'b'), ('end', 'e'), ('size', 'e-b')):
        for k, r, st, evs in go(n):
            b, e = ends(evs); want = None
            if what == 'b': want = b
            elif what == 'e': want = e
            elif what == 'e-1': want = e and lin(e, -1, w)
            elif b and e: want = mk_op('sub', e, b, w)
            ob('%s of a range' % n, want is not None and same(r, want, w), (r, b, e))
    for k, r, st, evs in go('empty'):
        b, e = ends(evs); q = b and e and mk_cmp('eq', b, e, w); d = None if not q else (strip(r) == q or strip(r) == mk_cmp('eq', e, b, w))
        if r[0] == 'c' and q: d = (st.ev(q) if st.ev(q) is not None else st.ev(mk_cmp('eq', e, b, w))) == bool(r[1])
        if not d and q and r[0] == 'cmp' and r[1] == 'eq' and r[3] == C(0): d = lineq(r[2], mk_op('sub', e, b, w), w) or lineq(r[2], mk_op('sub', b, e, w), w)
        ob('a range is empty if its ends are the same', d, r)
    for k, r, st, evs in go('at'): b, e = ends(evs); ob('an element of a range', b is not None and same(r, mk_op('add', b, ('argv', 1), w), w), r)
    cnt = ('argv', 2)
    for n in ('first', 'skip'):
        for k, r, st, evs in go(n):
            b, e = ends(evs, ('arg', 1)); nb, ne = rng(st, ('arg', 0))
            if not b or not e or nb is None or ne is None: ob('%s of a range' % n, False, fields(st, ('arg', 0))); continue
            fix, mov = (nb, ne) if n == 'first' else (ne, nb)
            ob('%s keeps the %s end' % (n, 'first' if n == 'first' else 'last'), same(fix, b if n == 'first' else e, w), (fix, b, e))
            d = minus(mov, b, w); size = mk_op('sub', e, b, w); ok = False
            if len(d) == 1 and None not in d:
                (x, c), = d.items()
                ok = c == 1 and x[0] == 'op' and x[1] == 'umin' and any(p == cnt and lineq(q, size, w) for p, q in ((x[2], x[3]), (x[3], x[2])))
            le = lambda p, q: any(y[0] == 'cmp' and y[1] in ('ult', 'ugt', 'ule', 'uge') and ((lineq(y[2], p, w) and lineq(y[3], q, w) and ((y[1] in ('ult', 'ule') and v) or (y[1] == 'ugt' and not v))) or (lineq(y[2], q, w) and lineq(y[3], p, w) and ((y[1] in ('ugt', 'uge') and v) or (y[1] == 'ult' and not v)) ) or (y[1] == 'uge' and lineq(y[2], q, w) and lineq(y[3], p, w) and v) or (y[1] == 'ule' and not v and lineq(y[2], q, w) and lineq(y[3], p, w))) for y, v in st.tr.items())
            if not ok: ok = (d == linear(cnt, w) and le(cnt, size)) or (d == linear(size, w) and le(size, cnt))
            ob('%s counts no further than the range goes' % n, ok, (d, st.tr))
    # iterators
    for n, delta, new in (('inc', 1, 1), ('dec', -1, -1), ('pinc', 0, 1), ('pdec', 0, -1)):
        for k, r, st, evs in go(n):
            s = src(evs, ('arg', 0)).get(0); m = st.mem.get((('arg', 0), 0))
            ob('%s of an iterator' % n, s is not None and same(r, lin(s, delta, w), w) and m is not None and same(m[1], lin(s, new, w), w), (r, m))
    for k, r, st, evs in go('get'): ob('an iterator is its number', same(r, src(evs, ('arg', 0)).get(0, C(0)), w), r)
    for k, r, st, evs in go('arrow'): ob('an iterator points to its number', norm_ptr(r) == (('arg', 0), 0), r)
    for n, op in (('plus', 'add'), ('minus', 'sub')):
        for k, r, st, evs in go(n): s = src(evs, ('arg', 0)).get(0); ob('iterator %s' % n, s is not None and same(r, mk_op(op, s, ('argv', 1), w), w), r)
    for n in ('dist', 'eq', 'ne'):
        for k, r, st, evs in go(n):
            x, y = src(evs, ('arg', 0)).get(0), src(evs, ('arg', 1)).get(0)
            if x is None or y is None: ob('comparing iterators', False, r)
            elif n == 'dist': ob('distance of iterators', same(r, mk_op('sub', x, y, w), w), r)
            else: q = mk_cmp('eq', x, y, w); v = st.ev(q); ob('comparing iterators (%s)' % n, (v is not None and r == C(int(v == (n == 'eq')))) or strip(r) in ((mk_cmp(n, x, y, w), mk_cmp(n, y, x, w))), r)
def decisions(ck):
    """no position is compared with another except by the ordering"""
    for unit, pr in (('m08.cpp', getattr(m08, 'PRIMS', HANDLE_PRIMS)), ('m09.cpp', m09.PRIMS), ('m10.cpp', m10.PRIMS)):
        for cfg, f in ck.ir(unit, pr).items():
            sizes = set(); total = 0
            # where sizes and counts are kept (they are not positions)
            for n in ('w_ctor', 'w_cn', 'w_an'):
                if n in f and unit != 'm08.cpp': sizes |= {o for k, r, s in probe(f[n]).exits if k == 'ret' for o, v in fields(s, ('arg', 0)).items() if set(linear(v)) - {None} == {('argv', 2)}}
            for n in sorted(f):
                if n in ('w_ctor', 'w_8ctor') or n.startswith('w_8'): continue
                fn = f[n]; ck.stats['functions'] += 1; defs = {i['id']: i for b in fn.blocks for i in b if i.get('id') is not None}
                for what, a, b, ins in comparisons(fn):
                    total += 1; da, db = degree(a, defs, n, sizes, {}), degree(b, defs, n, sizes, {})
                    cut = [d for t in (a, b) for d in (narrowed(t, defs),) if d is not None and degree(d, defs, n, sizes, {}) is not None]
                    pos = any(d not in (0, None) for d in (da, db)); l = (ins.get('loc') or [['', 0, '']])[0]
                    ck.obligation('%s %s: comparison %d is of distances, not of positions [%s]' % (unit, n, total, cfg), not pos and not cut, '%s of positions %s and %s%s in %s at %s:%s' % (what, da, db, ' cut to fewer bits' if cut else '', l[2], os.path.basename(l[0]), l[1]))
            ck.notes.append('%s [%s]: %d relational comparisons of numbers' % (unit, cfg, total))
def comparisons(fn):
    for b in fn.blocks:
        for i in b:
            if i['op'] == 'icmp' and i['pred'] not in ('eq', 'ne') and i['st'] != 'ptr': yield i['pred'], i['a'][0], i['a'][1], i
            m = re.match(r'llvm\.([us](?:min|max))\.', i.get('callee') or '') if i['op'] in ('call', 'invoke') else None
            if m: yield m[1], i['a'][0], i['a'][1], i
def narrowed(t, defs, depth=0):
    """the number a comparison sees only some bits of"""
    i = defs.get(t.get('n')) if t['k'] == 'v' else None
    if i is None or depth > 6: return None
    if i['op'] == 'trunc' and i['t'] != 'i1' and (i['st'] == 'i64'): return i['a'][0]
    if i['op'] in ('sext', 'zext', 'add', 'sub'): return next((r for x in i['a'] for r in (narrowed(x, defs, depth + 1),) if r is not None), None)
    return None
def degree(t, defs, n, sizes, seen):
    """how many positions a number adds up (1: a position, 0: a distance or a count, None: neither or not known)"""
    if t['k'] == 'c': return 0
    if t['k'] == 'a': return None if n in ('w_an', 'w_cn') else 1
    i = defs.get(t.get('n')) if t['k'] == 'v' else None
    if i is None: return None
    if i['id'] in seen: return seen[i['id']]
    seen[i['id']] = None; g = lambda k: degree(i['a'][k], defs, n, sizes, seen); op = i['op']; r = None
    if op == 'load' and i['t'] == 'i64':
        p = i['a'][0]; q = defs.get(p.get('n')) if p['k'] == 'v' else None
        off = q.get('off', 0) if q is not None and q['op'] == 'getelementptr' else 0
        r = None if off in sizes and not (q or {}).get('var') else 1
    elif op in ('add', 'sub'):
        a, b = g(0), g(1); r = None if a is None or b is None else a + b if op == 'add' else a - b
    elif op == 'xor' and any(x['k'] == 'c' and x['v'] in (-1, (1 << 64) - 1) for x in i['a']): r = g(1 if i['a'][0]['k'] == 'c' else 0); r = None if r is None else -r
    elif op in ('freeze', 'sext', 'zext', 'trunc'): r = g(0)
    elif op == 'select':
        a, b = g(1), g(2); r = a if a == b or b is None else b if a is None else None
    elif op == 'phi':
        v = {d for _, x in i['a'] for d in (degree(x, defs, n, sizes, seen),) if d is not None}; r = v.pop() if len(v) == 1 else None
    elif op in ('call', 'invoke'):
        c = (i.get('dem') or '') + (i.get('callee') or '')
        if 'difference' in c: r = 0
        elif re.search(r'llvm\.[us](min|max)', c):
            a, b = g(0), g(1); r = a if a == b else None
        elif i.get('t') == 'i64' and 'exchange' not in c: r = 1 if 'last_published' in c else None
    elif op in ('atomicrmw', 'extractvalue'): r = 1 if i['t'] == 'i64' else None
    seen[i['id']] = r; return r
if __name__ == '__main__': main(run, 'M25')
