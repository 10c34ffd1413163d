"""Intrusive lists of waiting coroutines: what happens to every record of a chain that was taken."""
from common import *

class Ch(tuple):
    """chain: (kind, position, key, disposed).  kind: raw | due | early | own | mixed"""
    __slots__ = ()
def nid(t):
    """a value as the identity of a record"""
    return t[1] if t[0] == 'p' and t[2] == 0 else strip(t)
def put(fs, *x): return fs | frozenset(x)
def drop(fs, f): return frozenset(x for x in fs if not f(x))

class Walk(Rule):
    """Every record of a taken chain is disposed of exactly once: control is handed to it (grant), or it is
    linked into a list that is handed back.  A record's link is read before control is handed to it and
    nothing of it is touched afterwards.  Lists are terminated before they are walked or handed back."""
    gens = 5; slim = 'all'
    def __init__(self, NX, H, obj, A, K=None, FLAG=None, own=None):
        self.NX, self.H, self.obj, self.A, self.K, self.FLAG, self.own = NX, H, obj, A, K, FLAG, own
        self.n = dict(grant=0, link=0, back=0, seen=0)
    # ts = (x, chains, pend, gone, opened, handles, kept)
    #   chains   frozenset of (kind, pos, key, disposed)
    #   pend     records passed over and not yet disposed of: (node, kind)
    #   gone     records control was handed to / that were handed back
    #   opened   lists being built: (key, kind, tail, status) key = local cell; status open | closed | ('closed', expected)
    #   handles  (node, value) handle loaded from it ; flag results ('flag', node, old)
    def mk(self, x): return (x, frozenset(), frozenset(), frozenset(), frozenset(), frozenset())
    def init(self, fn, flow): return self.mk(self.x0(fn))
    def x0(self, fn): return ()
    def due(self, st, n): return True
    def isnull(self, st, t):
        t = strip(t)
        if t[0] in ('arg', 'al'): return False
        return True if t == C(0) else st.ev(mk_cmp('eq', t, C(0)))
    def take(self, ts, old, kind='raw'):
        x, ch, pend, gone, op, hs = ts
        return (x, put(ch, (kind, nid(old), None, False)), pend, gone, op, hs)
    def kind(self, st, node, kind, cx, ev):
        """kind of a record, by what is known about its target"""
        if kind in ('due', 'early', 'mixed'): return kind
        d = self.due(st, node)
        if d is True: return 'due'
        if d is False or kind == 'own': return 'early'
        cx.violate(st, 'a waiter is sorted without having compared its target with what was published', ev); return 'mixed'
    def find(self, ts, node):
        """('chain', c) | ('pend', p) | None"""
        for c in ts[1]:
            if c[1] == node: return 'chain', c
        for p in ts[2]:
            if p[0] == node: return 'pend', p
        return None
    def dispose(self, ts, w):
        x, ch, pend, gone, op, hs = ts
        if w[0] == 'chain': c = w[1]; ch = put(ch - {c}, (c[0], c[1], c[2], True))
        else: pend = pend - {w[1]}
        return (x, ch, pend, gone, op, hs)
    def disposed(self, ts, node):
        w = self.find(ts, node)
        return w is not None and w[0] == 'chain' and w[1][3]
    def walk(self, st, ev, cx):
        """the list part of an event; returns new ts or None if not concerned"""
        ts = st.ts; x, ch, pend, gone, op, hs = ts
        r, o = (norm_ptr(ev.ptr) if ev.ptr is not None else (None, None))
        if r is not None:
            node = r
            if ev.kind in ('load', 'store', 'rmw', 'cmpxchg') and node in gone: cx.violate(st, 'touches the record of a waiter after it was handed over', ev); return ts
        if ev.kind == 'load' and o == self.NX:
            for c in ch:
                if c[1] == r:
                    if self.isnull(st, r) is True: cx.violate(st, 'walks past the end of the list', ev)
                    pend2 = pend if c[3] else put(pend, (r, c[0]))
                    if len(pend2) > 1: cx.violate(st, 'passes over a waiter without resuming or keeping it', ev)
                    self.n['seen'] += 1
                    return (x, put(ch - {c}, (c[0], nid(ev.res), c[2], False)), pend2, gone, op, hs)
            return None
        if ev.kind == 'load' and o == self.H and r is not None and (self.find(ts, r) or any(q[0] == 'flag' and q[1] == r for q in hs) or (self.own is not None and r == self.own)): return (x, ch, pend, gone, op, put(hs, ('h', r, strip(ev.res))))
        if ev.kind == 'load' and r is not None:
            for l in op:
                if l[0] == (r, o):
                    v = nid(ev.res); c = next((c for c in ch if c[2] == l[0]), None)
                    if c is not None and (c[1] == v or v == C(0) or any(p[0] == v for p in pend) or v in gone or any(q[1] == v for q in hs)): return None
                    if l[3] == 'open': cx.violate(st, 'uses a list of waiters that is not terminated', ev)
                    # from here on it is a chain of that kind
                    ch = drop(ch, lambda c: c[2] == l[0])
                    return (x, put(ch, (l[1], nid(ev.res), l[0], False)), pend, gone, op, hs)
            return None
        if ev.kind == 'store' and (r, o) != (None, None) and ev.op is None:
            v = nid(ev.val); w = self.find(ts, v) if v != C(0) else None
            tail = next((l for l in op if l[2] == (r, o)), None)
            if tail is not None:
                if v == C(0): return (x, ch, pend, gone, put(op - {tail}, (tail[0], tail[1], tail[2], 'closed')), hs)
                if w is None or (w[0] == 'chain' and w[1][2] is not None):
                    # what the shared list held: the rest of it follows
                    return (x, ch, pend, gone, put(op - {tail}, (tail[0], tail[1], tail[2], ('closed', v))), hs)
            if w is not None and w[0] == 'chain' and w[1][2] == (r, o): return None      # the head of a list moves on
            if v == C(0) and any(c[2] == (r, o) for c in ch): return None
            if w is not None and r is not None and r[0] == 'al':
                ts = self.new(st, ts, w, v, (r, o), cx, ev); return ts
            if tail is not None and w is not None:
                k = self.kind(st, v, w[1][0] if w[0] == 'chain' else w[1][1], cx, ev)
                if w[0] == 'chain' and w[1][3]: cx.violate(st, 'puts a waiter into two lists', ev)
                if tail[1] not in (k, 'empty'): cx.violate(st, 'mixes waiters that are due with waiters that are not', ev)
                ts = self.dispose(ts, w); x, ch, pend, gone, op, hs = ts; self.n['link'] += 1
                return (x, ch, pend, gone, put(op - {tail}, (tail[0], k, (v, self.NX), 'open')), hs)
            # a list cell emptied
            if v == C(0) and r is not None and r[0] == 'al':
                return (x, ch, pend, gone, put(drop(op, lambda l: l[0] == (r, o)), ((r, o), 'empty', (r, o), 'closed')), hs)
            if o == self.NX and self.find(ts, r):
                # pushed in front of a list kept in a register
                w = self.find(ts, r)
                front = self.find(ts, v) if v != C(0) else None
                if v == C(0) or (front and front[0] == 'chain' and front[1][2] == 'reg'):
                    k = self.kind(st, r, w[1][0] if w[0] == 'chain' else w[1][1], cx, ev)
                    if w[0] == 'chain': cx.violate(st, 'overwrites the link of a waiter before reading it', ev)
                    if front and front[1][0] != k: cx.violate(st, 'mixes waiters that are due with waiters that are not', ev)
                    ts = self.dispose(ts, w); x, ch, pend, gone, op, hs = ts; self.n['link'] += 1
                    if front: ch = ch - {front[1]}
                    return (x, put(ch, (k, r, 'reg', False)), pend, gone, op, hs)
            return None
        if self.FLAG is not None and ev.kind in ('rmw', 'cmpxchg') and o == self.FLAG and self.find(ts, r):
            ho = handover(st, ev)
            if ho is None: return ts
            nv, ho, old = ho
            w = self.find(ts, r)
            if w[0] == 'chain': cx.violate(st, 'hands control to a waiter before reading its link', ev)
            kd = self.kind(st, r, w[1][0] if w[0] == 'chain' else w[1][1], cx, ev)
            if kd != 'due': cx.violate(st, 'releases a waiter whose target has not been reached', ev)
            if nv not in (C(1), C(-1)): cx.violate(st, 'the hand-over mark is not set', ev)
            if ho not in REL and old != C(1): cx.violate(st, 'the hand-over does not release what the waiter will read (ordering %s)' % ev.ord, ev)
            self.granted(st, r, ev, cx)
            ts = self.dispose(ts, w); x, ch, pend, gone, op, hs = ts; self.n['grant'] += 1
            return (x, ch, pend, gone, op, put(hs, ('flag', r, old, 0)))
        if is_resume(ev):
            h = strip(ev.args[0])
            for q in hs:
                if q[0] == 'h' and q[2] == h:
                    node = q[1]; fl = next((f for f in hs if f[0] == 'flag' and f[1] == node), None)
                    if self.FLAG is not None:
                        if fl is None: cx.violate(st, 'resumes a waiter that may not have suspended yet', ev); return ts
                        if flag(st, fl[2]) is not True: cx.violate(st, 'resumes a waiter without knowing that it suspended', ev)
                        return (x, ch, pend, put(gone, node), op, hs - {q, fl})
                    w = self.find(ts, node)
                    if w is None: cx.violate(st, 'resumes a waiter twice', ev); return ts
                    if w[0] == 'chain': pend = pend
                    self.granted(st, node, ev, cx)
                    ts = self.dispose(ts, w); x, ch, pend, gone, op, hs = ts; self.n['grant'] += 1
                    return (x, ch, pend, put(gone, node), op, hs - {q})
            cx.violate(st, 'resumes something that is not a registered waiter', ev); return ts
        return None
    def nodes(self, ts):
        x, ch, pend, gone, op, hs = ts
        return {c[1] for c in ch} | {p[0] for p in pend} | gone | {q[1] for q in hs} | {l[2][0] for l in op}
    def prune(self, st, live):
        x, ch, pend, gone, op, hs = st.ts
        for c in ch:
            if c[1] == C(0) or self.isnull(st, c[1]) is True:
                l = next((l for l in op if l[0] == c[2]), None) if c[2] is not None else None
                if l is None and c[0] != 'own': ch = ch - {c}
                elif l is not None and l[3] == 'closed': ch = ch - {c}; op = op - {l}
        # of records already sorted only the link matters
        sorting = {c[1] for c in ch if c[0] == 'raw'} | {p[0] for p in pend}; heads = {c[1] for c in ch} | {q[1] for q in hs} | gone
        st.mem = {k: v for k, v in st.mem.items() if k[0][0] != 's' or k[0] in sorting or k[0] in heads and k[1] in (self.NX, self.H, self.K) or k[0] not in self.nodes(st.ts)}
        hs = frozenset(q for q in hs if not (q[0] == 'flag' and flag(st, q[2]) is False))
        return (x, ch, pend, frozenset(n for n in gone if n in live), op, frozenset(q for q in hs if q[1] in live or q[0] == 'flag'))
    def granted(self, st, node, ev, cx): pass
    def new(self, st, ts, w, v, cell, cx, ev):
        """first record of a list whose head is a local variable"""
        k = self.kind(st, v, w[1][0] if w[0] == 'chain' else w[1][1], cx, ev)
        if w[0] == 'chain' and w[1][3]: cx.violate(st, 'puts a waiter into two lists', ev)
        old = next((l for l in ts[4] if l[0] == cell), None)
        if old and old[1] != 'empty': cx.violate(st, 'drops a list of waiters', ev)
        ts = self.dispose(ts, w); x, ch, pend, gone, op, hs = ts; self.n['link'] += 1
        return (x, ch, pend, gone, put(drop(op, lambda l: l[0] == cell), (cell, k, (v, self.NX), 'open')), hs)
    def back(self, st, ev, cx, val, exp):
        """a list is handed back: CAS of the shared head from exp to val"""
        ts = st.ts; x, ch, pend, gone, op, hs = ts
        v = nid(val)
        c = next((c for c in ch if c[1] == v and c[2] is not None), None)
        if c is None and v == self.own and any(x[0] == 'own' and x[1] == v for x in ch):
            m = st.mem.get((v, self.NX))
            if m is None or st.ev(mk_cmp('eq', m[1], exp)) is not True: cx.violate(st, 'waiters registered meanwhile are dropped from the list', ev)
            self.n['back'] += 1
            return (x, drop(ch, lambda c: c[1] == v), pend, gone, op, hs)
        if c is None:
            l = next((l for l in op if (m := st.mem.get(l[0])) is not None and nid(m[1]) == v), None)
            if l is not None: c = (l[1], v, l[0], False)
        if c is None: cx.violate(st, 'something other than a list of waiting records is made the list', ev); return ts
        if c[0] == 'due': cx.violate(st, 'puts waiters back although their target was reached', ev)
        l = next((l for l in op if l[0] == c[2]), None)
        e = strip(st.canon(exp))
        if l is not None:
            if l[3] == 'open': cx.violate(st, 'hands back a list that is not terminated', ev)
            end = C(0) if l[3] in ('closed', 'open') else l[3][1]
            if l[3] != 'open' and mk_cmp('eq', st.subst(end), st.subst(e)) != TRUE and st.ev(mk_cmp('eq', end, e)) is not True: cx.violate(st, 'waiters registered meanwhile are dropped from the list', ev)
            op = op - {l}
        self.n['back'] += 1
        return (x, drop(ch - {c}, lambda c: c[0] == 'own' and c[3]), pend, gone, op, hs)
    def done(self, st, cx):
        """at an exit: nothing left over"""
        x, ch, pend, gone, op, hs = st.ts
        for c in ch:
            if c[0] == 'own' and c[3]: continue
            if self.isnull(st, c[1]) is not True: cx.violate(st, 'waiters taken from the list are forgotten', cx._ev)
        for p in pend: cx.violate(st, 'a waiter taken from the list is forgotten', cx._ev)
        for l in op:
            if l[1] == 'empty': continue
            if not any(c[2] == l[0] for c in ch): cx.violate(st, 'a list of waiters is neither resumed nor put back', cx._ev)
        for q in hs:
            if q[0] == 'flag' and flag(st, q[2]) is not False: cx.violate(st, 'a suspended waiter is not resumed although it was its turn', cx._ev)

def bit(t):
    """truth of a flag value read back as an integer or a boolean"""
    if is_bool(t): return t
    if t[0] == 'zx': return bit(t[1])
    return mk_cmp('ne', t, C(0), 8)

def handover(st, ev):
    """a step on the hand-over mark: what it leaves, its ordering, and what it was before (None: no step)"""
    if ev.kind == 'rmw': return st.subst(ev.res), ev.ord, strip(ev.old)
    if ev.ok: return st.subst(ev.val), ev.ord, strip(ev.exp)
    # told apart by an exchange that fails: the other side was there first
    if not ev.ins['weak'] and ev.exp in (C(0), FALSE): return C(1), ev.ford, C(1)
    return None

def flag(st, t):
    r = st.ev(bit(t))
    return st.ev(mk_cmp('ne', mk_op('and', strip(t), C(1), 8), C(0), 8)) if r is None else r

PREC = lambda a, b: ('pc', 'VTr::precedes(unsigned long, unsigned long)', strip(a), strip(b))
DIFF = lambda a, b: ('pc', 'VTr::difference(unsigned long, unsigned long)', strip(a), strip(b))
SUB = lambda a, b: mk_op('sub', a, b, 64)      # the library's own traits
def before(st, a, b, diff=DIFF):
    """a precedes b, by what the branches taken say (None: not compared)"""
    DIFF = diff; r = st.ev(PREC(a, b))
    if r is None: r = st.ev(mk_cmp('slt', DIFF(a, b), C(0)))
    if r is None: r = st.ev(mk_cmp('sgt', DIFF(b, a), C(0)))
    return r

def compared(st, live):
    """numbers whose comparison with a value still in use is known"""
    out = set()
    for k in st.tr:
        if k[0] == 'cmp' and k[1] == 'slt':
            if k[2] in live: out.add(k[3])
            if k[3] in live: out.add(k[2])
    return out

class Sorter(Walk):
    """waiters with targets, compared through the traits; pubs(x) = sequence numbers known to be published"""
    diff = staticmethod(DIFF)
    def __init__(self, TO, *a, **k): super().__init__(*a, **k); self.TO = TO
    def pure_call(self, dem, cal): return (dem or '').startswith('VTr::')
    def pubs(self, x): return ()
    def target(self, st, n):
        c = st.mem.get((n, self.TO)); return None if c is None else strip(c[1])
    def due(self, st, n):
        t = self.target(st, n)
        if t is None: return None
        for s in self.pubs(st.ts[0]):
            r = before(st, s, t, self.diff)
            if r is not None: return not r
        return None
    def granted(self, st, n, ev, cx):
        x, ch, pend, gone, op, hs = st.ts
        if self.K is not None:
            c = st.mem.get((n, self.K))
            if c is None or strip(c[1]) not in self.pubs(x): cx.violate(st, 'the waiter is not told what was published', ev)
        for c in ch:
            if c[0] != 'due' and c[0] != 'own' and self.isnull(st, c[1]) is not True: cx.violate(st, 'resumes a waiter while others are neither sorted nor put back', ev)
        for l in op:
            if l[1] in ('early', 'mixed') and not any(c[2] == l[0] and self.isnull(st, c[1]) is True for c in ch): cx.violate(st, 'resumes a waiter before the others were put back', ev)
