from common import *
from waitlist import *
from m08 import ReadyBy, Add as Add8
MAXD = C((1 << 63) - 1)

def slot_of(ptr, base, mask):
    """which number's slot an address is (None: not a slot of the table)"""
    r, o = norm_ptr(ptr)
    if o != 0 or r[0] != 'gep' or r[2] != 0 or strip(r[1]) != strip(base) or len(r[3]) != 1 or r[3][0][1] != 8: return None
    t = strip(r[3][0][0])
    if t[0] == 'op' and t[1] == 'and':
        for a, b in ((t[2], t[3]), (t[3], t[2])):
            if mask is not None and strip(a) == strip(mask): return strip(b)
    return ('wild',)

class Mp(Sorter):
    """x: what a call on the multi producer sequencer did so far"""
    N = ['stage', 'pubs', 'bounds', 'pd', 'verdict', 'h', 'bar', 'mark', 'look', 'below', 'tab', 'mask', 'took', 'base']
    def __init__(self, MK, TB, publishing, *a, **k):
        super().__init__(*a, **k); self.MK, self.TB, self.P = MK, TB, publishing; self.v = dict(susp=0, cont=0); self.looks = 0
    def x0(self, fn): return ('start', (), 'own', None, None, None, ('arg', 0) if self.P else None, None, None, None, None, None, False, None)
    def init(self, fn, flow):
        ts = self.mk(self.x0(fn))
        return ts if self.P else (ts[0], frozenset({('own', ('arg', 0), None, False)})) + ts[2:]
    def g(self, st, n): return st.ts[0][self.N.index(n)]
    def X(self, st, ts=None, **k):
        c = list(st.ts[0])
        for kk, v in k.items(): c[self.N.index(kk)] = v
        return (tuple(c),) + (ts or st.ts)[1:]
    def pubs(self, x): return x[1]
    settle = Add8.settle
    def edge(self, st, src, dst, phis, cx):
        pd = self.g(st, 'pd')
        if pd is None or (src, dst) not in cx.fn.back: return st.ts
        return self.X(st, bounds=self.settle(st, self.g(st, 'bounds'), pd), pd=None)
    def prune(self, st, live):
        ts = super().prune(st, live); st.ts = ts
        live = live | {strip(t) for t in live}
        b = self.g(st, 'bounds'); ps = self.g(st, 'pubs'); k = {}
        if isinstance(b, frozenset) and self.g(st, 'pd') is None: k['bounds'] = frozenset(v for v in b if v in live or v[0] == 'c' or v in compared(st, live) or self.g(st, 'base') not in (None, 'mixed') and mk_op('add', self.g(st, 'base'), v, 64) in live)
        # a number nobody can refer to any more tells nothing
        k['pubs'] = tuple(p for p in ps if p in live or p in self.keepers(st) or p == ps[-1])
        return self.X(st, ts, **k)
    def keepers(self, st):
        return {self.g(st, 'below'), self.g(st, 'base')}
    # ---- what is known to be published
    def learn(self, st):
        """a slot was seen to hold exactly the number looked for: it follows a published one"""
        look, pubs = self.g(st, 'look'), self.g(st, 'pubs')
        if look is None or look[2] is None: return self.lower(st)
        s, res, _ = look
        r = st.ev(mk_cmp('eq', res, s))
        if r is True and lin(s, -1) in pubs:
            if s not in pubs: pubs = (pubs + (s,))[-3:]
            below = self.g(st, 'below')
            st.ts = self.X(st, pubs=pubs, look=None, below=('at', s) if below is not None and below == lin(s, -1) else below)
        elif r is False: st.ts = self.X(st, look=(s, res, None))
        # is the newest published number still before everybody put back?
        return self.lower(st)
    def lower(self, st):
        b = self.g(st, 'below')
        if b is not None and b[0] == 'at':
            for E in self.cands(st):
                if st.ev(mk_cmp('eq', b[1], E)) is False: return self.X(st, below=b[1])
        if b is None or b[0] == 'at':
            for p in reversed(self.g(st, 'pubs')):
                if any(before(st, p, E, self.diff) is True for E in self.cands(st)): return self.X(st, below=p)
        return st.ts
    def cands(self, st):
        bounds = self.g(st, 'bounds')
        if bounds == 'own':
            t = self.target(st, ('arg', 0)); return [t] if t is not None else []
        Q = self.g(st, 'base')
        return [mk_op('add', Q, v, 64) for v in bounds] if Q not in (None, 'mixed') else []
    def branch(self, st, cond, val, cx):
        st.ts = self.learn(st)
        if self.g(st, 'stage') == 'reg' and self.cleared(st): st.ts = self.X(st, stage='clear')
        return st.ts
    def cleared(self, st):
        look, below = self.g(st, 'look'), self.g(st, 'below')
        return look is not None and look[2] is None and below is not None and below[0] != 'at' and below == lin(look[0], -1)
    def event(self, st, ev, cx):
        own = ('arg', 0); g = lambda n: self.g(st, n); X = lambda ts=None, **k: self.X(st, ts, **k)
        stage, bar, mark = g('stage'), g('bar'), g('mark')
        if not self.P:
            if is_next(ev):
                if g('verdict') is not None: cx.violate(st, 'suspends twice', ev)
                return X(verdict=strip(ev.args[0]))
            if mark is not None:
                if shared_access(ev, cx): cx.violate(st, 'touches shared state after announcing that it is suspended', ev)
                if is_resume(ev): cx.violate(st, 'resumes after announcing that it is suspended', ev)
                return st.ts
            if ev.kind == 'load' and ev.root == own and bar is None and ev.off == 0: return X(bar=strip(ev.res))
            if ev.kind == 'store' and ev.root == own and strip(ev.val) == strip(ARG(1)):
                if stage != 'start': cx.violate(st, 'stores whom to resume after registering', ev)
                return X(h=ev.off)
            if ev.kind == 'load' and ev.root == own and ev.off == self.K and stage == 'start' and not g('pubs'): return X(pubs=(strip(ev.res),))
            if ev.root == own and ev.off == self.FLAG and ev.kind in ('rmw', 'cmpxchg') and not self.find(st.ts, own):
                ho = handover(st, ev)
                if ho is None: return st.ts
                nv, ho, was = ho
                if nv not in (C(1), C(-1)): cx.violate(st, 'the hand-over mark is not set', ev)
                if stage == 'start': cx.violate(st, 'announces that it is suspended without registering', ev)
                if ho not in ACQ: cx.violate(st, 'continuing does not acquire what was published (ordering %s)' % ho, ev)
                self.settled(st, cx, ev); self.done(st, cx)
                return X(mark=was)
            if ev.root == own and ev.off == self.FLAG and ev.kind in ('load', 'store'): cx.violate(st, 'the hand-over mark is not decided by one atomic step', ev)
        sh = ev.root is not None and ev.root == bar
        if sh and ev.kind == 'load' and ev.off == self.MK: return X(mask=strip(ev.res))
        if sh and ev.kind == 'load' and ev.off == self.TB: return X(tab=strip(ev.res))
        tab, mask = g('tab'), g('mask')
        s = slot_of(ev.ptr, tab, mask) if tab is not None and ev.ptr is not None else None
        if s is not None and ev.kind in ('store', 'rmw', 'cmpxchg'):
            v = strip(ev.val if ev.kind == 'store' or ev.op == 'xchg' else ev.res)
            if not self.P: cx.violate(st, 'waiting writes what was published', ev); return st.ts
            return self.announce(st, ev, cx, s, v)
        if s is not None and ev.kind == 'load':
            if s == ('wild',): cx.violate(st, 'looks at a slot that is not the one of a number', ev); return st.ts
            if ev.ord not in ACQ: cx.violate(st, 'looks at what was published without acquiring it (ordering %s)' % ev.ord, ev)
            if stage == 'reg' and ev.ord != 'seq_cst': cx.violate(st, 'a publication concurrent with the registration can be missed: the look is not ordered after it (ordering %s)' % ev.ord, ev)
            self.looks += 1
            return X(look=(s, strip(ev.res), True))
        if sh and ev.off == self.A and ev.kind == 'load':
            if self.P and stage in ('stored', 'idle'): return X(stage='idle' if ev.ord == 'seq_cst' else stage, look=('head', strip(ev.res), None) if ev.ord == 'seq_cst' else g('look'))
            return st.ts
        if sh and ev.off == self.A and ev.kind == 'store': cx.violate(st, 'the list of waiters is overwritten', ev); return st.ts
        if sh and ev.off == self.A and ev.kind in ('rmw', 'cmpxchg'):
            if ev.kind == 'cmpxchg' and not ev.ok: return st.ts
            old = strip(ev.old if ev.kind == 'rmw' else ev.exp); new = strip(ev.res if ev.kind == 'rmw' else ev.val)
            if new == C(0):
                if self.P and stage == 'start': cx.violate(st, 'takes the waiters before the number is published', ev)
                if ev.ord not in ACQ: cx.violate(st, 'takes the waiters without acquiring their records (ordering %s)' % ev.ord, ev)
                st.ts = self.learn(st)
                t = self.take(st.ts, old); return X(t, stage='taken', bounds=frozenset({MAXD}), pd=None, base=None, below=None, look=None, took=True)
            if not self.P and g('h') is None: cx.violate(st, 'registers before storing whom to resume', ev)
            if ev.ord not in REL: cx.violate(st, 'registering does not release the records (ordering %s)' % ev.ord, ev)
            elif ev.ord != 'seq_cst': cx.violate(st, 'a publication concurrent with the registration can be missed: registering is not ordered before the look (ordering %s)' % ev.ord, ev)
            if old == new: cx.violate(st, 'links a list to itself', ev)
            first = any(c[0] == 'own' or c[1] == own for c in st.ts[1]) and not self.P
            if not first and g('pd') is not None: st.ts = self.X(st, bounds=self.settle(st, g('bounds'), g('pd')), pd=None)
            t = self.back(st, ev, cx, new, old)
            pubs = self.g(st, 'pubs')
            st.ts = self.X(st, t, stage='reg', bounds='own' if first else self.g(st, 'bounds'), below=None if first else (pubs[-1] if pubs else None), look=None)
            return st.ts
        if sh and ev.kind in ('load', 'store') and st.ts[3]: cx.violate(st, 'touches the sequencer after resuming a waiter', ev)
        # what a record says is published was seen published by whoever wrote it
        if ev.kind == 'load' and ev.off == self.K and stage == 'taken' and ev.root is not None and self.find(st.ts, ev.root):
            v = strip(ev.res)
            if v not in g('pubs'): return X(pubs=(g('pubs') + (v,))[-3:])
            return st.ts
        if ev.kind == 'store' and ev.off == self.K and ev.root is not None and ev.root[0] == 's':
            if strip(ev.val) not in g('pubs'): cx.violate(st, 'a waiter is told that something was published which is not known to be', ev)
        if ev.kind == 'store' and stage == 'taken':
            v = nid(ev.val); w = self.find(st.ts, v) if v != C(0) else None
            if w is not None and not (w[0] == 'chain' and w[1][2] is not None) and self.due(st, v) is False:
                t = self.target(st, v)
                P = next((p for p in reversed(g('pubs')) if before(st, p, t, self.diff) is True), None)
                b = self.settle(st, g('bounds'), g('pd')); base = g('base')
                r = self.walk(st, ev, cx)
                return self.X(st, r or st.ts, bounds=b, pd=self.diff(t, P), base=P if base in (None, P) else 'mixed')
        r = self.walk(st, ev, cx)
        return st.ts if r is None else r
    def announce(self, st, ev, cx, s, v):
        if self.g(st, 'stage') != 'start': cx.violate(st, 'publishes twice', ev)
        if v != ('argv', 1) or s != v: cx.violate(st, 'publishes another number or slot than the one given', ev)
        self.ordered(st, ev, cx)
        return self.X(st, stage='stored')
    def ordered(self, st, ev, cx):
        if ev.ord not in REL: cx.violate(st, 'publishing does not release the published data (ordering %s)' % ev.ord, ev)
        elif ev.ord != 'seq_cst': cx.violate(st, 'a wait that registers concurrently can be missed: publishing is not ordered before the look for waiters (ordering %s)' % ev.ord, ev)
    def must(self, st): return True
    def settled(self, st, cx, ev):
        if self.g(st, 'stage') == 'reg' and not self.cleared(st): cx.violate(st, 'leaves waiters in the list that a concurrent publication may have missed', ev)
    def exit(self, st, kind, ret, cx):
        if kind == 'abort': return
        if kind == 'unwind': cx.violate(st, 'leaves by an exception', cx._ev); return
        if self.P:
            stage = self.g(st, 'stage')
            if stage == 'start' and self.must(st): cx.violate(st, 'returns without publishing', cx._ev)
            if stage == 'start': return
            if not self.g(st, 'took'):
                look = self.g(st, 'look')
                if stage != 'idle' or look is None or self.isnull(st, look[1]) is not True: cx.violate(st, 'returns although there may be waiters: no ordered look that finds none', cx._ev); return
            self.settled(st, cx, cx._ev); self.done(st, cx); return
        mark, verdict = self.g(st, 'mark'), self.g(st, 'verdict')
        if mark is None: cx.violate(st, 'decides whether to suspend without the hand-over mark', cx._ev); return
        b = flag(st, mark)
        if verdict == strip(ARG(1)):
            self.v['cont'] += 1
            if b is not True: cx.violate(st, 'continues although nobody released it: it is resumed twice', cx._ev)
        else:
            self.v['susp'] += 1
            if not nobody(verdict): cx.violate(st, 'continues with a coroutine that is not the awaiting one, or with none at all', cx._ev)
            if b is not False: cx.violate(st, 'stays suspended although it was released', cx._ev)

class MpRange(Mp):
    """publishing a range: every number after the first is in its slot before the first one is announced"""
    N = Mp.N + ['begin', 'end', 'cur', 'open']
    def x0(self, fn): return super().x0(fn) + (None, None, None, False)
    def known(self, st):
        b, e = (st.mem.get((('arg', 1), o)) for o in (0, 8))
        return (strip(b[1]) if b else None), (strip(e[1]) if e else None)
    def event(self, st, ev, cx):
        b, e = self.g(st, 'begin'), self.g(st, 'end')
        if b is not None and e is not None and st.ev(mk_cmp('eq', b, e)) is False and st.ev(mk_cmp('eq', DIFF(e, b), C(0))) is True: return DEAD
        if ev.kind == 'load' and ev.root == ('arg', 1) and self.g(st, 'stage') == 'start':
            v = strip(ev.res)
            if ev.off == 0 and self.g(st, 'begin') is None: st.ts = self.X(st, begin=v, cur=lin(v, 1)); return st.ts
            if ev.off == 8 and self.g(st, 'end') is None: return self.X(st, end=v)
        return super().event(st, ev, cx)
    def single(self, st):
        b, e = self.g(st, 'begin'), self.g(st, 'end')
        if b is None or e is None: return False
        n = DIFF(e, b)
        return st.ev(mk_cmp('ult', n, C(2))) is True or st.ev(mk_cmp('eq', n, C(1))) is True or st.ev(mk_cmp('eq', lin(b, 1), e)) is True
    def announce(self, st, ev, cx, s, v):
        b, e, cur = self.g(st, 'begin'), self.g(st, 'end'), self.g(st, 'cur')
        if v != s: cx.violate(st, 'a number is put into the slot of another one', ev); return st.ts
        if self.g(st, 'stage') != 'start': cx.violate(st, 'publishes after the first number of the range was announced', ev); return st.ts
        if v == b:
            if self.must(st): self.firsts += 1
            if not (st.ev(mk_cmp('eq', cur, e)) is True or self.single(st)) and not self.g(st, 'open'): cx.violate(st, 'the first number is announced before all the others are in place', ev)
            self.ordered(st, ev, cx)
            return self.X(st, stage='stored')
        if lineq(v, cur):
            if st.ev(mk_cmp('eq', v, e)) is True or self.single(st): cx.violate(st, 'publishes a number beyond the range', ev)
            self.rest += 1
            return self.X(st, cur=lin(v, 1))
        if b is not None and set(linear(v)) - {None} == set(linear(b)) - {None}: cx.violate(st, 'a number of the range is skipped', ev)
        return self.X(st, open=True)       # an order of filling this rule does not follow
    firsts = rest = 0
    def must(self, st):
        b, e = self.g(st, 'begin'), self.g(st, 'end')
        return b is None or e is None or st.ev(mk_cmp('eq', b, e)) is not True

class After(Rule):
    """the numbers reported as published form a gap free run starting at the known one"""
    slim = 'all'
    def __init__(self, MK, TB): self.MK, self.TB = MK, TB; self.n = 0
    def init(self, fn, flow): return (None, None, (('argv', 1),), None)
    def event(self, st, ev, cx):
        tab, mask, pubs, look = st.ts
        if ev.kind == 'load' and ev.root == ('arg', 0):
            if ev.off == self.MK: return (tab, strip(ev.res), pubs, look)
            if ev.off == self.TB: return (strip(ev.res), mask, pubs, look)
        s = slot_of(ev.ptr, tab, mask) if tab is not None and ev.ptr is not None else None
        if s is not None and ev.kind == 'load':
            if ev.ord not in ACQ: cx.violate(st, 'looks at what was published without acquiring it (ordering %s)' % ev.ord, ev)
            return (tab, mask, pubs, (s, strip(ev.res)))
        return st.ts
    def branch(self, st, cond, val, cx):
        tab, mask, pubs, look = st.ts
        if look is not None:
            s, r = look; q = st.ev(mk_cmp('eq', r, s))
            if q is True and lin(s, -1) in pubs: return (tab, mask, (pubs + (s,))[-3:], None)
        return st.ts
    def exit(self, st, kind, ret, cx):
        if kind != 'ret': return
        tab, mask, pubs, look = st.ts; self.n += 1
        if strip(ret) not in pubs: cx.violate(st, 'reports a number as published that is not known to be', cx._ev)

class Fill(Rule):
    """a new sequencer: exactly the numbers up to the initial one are taken as published"""
    slim = 'all'
    def __init__(self, MK, TB): self.MK, self.TB = MK, TB; self.rets = []; self.n = 0
    def init(self, fn, flow): return (None, None, False)        # table, next number to fill, done
    def pure_call(self, dem, cal): return False
    def event(self, st, ev, cx):
        tab, cur, last = st.ts
        if ev.kind == 'call' and ev.callee == '_Znam' and tab is None: return (strip(ev.res), cur, last)
        if ev.kind == 'store' and ev.root is not None and ev.root[0] == 'gep':
            m = st.mem.get((('arg', 0), self.MK)); t = st.mem.get((('arg', 0), self.TB))
            if m is None or t is None: return st.ts
            mask = strip(m[1])
            s = slot_of(ev.ptr, t[1], mask)
            if s is None: return st.ts
            v = strip(ev.val)
            if s == ('wild',) and v == C(0): return st.ts
            if v != s: cx.violate(st, 'a number is put into the slot of another one', ev); return st.ts
            first = mk_op('sub', ('argv', 3), lin(('argv', 2), -1), 64)
            self.n += 1
            if cur == 'open': return st.ts
            if cur is None and not lineq(v, first):
                if set(linear(v)) - {None} == set(linear(first)) - {None}: cx.violate(st, 'does not start with the oldest number the buffer can hold', ev)
                return (tab, 'open', last)
            if cur is not None and not lineq(v, cur): cx.violate(st, 'a number is skipped', ev)
            return (tab, lin(v, 1), False)
        return st.ts
    def exit(self, st, kind, ret, cx):
        if kind != 'ret': return
        tab, cur, last = st.ts
        self.rets.append((fields(st, ('arg', 0)), tab))
        if cur == 'open': return
        if cur is None: cx.violate(st, 'the slots are not filled', cx._ev); return
        if st.ev(mk_cmp('eq', lin(cur, -1), ('argv', 3))) is not True and st.ev(mk_cmp('eq', cur, lin(('argv', 3), 1))) is not True: cx.violate(st, 'the numbers filled in do not end with the initial one', cx._ev)

class Counter(Rule):
    """the number to claim next only ever moves by adding what is claimed"""
    def __init__(self, off): self.off = off
    def event(self, st, ev, cx):
        if ev.off == self.off and ev.kind in ('store', 'cmpxchg') and ev.root is not None and (ev.root == ('arg', 0) or ev.root[0] == 's'): cx.violate(st, 'the number to claim next is overwritten', ev)
        return st.ts

def roles(ck, f, cfg):
    p = probe(f['w_wait']); st = [s for k, r, s in p.exits if k == 'ret'][0]; out = fields(st, ('arg', 0))
    TO = one([o for o, v in out.items() if v == ('argv', 2)], 'target')
    K = one([o for o, v in out.items() if v == ('argv', 3)], 'known published number')
    F = one({e.off for e in probe_until(f['w_susp_e']).of('rmw', 'cmpxchg') if e.root == ('arg', 0)}, 'hand-over mark')
    ck.obligation('a wait begins not handed over and on its sequencer [%s]' % cfg, out.get(F) == C(0) and strip(out.get(0)) == strip(ARG(1)), str(out))
    ev = probe_until(f['w_susp_e'])
    H = one([e.off for e in ev.of('store') if e.root == ('arg', 0) and strip(e.val) == strip(ARG(1))], 'handle')
    A = one([e.off for e in ev.of('rmw', 'cmpxchg') if e.root != ('arg', 0) and e.root[0] == 's' and e.off != F], 'list of waiters')
    NX = one([e.off for e in ev.of('store') if e.root == ('arg', 0) and e.off not in (H, F, K, TO) and e.size == 8], 'link')
    cs = [s for k, r, s in probe(f['w_copy']).exits if k == 'ret'][0]; cp = fields(cs, ('arg', 0)); src = fields(cs, ('arg', 1))
    ck.obligation('a copied wait keeps sequencer, target and what it knew, and is not handed over [%s]' % cfg, cp.get(F) == C(0) and all(cp.get(o) == src.get(o) and o in src for o in (0, TO, K)), '%s %s' % (cp, src))
    return TO, K, F, H, A, NX

def probe_until(fn):
    p = Probe(); p.slim = 'all'
    try: Flow(fn, p, max_steps=4000).run()
    except TooBig: pass
    return p

def any_free(ck, f, cfg, MK, NC, L):
    """a slot is available exactly if the number one buffer before the next one was released"""
    n = 0
    for k, r, s, evs in paths(f['w_any'], pure_call=lambda dem, cal: (dem or '').startswith('VTr::')):
        if k != 'ret': continue
        nx = [e for e in evs if e.kind == 'load' and e.root == ('arg', 0) and e.off == NC]; mk = s.mem.get((('arg', 0), MK)); ba = s.mem.get((('arg', 0), 0))
        rl = [e for e in evs if e.kind == 'load' and ba is not None and strip(e.root) == strip(ba[1]) and e.off == L]
        if not (len(nx) == 1 and mk is not None and rl): ck.obligation('available slots follow from the claims, the size and what was released [%s]' % cfg, False, str([(e.kind, e.off) for e in evs])); continue
        nx, last, size = strip(nx[0].res), strip(rl[-1].res), lin(strip(mk[1]), 1)
        full = mk_op('add', last, size, 64); n += 1
        def says(t):
            t = strip(t)
            if t[0] == 'zx': return says(t[1])
            if t[0] == 'not':
                v = says(t[1]); return None if v is None else not v
            a = b = None
            if t[0] == 'pc': a, b = t[2], t[3]; op = 'pre' if 'precedes' in t[1] else None
            elif t[0] == 'cmp' and t[2][0] == 'pc' and 'difference' in t[2][1] and t[3][0] == 'c':
                a, b = t[2][2], t[2][3]; op = {('slt', 0): 'pre', ('sle', -1): 'pre', ('sgt', 0): 'post', ('sge', 1): 'post', ('sge', 0): 'notpre', ('sgt', -1): 'notpre', ('sle', 0): 'notpost', ('slt', 1): 'notpost'}.get((t[1], sx(t[3][1])))
            else: op = None
            if op is None: return None
            if op in ('post', 'notpost'): a, b = b, a
            neg = op.startswith('not')
            # precedes(last + size, next): nothing free;  precedes(next, last + size + 1): something free
            if lineq(a, full) and lineq(b, nx): return neg
            if lineq(b, lin(full, 1)) and lineq(a, nx): return not neg
            if lineq(a, last) and lineq(b, mk_op('sub', nx, size, 64)): return neg
            return None
        v = says(r)
        if v is None and strip(r)[0] == 'c':
            for t, q in s.tr.items():
                w = says(t)
                if w is not None: v = (strip(r)[1] != 0) == (w == q)
        ck.obligation('slots are available exactly if the number one buffer before the next was released [%s]' % cfg, v is True, str(r))
        ck.obligation('what was released is acquired [%s]' % cfg, all(e.ord in ACQ for e in rl), '')
    ck.count('answers about available slots [%s]' % cfg, n, 1)
def sx(v): return v - (1 << 64) if v >= 1 << 63 else v

def claims(ck, f, cfg, MK, NC):
    ret = lambda n: [(r, s) for k, r, s in probe(f[n]).exits if k == 'ret']
    size = lambda mask: lin(mask, 1)
    for r, s in ret('w_size'): ck.obligation('the buffer size is the mask plus one [%s]' % cfg, lineq(r, size(s.mem[(('arg', 0), MK)][1])), str(r))
    b = fields(ret('w_bwait')[0][1], ('arg', 0))
    BB = one([o for o, v in b.items() if v == strip(ARG(1))], 'barrier of a claim'); BT = one([o for o, v in b.items() if v == ('argv', 2)], 'target of a claim')
    # up to count: never more than the buffer holds
    for r, s in ret('w_cn'):
        fs = fields(s, ('arg', 0)); v = next((v for o, v in fs.items() if v != strip(ARG(1))), None); n = ('argv', 2); m = s.mem.get((('arg', 1), MK)); m = strip(m[1]) if m else None
        sz = size(m) if m is not None else None
        ok = m is not None and v is not None and (v in (('op', 'umin', sz, n), ('op', 'umin', n, sz)) or v == n and (s.ev(mk_cmp('ult', n, sz)) is True or s.ev(mk_cmp('ult', sz, n)) is False) or v == sz and (s.ev(mk_cmp('ult', n, sz)) is False or s.ev(mk_cmp('ult', sz, n)) is True))
        ck.obligation('claiming up to a count asks for at most the buffer size [%s]' % cfg, ok, str(v))
    for n, rn, sn, single in (('w_a1', 'w_v1', ('w_s1_e', 'w_s1_s'), True), ('w_an', 'w_vn', ('w_sn_e', 'w_sn_s'), False)):
        p = probe(f[n])
        rm = [e for e in p.of('rmw') if e.off == NC]
        ck.obligation('%s: one atomic claim [%s]' % (n, cfg), len(rm) == 1 and rm[0].op == 'add' and not [e for e in p.of('store', 'cmpxchg') if e.off == NC and e.root[0] == 's'], str([(e.kind, e.op) for e in rm]))
        if ck.viol: return
        st = [s for k, r, s in p.exits if k == 'ret'][0]; out = fields(st, ('arg', 0)); old, cnt = strip(rm[0].old), strip(rm[0].val)
        if single: ck.obligation('claiming one takes one [%s]' % cfg, cnt == C(1), str(cnt))
        q = strip(rm[0].root); mask = st.mem.get((q, MK)); cons = st.mem.get((q, 0))
        bar = out.get(BB)
        ck.obligation('%s: waits on the consumers\' barrier [%s]' % (n, cfg), cons is not None and bar == strip(cons[1]), '%s %s' % (bar, cons))
        lastc = lin(mk_op('add', old, cnt, 64), -1) if mask else None
        T = out.get(BT)
        ck.obligation('%s: waits until the last slot claimed was released one buffer ago [%s]' % (n, cfg), mask is not None and T is not None and lineq(T, mk_op('sub', lastc, size(strip(mask[1])), 64)), str(T))
        got = [o for o, v in out.items() if v == old]
        ck.obligation('%s: keeps what was claimed [%s]' % (n, cfg), len(got) == 1, str(out))
        if ck.viol: return
        r, s = ret(rn)[0]
        if single: ck.obligation('a claim yields the number claimed [%s]' % cfg, strip(r) == fields(s, ('arg', 0)).get(got[0]), str(r))
        else:
            ends = [o for o, v in out.items() if lineq(v, mk_op('add', old, cnt, 64))]
            ck.obligation('%s: keeps where the claim ends [%s]' % (n, cfg), len(ends) == 1, str(out))
            if ck.viol: return
            fs, src = fields(s, ('arg', 0)), fields(s, ('arg', 1))
            ck.obligation('a claim yields the range claimed [%s]' % cfg, fs.get(0) == src.get(got[0]) and fs.get(8) == src.get(ends[0]) and 0 in fs and 8 in fs, '%s %s' % (fs, src))
        ck.flow(f['w_r1' if single else 'w_rn'], ReadyBy([o for o, v in b.items() if v[0] == 's'][0], BT), cfg)
        for w in sn:
            for k, r, s in probe(f[w]).exits: pass
            ev = [e for e in probe(f[w]).of('call')]
            fw = [e for e in ev if e.callee.startswith('vf.barrier_suspend')]; nx = [e for e in ev if is_next(e)]
            ok = bool(fw) and all(norm_ptr(e.args[0]) == (('arg', 0), 0) and strip(e.args[1]) == strip(ARG(1)) for e in fw) and len(nx) == 2
            ck.obligation('%s: suspends exactly as the barrier says [%s]' % (w, cfg), ok and {strip(e.args[0]) for e in nx} == {C(1), strip(ARG(1))}, '%s %s' % ([e.args for e in fw], [e.args for e in nx]))

PRIMS = HANDLE_PRIMS + [r'rename vf.barrier_suspend	^macoro::sequence_barrier_wait_operation_base<.*>::await_suspend\(macoro::coroutine_handle<void>\)$']

def run(ck):
    irs = ck.ir('m09.cpp', HANDLE_PRIMS); irc = ck.ir('m09.cpp', PRIMS)
    for cfg, f in irs.items():
        TO, K, F, H, A, NX = roles(ck, f, cfg)
        fs = [s for k, r, s in probe_until(f['w_ctor']).exits if k == 'ret']
        if not fs: raise Broken('constructor does not return')
        c = fields(fs[0], ('arg', 0))
        MK = one([o for o, v in c.items() if v == lin(('argv', 2), -1)], 'mask'); NC = one([e.off for e in probe(f['w_a1']).of('rmw') if e.op == 'add'], 'next to claim')
        TB = one([o for o, v in c.items() if v[0] == 's' and o != A], 'slots')
        fl = Fill(MK, TB); ck.flow(f['w_ctor'], fl, cfg)
        for c, tab in fl.rets: ck.obligation('a sequencer starts without waiters, on its barrier, with its own table [%s]' % cfg, c.get(A) == C(0) and c.get(0) == strip(ARG(1)) and c.get(NC) == lin(('argv', 3), 1), str(c))
        ck.count('slots filled [%s]' % cfg, fl.n, 1)
        p = Mp(MK, TB, True, TO, NX, H, None, A, K, F); ck.flow(f['w_publish'], p, cfg)
        r = MpRange(MK, TB, True, TO, NX, H, None, A, K, F); ck.flow(f['w_publish_range'], r, cfg)
        if not ck.viol:
            ck.count('waiters released, put back and slots looked at by publish [%s]' % cfg, min(p.n['grant'], p.n['link'], p.n['back'], p.looks), 1)
            ck.count('numbers of a range put into place [%s]' % cfg, min(r.firsts, r.rest, r.n['grant'], r.n['back']), 1)
        for n in ('w_susp_e', 'w_susp_m', 'w_susp_s'):
            a = Mp(MK, TB, False, TO, NX, H, None, A, K, F, own=('arg', 0)); ck.flow(f[n], a, cfg)
            if not ck.viol: ck.count('%s suspending and continuing exits, waiters released and put back [%s]' % (n, cfg), min(list(a.v.values()) + [a.n['grant'], a.n['back']]), 1)
        ck.flow(f['w_ready'], ReadyBy(K, TO), cfg)
        af = After(MK, TB); ck.flow(f['w_after'], af, cfg); ck.count('numbers reported as published [%s]' % cfg, af.n, 1)
        for k, rr, st in probe(f['w_resume']).exits:
            if k == 'ret': ck.obligation('the wait yields what is known to be published [%s]' % cfg, strip(rr) == fields(st, ('arg', 0)).get(K), str(rr))
        for n in ('w_publish', 'w_publish_range', 'w_susp_e', 'w_after', 'w_c1', 'w_cn', 'w_size'):
            c = Counter(NC); c.slim = 'all'; ck.flow(f[n], c, cfg)
        claims(ck, irc[cfg], cfg, MK, NC)
        L = one([e.off for e in probe(irc[cfg]['w_any']).of('load') if e.root is not None and e.root[0] == 's'], 'published number of the consumers')
        any_free(ck, irc[cfg], cfg, MK, NC, L)
    ck.assumptions = ['each claimed number is published once, by its claimant', 'a consumer barrier only advances (M08)', 'buffer size is a power of two (asserted in the debug configuration)', 'the numbers in flight stay within one buffer, as claims guarantee']
    ck.finish('typestate dataflow with a list-shape abstraction over the IR of publishing (one number and ranges), waiting, constructing and claiming on the multi producer sequencer, both configurations and handle kinds',
              'publish: value in its own slot before an ordered look for waiters; each waiter taken is compared with its own target, released or put back; whoever is put back is looked after slot by slot up to the earliest target; a number counts as published only if its slot holds it and its predecessor counts; claims: one atomic add, target one buffer behind the last number claimed')
if __name__ == '__main__': main(run, 'M09')
