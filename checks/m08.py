from common import *
from waitlist import *

class Publish(Sorter):
    """store the number, then look for waiters: those it satisfies are released, the others stay registered"""
    def __init__(self, L, *a, **k): super().__init__(*a, **k); self.L = L; self.modes = set()
    def x0(self, fn): return ('start', None, False, False)    # stored ordering | last look | authoritative | taken
    def pubs(self, x): return (strip(('argv', 1)),)
    def event(self, st, ev, cx):
        stored, look, auth, took = st.ts[0]
        def X(*x): return (x + (took,),) + st.ts[1:]
        sh = ev.root == ('arg', 0)
        if sh and ev.off == self.L and ev.kind in ('store', 'rmw'):
            if stored != 'start': cx.violate(st, 'publishes twice', ev)
            v = strip(ev.val if ev.kind == 'store' or ev.op == 'xchg' else ev.res)
            if v != ('argv', 1): cx.violate(st, 'publishes another number than the one given', ev)
            if ev.ord not in REL: cx.violate(st, 'publishing does not release the published data (ordering %s)' % ev.ord, ev)
            return X(ev.ord, look, auth)
        if ev.kind == 'fence' and ev.ord == 'seq_cst' and stored != 'start': return X('seq_cst', look, auth)
        if sh and ev.off == self.A and ev.kind == 'load':
            a = stored == 'seq_cst' and ev.ord == 'seq_cst'
            if a: self.modes.add('sc')
            return X(stored, (strip(ev.res), a), auth or a)
        if sh and ev.off == self.A and ev.kind == 'store': cx.violate(st, 'the list of waiters is overwritten: those registered meanwhile are forgotten', ev); return st.ts
        if sh and ev.off == self.A and ev.kind in ('rmw', 'cmpxchg'):
            if ev.kind == 'cmpxchg' and not ev.ok: return X(stored, (strip(ev.old), False), auth)
            old = strip(ev.old if ev.kind == 'rmw' else ev.exp); new = strip(ev.res if ev.kind == 'rmw' else ev.val)
            if new == C(0):
                if stored == 'start': cx.violate(st, 'takes the waiters before the number is published', ev)
                if ev.ord not in ACQ: cx.violate(st, 'takes the waiters without acquiring their records (ordering %s)' % ev.ord, ev)
                a = ev.ord in REL
                if a and not auth: self.modes.add('rmw')
                t = self.take(st.ts, old); return ((stored, (old, a), auth or a, True),) + t[1:]
            if ev.ord not in REL: cx.violate(st, 'waiters are put back without releasing their records (ordering %s)' % ev.ord, ev)
            return self.back(st, ev, cx, new, old)
        if sh and ev.kind in ('load', 'store') and shared_access(ev, cx) and st.ts[3]: cx.violate(st, 'touches the barrier after resuming a waiter', ev)
        r = self.walk(st, ev, cx)
        return st.ts if r is None else r
    def exit(self, st, kind, ret, cx):
        if kind == 'abort': return
        if kind == 'unwind': cx.violate(st, 'leaves by an exception', cx._ev); return
        stored, look, auth, took = st.ts[0]
        if stored == 'start': cx.violate(st, 'returns without publishing', cx._ev); return
        if not auth: cx.violate(st, 'a wait that registers concurrently with the publication can be missed: the look for waiters is not ordered after it', cx._ev)
        if not took and (look is None or self.isnull(st, look[0]) is not True): cx.violate(st, 'returns although there may be waiters', cx._ev)
        self.done(st, cx)

class Add(Sorter):
    """waiting: register, then look again; whoever is due is released, the others are put back and looked after"""
    def __init__(self, L, need, *a, **k): super().__init__(*a, **k); self.L = L; self.need = need; self.v = dict(susp=0, cont=0); self.NXs = set()
    # x = (stage, published numbers seen, valid bounds, pending difference, verdict, own handle stored, barrier, own mark, number the differences are taken from)
    def x0(self, fn): return ('start', (), 'own', None, None, None, None, None, None)
    def init(self, fn, flow):
        ts = self.mk(self.x0(fn)); return (ts[0], frozenset({('own', ('arg', 0), None, False)})) + ts[2:]
    def pubs(self, x): return x[1]
    def settle(self, st, bounds, pd):
        """the bounds still valid once a waiter at difference pd was put back"""
        if pd is None: return bounds
        if bounds == 'top' or bounds == 'own' or bounds is None: bounds = frozenset()
        mx = C((1 << 63) - 1); out = set()
        for v in bounds:
            if v == mx:
                out.add(pd)
                if st.ev(mk_cmp('slt', pd, mx)) is False: out.add(v)
                continue
            r, q = st.ev(mk_cmp('slt', pd, v)), st.ev(mk_cmp('slt', v, pd))
            if r is False or q is True: out.add(v)
            if r is True or q is False: out.add(pd)
            out |= {('op', 'smin', pd, v), ('op', 'smin', v, pd)}
        return frozenset(out)
    def edge(self, st, src, dst, phis, cx):
        x = st.ts[0]
        if x[3] is None or (src, dst) not in cx.fn.back: return st.ts
        return (x[:2] + (self.settle(st, x[2], x[3]), None) + x[4:],) + st.ts[1:]
    def prune(self, st, live):
        ts = super().prune(st, live); x = ts[0]
        if x[0] != 'start': st.mem = {k: v for k, v in st.mem.items() if k[0] != ('arg', 0) or k[1] in (0, self.TO, self.H) or v[1][0] == 'c'}
        if isinstance(x[2], frozenset) and x[3] is None: x = x[:2] + (frozenset(v for v in x[2] if v in live or v[0] == 'c' or v in compared(st, live)),) + x[3:]
        return (x,) + ts[1:]
    def kind(self, st, node, kind, cx, ev):
        k = super().kind(st, node, kind, cx, ev)
        return k
    def dispose(self, ts, w):
        return super().dispose(ts, w)
    def event(self, st, ev, cx):
        stage, pub, bounds, pd, verdict, h, bar, mark, base = st.ts[0]
        def X(ts=None, **k):
            n = ['stage', 'pub', 'bounds', 'pd', 'verdict', 'h', 'bar', 'mark', 'base']; c = list(st.ts[0])
            for kk, v in k.items(): c[n.index(kk)] = v
            return (tuple(c),) + (ts or st.ts)[1:]
        own = ('arg', 0)
        if is_next(ev):
            if verdict is not None: cx.violate(st, 'suspends twice', ev)
            return X(verdict=strip(ev.args[0]))
        if mark is not None:
            if shared_access(ev, cx): cx.violate(st, 'touches shared state after announcing that it is suspended', ev)
            if is_resume(ev): cx.violate(st, 'resumes after announcing that it is suspended', ev)
            return st.ts
        if ev.kind == 'load' and ev.root == own and bar is None and ev.off == 0: return X(bar=strip(ev.res))
        sh = ev.root is not None and ev.root == bar
        if ev.kind == 'store' and ev.root == own and strip(ev.val) == strip(ARG(1)):
            if stage != 'start': cx.violate(st, 'stores whom to resume after registering', ev)
            return X(h=ev.off)
        if ev.root == own and ev.off == self.FLAG and ev.kind in ('rmw', 'cmpxchg') and not self.find(st.ts, own):
            ho = handover(st, ev)
            if ho is None: return st.ts
            nv, ho, was = ho
            if nv not in (C(1), C(-1)): cx.violate(st, 'the hand-over mark is not set', ev)
            if stage == 'start': cx.violate(st, 'announces that it is suspended without registering', ev)
            if ho not in ACQ: cx.violate(st, 'continuing does not acquire what was published (ordering %s)' % ho, ev)
            self.settled(st, cx, ev)
            self.done(st, cx)
            return X(mark=was)
        if ev.root == own and ev.off == self.FLAG and ev.kind in ('load', 'store'): cx.violate(st, 'the hand-over mark is not decided by one atomic step', ev)
        if sh and ev.off == self.L and ev.kind == 'load':
            if ev.ord not in ACQ: cx.violate(st, 'looks at what was published without acquiring it (ordering %s)' % ev.ord, ev)
            ok = ev.ord == 'seq_cst' or self.need == 'rmw'
            if stage == 'reg' and not ok: cx.violate(st, 'a publication concurrent with the registration can be missed: the look is not ordered after it', ev)
            return X(stage='looked' if stage == 'reg' else stage, pub=(pub + (strip(ev.res),))[-2:])
        if sh and ev.off == self.A and ev.kind == 'store': cx.violate(st, 'the list of waiters is overwritten', ev); return st.ts
        if sh and ev.off == self.A and ev.kind in ('rmw', 'cmpxchg'):
            if ev.kind == 'cmpxchg' and not ev.ok: return st.ts
            old = strip(ev.old if ev.kind == 'rmw' else ev.exp); new = strip(ev.res if ev.kind == 'rmw' else ev.val)
            if new == C(0):
                if ev.ord not in ACQ: cx.violate(st, 'takes the waiters without acquiring their records (ordering %s)' % ev.ord, ev)
                t = self.take(st.ts, old); return X(t, stage='taken', bounds=frozenset({C((1 << 63) - 1)}), pd=None, base=None)
            if h is None: cx.violate(st, 'registers before storing whom to resume', ev)
            need = REL if self.need == 'rmw' else {'seq_cst'}
            if ev.ord not in REL: cx.violate(st, 'registering does not release the records (ordering %s)' % ev.ord, ev)
            elif ev.ord not in need: cx.violate(st, 'a publication concurrent with the registration can be missed: registering is not ordered before the look (ordering %s)' % ev.ord, ev)
            elif self.need == 'rmw' and ev.ord not in ACQ: cx.violate(st, 'a publication concurrent with the registration can be missed', ev)
            if old == new: cx.violate(st, 'links a list to itself', ev)
            first = any(c[0] == 'own' or c[1] == own for c in st.ts[1])
            t = self.back(st, ev, cx, new, old)
            return X(t, stage='reg', bounds='own' if first else self.settle(st, bounds, pd), pd=None)
        if sh and ev.kind in ('load', 'store') and st.ts[3]: cx.violate(st, 'touches the barrier after resuming a waiter', ev)
        n0 = self.n['link']
        if ev.kind == 'store' and stage == 'taken':
            # a waiter is being put back: its distance becomes a bound to be respected
            v = nid(ev.val); w = self.find(st.ts, v) if v != C(0) else None
            if w is not None and not (w[0] == 'chain' and w[1][2] is not None) and self.due(st, v) is False:
                b = self.settle(st, bounds, pd); t = self.target(st, v); P = pub[-1] if pub else None
                r = self.walk(st, ev, cx)
                return X(r or st.ts, bounds=b, pd=DIFF(t, P), base=P if base in (None, P) else 'mixed')
        r = self.walk(st, ev, cx)
        return st.ts if r is None else r
    def settled(self, st, cx, ev):
        """nobody it put into the list can have been missed by the publisher"""
        stage, pub, bounds, pd, verdict, h, bar, mark, base = st.ts[0]
        if stage == 'reg': cx.violate(st, 'does not look again after registering: a concurrent publication is missed', ev)
        if stage == 'looked' and not self.clear(st): cx.violate(st, 'leaves waiters in the list that the publisher may have missed', ev)
    def clear(self, st):
        stage, pub, bounds, pd, verdict, h, bar, mark, base = st.ts[0]
        P = pub[-1]
        if bounds == 'own':
            t = self.target(st, ('arg', 0)); cands = [t] if t is not None else []
        else: cands = [mk_op('add', base, v, 64) for v in bounds] if base not in (None, 'mixed') else []
        return any(before(st, P, t) is True for t in cands)
    def branch(self, st, cond, val, cx):
        x = st.ts[0]
        if x[0] == 'looked' and self.clear(st): return (('clear', x[1][-1:], None, None) + x[4:],) + st.ts[1:]
        return st.ts
    def exit(self, st, kind, ret, cx):
        if kind == 'abort': return
        if kind == 'unwind': cx.violate(st, 'leaves by an exception', cx._ev); return
        stage, pub, bounds, pd, verdict, h, bar, mark, base = st.ts[0]
        if mark is None: cx.violate(st, 'decides whether to suspend without the hand-over mark', cx._ev); return
        b = flag(st, mark)
        if verdict == strip(ARG(1)):
            self.v['cont'] += 1
            if b is not True: cx.violate(st, 'continues although nobody released it: it is resumed twice', cx._ev)
        else:
            self.v['susp'] += 1
            if not nobody(verdict): cx.violate(st, 'continues with a coroutine that is not the awaiting one, or with none at all', cx._ev)
            if b is not False: cx.violate(st, 'stays suspended although it was released', cx._ev)

class ReadyBy(Rule):
    """ready exactly when the target does not come after what is known to be published"""
    def __init__(self, K, TO): self.K, self.TO = K, TO
    def pure_call(self, dem, cal): return (dem or '').startswith('VTr::')
    def init(self, fn, flow): return ()
    def exit(self, st, kind, ret, cx):
        if kind != 'ret': return
        k, t = (st.mem.get((('arg', 0), o)) for o in (self.K, self.TO))
        for v in (True, False):
            s = st.copy()
            if not s.assume(ret, v): continue
            b = None if k is None or t is None else before(s, k[1], t[1])
            if b is not (not v): cx.violate(st, 'readiness is not whether the target was published', cx._ev)

def roles(ck, f, cfg):
    """slots of the barrier and of the wait record, from what the operations do"""
    L = one([e.off for e in probe(f['w_publish']).of('store', 'rmw') if e.root == ('arg', 0) and strip(e.val) == ('argv', 1)], 'published number')
    A = one([e.off for e in probe(f['w_publish']).of('rmw', 'cmpxchg') if e.root == ('arg', 0) and e.off != L], 'list of waiters')
    p = probe(f['w_wait'])
    st = [st for k, r, st in p.exits if k == 'ret']
    out = fields(st[0], ('arg', 0))
    TO = one([o for o, v in out.items() if v == ('argv', 2)], 'target')
    ld = [e for e in p.of('load') if e.root == ('arg', 1)]
    K = one([o for o, v in out.items() if any(v == strip(e.res) for e in ld)], 'known published number')
    ck.obligation('a wait begins with an acquiring look at what was published [%s]' % cfg, ld and all(e.ord in ACQ and e.off == L for e in ld), str([(e.ord, e.off) for e in ld]))
    fl = {e.off for e in probe(f['w_susp_e']).of('rmw', 'cmpxchg') if e.root == ('arg', 0)}
    F = one(fl, 'hand-over mark')
    ck.obligation('a wait begins not handed over [%s]' % cfg, out.get(F) == C(0), str(out.get(F)))
    H = one([e.off for e in probe(f['w_susp_e']).of('store') if e.root == ('arg', 0) and strip(e.val) == strip(ARG(1))], 'handle')
    NX = one([e.off for e in probe(f['w_susp_e']).of('store') if e.root == ('arg', 0) and e.off not in (H, F, K, TO) and e.size == 8], 'link')
    ps = probe(f['w_copy']); cs = [st for k, r, st in ps.exits if k == 'ret'][0]; cp = fields(cs, ('arg', 0)); src = fields(cs, ('arg', 1))
    ck.obligation('a copied wait keeps barrier, target and what it knew, and is not handed over [%s]' % cfg, cp.get(F) == C(0) and all(cp.get(o) == src.get(o) and o in src for o in (0, TO, K)), '%s %s' % (cp, src))
    return L, A, TO, K, F, H, NX

def run(ck):
    irs = ck.ir('m08.cpp', HANDLE_PRIMS)
    for cfg, f in irs.items():
        L, A, TO, K, F, H, NX = roles(ck, f, cfg)
        p = Publish(L, TO, NX, H, None, A, K, F); ck.flow(f['w_publish'], p, cfg)
        if not ck.viol: ck.count('waiters released or put back by publish [%s]' % cfg, min(p.n['grant'], p.n['link'], p.n['back']), 1)
        need = 'rmw' if p.modes == {'rmw'} else 'sc'
        for n in ('w_susp_e', 'w_susp_m', 'w_susp_s'):
            a = Add(L, need, TO, NX, H, None, A, K, F, own=('arg', 0)); ck.flow(f[n], a, cfg)
            if not ck.viol:
                ck.count('%s suspending and continuing exits [%s]' % (n, cfg), min(a.v.values()), 1)
                ck.count('%s waiters released, put back [%s]' % (n, cfg), min(a.n['grant'], a.n['back']), 1)
        ck.flow(f['w_ready'], ReadyBy(K, TO), cfg)
        for k, r, st in probe(f['w_resume']).exits:
            if k == 'ret': ck.obligation('the wait yields what is known to be published [%s]' % cfg, strip(r) == fields(st, ('arg', 0)).get(K), str(r))
        pl = probe(f['w_last'])
        for e in pl.of('load'): ck.obligation('asking for the last published number acquires it [%s]' % cfg, e.off == L and e.ord in ACQ, str(e.ord))
        for k, r, st in probe(f['w_ctor']).exits:
            fs = fields(st, ('arg', 0)); ck.obligation('a barrier starts at the given number without waiters [%s]' % cfg, fs.get(L) == ('argv', 1) and fs.get(A) == C(0), str(fs))
    ck.assumptions = ['one publisher at a time, publishing increasing numbers, as documented', 'precedes and difference of the traits agree (decided for the library\'s own traits under M25)']
    ck.finish('typestate dataflow with a list-shape abstraction over the IR of publish and of waiting (registration loop included) with opaque sequence traits, both configurations and handle kinds',
              'publish: number stored before an ordered look; each waiter taken is compared with its own target and either released or put back before anyone resumes. wait: handle stored, registered, ordered look again; waiters put back are re-checked against a lower bound of their distances; suspended iff the hand-over mark was clear')
if __name__ == '__main__': main(run, 'M08')
