from common import *
from waitlist import *

def marker_at(mk, base): return strip(base if base[0] == 'p' else ptr(base)) if mk == 'this' else mk

class SetAll(Walk):
    """set(): one read-modify-write makes it set; everybody found waiting is resumed once"""
    def __init__(self, A, mk, NX, H):
        super().__init__(NX, H, lambda r: r == ('arg', 0), A); self.mark = mk
    def x0(self, fn): return None
    def event(self, st, ev, cx):
        x = st.ts[0]; M = marker_at(self.mark, ARG(0))
        if ev.kind in ('rmw', 'cmpxchg') and ev.root == ('arg', 0) and ev.off == self.A:
            if ev.kind == 'cmpxchg' and not ev.ok: return st.ts
            if x is not None: cx.violate(st, 'changes the event twice', ev)
            new = strip(ev.res if ev.kind == 'rmw' else ev.val); old = strip(ev.old if ev.kind == 'rmw' else ev.exp)
            if new != M: cx.violate(st, 'setting leaves the event in another state than set', ev)
            if ev.ord not in REL: cx.violate(st, 'setting does not release the writes made before it (ordering %s)' % ev.ord, ev)
            if ev.ord not in ACQ: cx.violate(st, 'setting reads the waiters without acquiring what they registered (ordering %s)' % ev.ord, ev)
            t = self.take(st.ts, old); return (('set', old),) + t[1:]
        if ev.kind == 'store' and ev.root == ('arg', 0): cx.violate(st, 'changes the event by a plain store: concurrent registrations are lost', ev); return st.ts
        if x is not None and ev.kind == 'load' and ev.root == ('arg', 0): cx.violate(st, 'touches the event after setting it', ev)
        if x is not None and st.ev(mk_cmp('eq', x[1], M)) is not False:
            # until it is known that somebody was waiting, what was found may be the set mark
            if (ev.kind == 'load' and ev.root == x[1]) or is_resume(ev): cx.violate(st, 'treats the set mark as a waiter', ev)
        r = self.walk(st, ev, cx)
        return st.ts if r is None else r
    def exit(self, st, kind, ret, cx):
        if kind == 'abort': return
        if kind == 'unwind': cx.violate(st, 'leaves by an exception', cx._ev)
        x = st.ts[0]
        if x is None: cx.violate(st, 'returns without setting the event', cx._ev); return
        if st.ev(mk_cmp('eq', x[1], marker_at(self.mark, ARG(0)))) is True: return
        self.done(st, cx)

class Wait(Rule):
    def __init__(self, A, mk): self.A, self.mk = A, mk; self.n = dict(susp=0, cont=0); self.NX = set(); self.H = set()
    def init(self, fn, flow): return ('start', frozenset(), None, None)      # tag, seen states, handle offset, verdict
    def event(self, st, ev, cx):
        tag, seen, h, verdict = st.ts
        if is_next(ev):
            if verdict is not None: cx.violate(st, 'suspends twice', ev)
            return st.ts[:3] + (strip(ev.args[0]),)
        if is_resume(ev): cx.violate(st, 'resumes from the waiting side', ev)
        if tag == 'reg':
            if shared_access(ev, cx): cx.violate(st, 'touches the event or its own record after registering', ev)
            return st.ts
        word = ev.off == self.A and ev.root is not None and ev.root[0] == 's'
        if word and ev.kind == 'load': return (tag, frozenset({(strip(ev.res), ev.ord in ACQ, ev.root)}), h, verdict)
        if word and ev.kind == 'cmpxchg':
            if not ev.ok: return (tag, frozenset({(strip(ev.old), ev.ford in ACQ, ev.root)}), h, verdict)
            if strip(ev.val) != ('arg', 0) and strip(ev.val) != strip(ARG(0)): cx.violate(st, 'registers something other than its own record', ev)
            if ev.ord not in REL: cx.violate(st, 'registering does not release the record (ordering %s)' % ev.ord, ev)
            if h is None: cx.violate(st, 'registers before storing whom to resume', ev)
            if st.ev(mk_cmp('eq', ev.exp, marker_at(self.mk, ev.root))) is not False: cx.violate(st, 'may register although the event is set: nobody will resume it', ev)
            nx = [k[1] for k, v in st.mem.items() if k[0] == ('arg', 0) and (mk_cmp('eq', v[1], ev.exp) == TRUE or st.ev(mk_cmp('eq', v[1], ev.exp)) is True) and v[1] != UNDEF and k[1] != h and ('ref', k[1]) not in seen]
            if not nx: cx.violate(st, 'registers without linking the waiters already there: they are lost', ev)
            self.NX.add(tuple(sorted(nx))); self.H.add(h)
            return ('reg', seen, h, verdict)
        if word and ev.kind in ('store', 'rmw'): cx.violate(st, 'waiter changes the event unconditionally', ev)
        if ev.kind == 'store' and ev.root == ('arg', 0) and strip(ev.val) == strip(ARG(1)): return (tag, seen, ev.off, verdict)
        if ev.kind == 'store' and ev.root == ('arg', 0) and ev.off == h: return (tag, seen, None, verdict)
        return st.ts
    def exit(self, st, kind, ret, cx):
        if kind == 'abort': return
        if kind == 'unwind': cx.violate(st, 'leaves by an exception', cx._ev); return
        tag, seen, h, v = st.ts
        if v == strip(ARG(1)):
            self.n['cont'] += 1
            if tag == 'reg': cx.violate(st, 'continues although it registered: it would be resumed twice', cx._ev)
            elif not any(acq and st.ev(mk_cmp('eq', s, marker_at(self.mk, b))) is True for s, acq, b in seen): cx.violate(st, 'continues without having seen, with acquire ordering, that the event is set', cx._ev)
        else:
            self.n['susp'] += 1
            if not nobody(v): cx.violate(st, 'continues with a coroutine that is not the awaiting one, or with none at all', cx._ev)
            if tag != 'reg': cx.violate(st, 'suspends without being registered', cx._ev)

class IsSet(Rule):
    """the answer is whether the word, read with acquire, holds the set mark"""
    def __init__(self, A, mk, exact): self.A, self.mk, self.exact = A, mk, exact; self.n = 0
    def init(self, fn, flow): return None
    def event(self, st, ev, cx):
        if ev.kind == 'load' and ev.ord and ev.off == self.A: return (strip(ev.res), ev.ord in ACQ, ev.root)
        if ev.kind in ('rmw', 'cmpxchg') or (ev.kind == 'store' and shared_access(ev, cx)): cx.violate(st, 'asking changes the event', ev)
        return st.ts
    def exit(self, st, kind, ret, cx):
        if kind != 'ret': return
        self.n += 1
        for v in (True, False):
            s = st.copy()
            if st.ts is None:
                if s.ev(ret) is not False or self.exact: cx.violate(st, 'answers without looking at the event', cx._ev)
                return
            if not s.assume(mk_cmp('eq', st.ts[0], marker_at(self.mk, st.ts[2])), v): continue
            r = s.ev(s.subst(ret))
            if v is False and r is not False: cx.violate(st, 'may claim to be set when it is not', cx._ev)
            if v is True and self.exact and r is not True: cx.violate(st, 'may deny being set', cx._ev)
            if v is True and r is not False and not st.ts[1]: cx.violate(st, 'learning that the event is set does not acquire what was written before it', cx._ev)

class Reset(Rule):
    def __init__(self, A, mk): self.A, self.mk = A, mk; self.n = 0
    def init(self, fn, flow): return None
    def event(self, st, ev, cx):
        M = marker_at(self.mk, ARG(0))
        if ev.kind == 'cmpxchg' and ev.off == self.A:
            if not ev.ok: return ('no', strip(ev.old))
            if st.ev(mk_cmp('eq', ev.exp, M)) is not True: cx.violate(st, 'reset may replace registered waiters', ev)
            if ev.val != C(0): cx.violate(st, 'reset leaves the event in another state than not set', ev)
            return 'yes'
        if ev.kind == 'load' and ev.off == self.A and ev.root == ('arg', 0): return ('no', strip(ev.res))
        if ev.kind in ('store', 'rmw') and ev.root == ('arg', 0): cx.violate(st, 'reset overwrites the state without looking: registered waiters are lost', ev)
        if is_resume(ev): cx.violate(st, 'reset resumes somebody', ev)
        return st.ts
    def exit(self, st, kind, ret, cx):
        if kind != 'ret': return
        self.n += 1
        if st.ts == 'yes': return
        if st.ts is None or st.ev(mk_cmp('eq', st.ts[1], marker_at(self.mk, ARG(0)))) is not False: cx.violate(st, 'reset may leave the event set', cx._ev)

def run(ck):
    irs = ck.ir('m07.cpp', HANDLE_PRIMS)
    for cfg, f in irs.items():
        ps = probe(f['w_set'])
        A = one([e.off for e in ps.of('rmw', 'cmpxchg', 'store') if e.root == ('arg', 0)], 'state word')
        def start(n):
            v = {st.mem.get((('arg', 0), A), (0, UNDEF))[1] for k, r, st in probe(f[n]).exits if k == 'ret'}
            return one([strip(x) for x in v], 'initial state')
        ms, mc, md = start('w_ctor_set'), start('w_ctor_clear'), start('w_ctor_default')
        mk = 'this' if ms in (('arg', 0), strip(ARG(0))) else ms
        if not ck.obligation('the event starts in the state it was asked for [%s]' % cfg, mc == C(0) and md == C(0) and ms != C(0) and (mk == 'this' or ms[0] == 'c'), 'set=%s clear=%s default=%s' % (ms, mc, md)): continue
        NX = set(); H = set()
        for n in ('w_susp_e', 'w_susp_m', 'w_susp_s', 'w_susp_se'):
            w = Wait(A, mk); ck.flow(f[n], w, cfg); NX |= w.NX; H |= w.H
            if not ck.viol: ck.count('%s suspending and continuing exits [%s]' % (n, cfg), min(w.n.values()), 1)
        if ck.viol: continue
        com = set.intersection(*[set(x) for x in NX])
        NX, H = one(com, 'link slot'), one(H, 'handle slot')
        s = SetAll(A, mk, NX, H); ck.flow(f['w_set'], s, cfg)
        if not ck.viol: ck.count('waiters resumed in set [%s]' % cfg, s.n['grant'], 1)
        for n, ex in (('w_isset', True), ('w_ready', False)): ck.flow(f[n], IsSet(A, mk, ex), cfg)
        ck.flow(f['w_reset'], Reset(A, mk), cfg)
        # awaiting refers to the event it was asked of
        refs = [st.mem.get((('arg', 1), 0)) for k, r, st in probe(f['w_coawait']).exits if k == 'ret']
        ck.obligation('awaiting an event waits for that event [%s]' % cfg, refs and all(any(strip(v[1]) in (('arg', 0), strip(ARG(0))) for k2, v in st.mem.items() if k2[0] == ('arg', 1)) for k, r, st in probe(f['w_coawait']).exits if k == 'ret'), str(refs))
    ck.assumptions = ['a coroutine that resumes may destroy its wait record at once', 'records handed to the event are distinct and live until resumed (they live in suspended frames)']
    ck.finish('typestate dataflow with a list-shape abstraction (records taken, passed over, resumed) over the IR of set, reset, is_set and the awaiter, both configurations and handle kinds',
              'set: one acquire-release RMW to the set mark; every record of the taken chain resumed exactly once, link read first, nothing of it touched later. wait: handle and link stored before a releasing CAS from a state known not to be set; continue only after an acquiring read of the set mark. reset: CAS from set only')
if __name__ == '__main__': main(run, 'M07')
