from common import *

class Collect(Rule):
    """collects (events, exit) of all paths of a small function"""
    def __init__(self): self.paths = []
    def event(self, st, ev, cx):
        if ev.kind in ('rmw', 'cmpxchg') or (ev.kind in ('load', 'store')):
            self.seen.append(ev)
        return st.ts
    def init(self, fn, flow): self.seen = []; return ()
    def exit(self, st, kind, ret, cx): self.paths.append((kind, ret, st))

class Dec(Rule):
    """the arriving side: exactly one atomic decrement; resume iff it released the waiter;
    nothing of the barrier touched unless it did"""
    def __init__(self, W, unit, wb): self.W, self.unit, self.wb = W, unit, wb; self.resumes = 0; self.exits = 0
    def init(self, fn, flow): return ('start',)
    def event(self, st, ev, cx):
        ts = st.ts
        if ev.kind in ('rmw', 'cmpxchg') and ev.ptr == ptr(('arg', 0), self.W):
            if ev.kind == 'cmpxchg' and not ev.ok: return ts
            if ts[0] != 'start': cx.violate(st, 'announces the same arrival twice', ev); return ts
            old = ev.exp if ev.kind == 'cmpxchg' else ev.old
            new = ev.val if ev.kind == 'cmpxchg' else ev.res
            if ev.ord not in REL: cx.violate(st, 'the arrival does not release the work done before it (ordering %s)' % ev.ord, ev)
            last = st.ev(mk_cmp('eq', old, C(self.unit + self.wb)))
            n = st.subst(new)
            if last is True:
                if n != C(0): cx.violate(st, 'last arrival with a waiter leaves the count word at %s instead of clearing count and waiter' % (n,), ev)
            else:
                if last is None: cx.violate(st, 'arrival does not decide from the value it replaced whether it is the last one with a waiter', ev)
                if mk_cmp('eq', n, st.subst(lin(old, -self.unit))) != TRUE: cx.violate(st, 'arrival does not lower the count by exactly one', ev)
            return ('done', last, ev.ord in ACQ, 0)
        if ts[0] == 'start':
            if ev.kind in ('call', 'icall') and ev.callee.startswith('vf.resume'): cx.violate(st, 'resumes a waiter without having made an arrival', ev)
            return ts
        _, last, acq, res = ts
        if ev.kind in ('load', 'store', 'rmw', 'cmpxchg') and not cx.is_local(ev.root) and ev.root[0] != 'g':
            if last is not True or res: cx.violate(st, 'touches the barrier after the arrival that may have released the waiter', ev)
            elif not acq: cx.violate(st, 'reads the waiter without acquiring what it published', ev)
        if ev.kind == 'call' and ev.callee.startswith('vf.resume'):
            self.resumes += 1
            if last is not True: cx.violate(st, 'resumes the waiter although arrivals are outstanding or no waiter is registered', ev)
            if res: cx.violate(st, 'resumes the waiter twice', ev)
            h = strip(ev.args[0])
            if not (h[0] == 's' and h[1] == 'ld'): cx.violate(st, 'resumes something that is not the stored waiter', ev)
            return ('done', last, acq, res + 1)
        return ts
    def exit(self, st, kind, ret, cx):
        if kind == 'abort': return
        self.exits += 1
        ts = st.ts
        if ts[0] == 'start': cx.violate(st, 'returns without announcing the arrival', cx._ev)
        elif ts[1] is True and ts[3] == 0: cx.violate(st, 'the last arrival does not resume the waiter', cx._ev)

class Susp(Rule):
    """the waiting side: suspended iff registered in the count word while the count was not zero"""
    def __init__(self, W, unit, wb): self.W, self.unit, self.wb = W, unit, wb; self.n = dict(susp=0, cont=0)
    def init(self, fn, flow): return ('start', frozenset(), None, None)
    def event(self, st, ev, cx):
        if is_next(ev):
            if st.ts[3] is not None: cx.violate(st, 'suspends twice', ev)
            return st.ts[:3] + (strip(ev.args[0]),)
        r = self.event1(st, ev, cx)
        return r if r is DEAD else r[:3] + (st.ts[3],)
    def event1(self, st, ev, cx):
        tag, zero, saved, verdict = st.ts
        b = None
        if ev.ptr is not None: b = ev.root
        nonlocal_ = b is not None and not cx.is_local(b) and b[0] != 'g'
        if tag == 'reg':
            if nonlocal_: cx.violate(st, 'touches the barrier or the awaiter after registering the waiter', ev)
            if ev.kind == 'call' and ev.callee.startswith('vf.resume'): cx.violate(st, 'resumes from the waiting side', ev)
            return st.ts
        if ev.kind == 'store' and nonlocal_ and strip(ev.val) == strip(ptr(('arg', 1))): return (tag, zero, True)
        if ev.kind == 'store' and nonlocal_ and ev.val == C(0): return (tag, zero, None) if saved else st.ts
        if ev.kind == 'load' and ev.ord and ev.off == self.W: return (tag, frozenset({ev.res} if ev.ord in ACQ else ()), saved)
        if ev.kind == 'cmpxchg' and ev.off == self.W:
            if not ev.ok: return (tag, frozenset({ev.old} if ev.ford in ACQ else ()), saved)
            old, new = ev.exp, st.subst(ev.val)
            if new != mk_op('or', old, C(self.wb), 64) and new != lin(old, self.wb): cx.violate(st, 'registering changes the count', ev)
            if ev.ord not in REL: cx.violate(st, 'registering does not release the stored waiter (ordering %s)' % ev.ord, ev)
            if not saved: cx.violate(st, 'announces the waiter before storing its handle', ev)
            if st.ev(mk_cmp('ult', old, C(self.unit))) is not False: cx.violate(st, 'may register and suspend although the count is already zero', ev)
            return ('reg', zero, saved)
        if ev.kind == 'rmw' and ev.off == self.W: cx.violate(st, 'waiter changes the count unconditionally', ev)
        if ev.kind == 'call' and ev.callee.startswith('vf.resume'): cx.violate(st, 'resumes from the waiting side', ev)
        return st.ts
    def exit(self, st, kind, ret, cx):
        if kind == 'abort': return
        tag, zero, saved, r = st.ts
        if kind == 'unwind': cx.violate(st, 'leaves by an exception', cx._ev); return
        if r == strip(ptr(('arg', 1))):
            self.n['cont'] += 1
            if tag == 'reg': cx.violate(st, 'continues although it registered a waiter (it would be resumed twice)', cx._ev)
            elif not any(st.ev(mk_cmp('ult', z, C(self.unit))) is True for z in zero):
                cx.violate(st, 'continues without having seen, with acquire ordering, that the count is zero', cx._ev)
        else:
            self.n['susp'] += 1
            if not nobody(r): cx.violate(st, 'continues with a coroutine that is not the awaiting one, or with none at all', cx._ev)
            if tag != 'reg': cx.violate(st, 'suspends without registering the waiter', cx._ev)

def anchors(ck, f):
    """offset of the count word, its unit and the waiter mark"""
    col = Collect(); fl = Flow(f['w_inc'], col); fl.run()
    r = [e for e in col.seen if e.kind == 'rmw' or e.kind == 'cmpxchg']
    if len({e.off for e in r}) != 1: raise Broken('increment has no single count word')
    W = r[0].off; u = None
    for e in r: u = e.val if e.kind == 'rmw' else None
    if not u or u[0] != 'c' or u[1] <= 0: raise Broken('increment unit not recognised: %s' % (u,))
    unit = u[1]
    col = Collect(); fl = Flow(f['w_susp_m'], col); fl.run()
    regs = [e for e in col.seen if e.kind == 'cmpxchg' and e.ok and e.off == W]
    def mark(e):
        v = e.val
        if v[0] == 'op' and v[1] == 'or' and e.exp in v[2:4]: c = v[3] if v[2] == e.exp else v[2]; return c[1] if c[0] == 'c' else None
        return next((k for k in range(1, unit) if v == lin(e.exp, k)), None)
    marks = {mark(e) for e in regs}
    marks.discard(None)
    if len(marks) != 1:
        ck.violation('the waiter is not registered in the count word by one atomic step', key='register-atomic'); return None
    wb = marks.pop()
    if not 0 < wb < unit: ck.violation('waiter mark overlaps the count', key='mark'); return None
    return W, unit, wb

def analyse(ck, irs, quiet=False):
    for cfg, f in irs.items():
        a = anchors(ck, f)
        if a is None: continue
        W, unit, wb = a
        # add(n): one RMW that adds n*unit
        class Add(Rule):
            def __init__(s, n): s.n = n; s.k = 0
            def init(s, fn, fl): return 0
            def event(s, st, ev, cx):
                if ev.kind in ('rmw', 'cmpxchg') and ev.off == W and not (ev.kind == 'cmpxchg' and not ev.ok):
                    old = ev.old if ev.kind == 'rmw' else ev.exp; new = ev.res if ev.kind == 'rmw' else ev.val
                    want = [mk_op('add', old, mk_op('mul', s.n, C(unit), 64), 64), mk_op('add', old, mk_op('shl', s.n, C(unit.bit_length() - 1), 64), 64)]
                    if new not in want: cx.violate(st, 'adding n arrivals does not raise the count by n', ev)
                    return st.ts + 1
                if ev.kind == 'store' and ev.root == ('arg', 0): cx.violate(st, 'count changed by a plain store', ev)
                return st.ts
            def exit(s, st, kind, ret, cx):
                if kind == 'ret' and st.ts != 1: cx.violate(st, 'announces the arrivals %d times' % st.ts, cx._ev)
        ck.flow(f['w_add'], Add(('argv', 1)), cfg); ck.flow(f['w_inc'], Add(C(1)), cfg)
        d = Dec(W, unit, wb); ck.flow(f['w_dec'], d, cfg)
        for n in ('w_susp_m', 'w_susp_s', 'w_susp_e'):
            s = Susp(W, unit, wb); ck.flow(f[n], s, cfg)
            if not ck.viol: ck.count('%s suspending and continuing exits [%s]' % (n, cfg), min(s.n.values()), 1)
        if not ck.viol: ck.count('resume sites judged in decrement [%s]' % cfg, d.resumes, 1)
        # readiness never claims more than the count says
        class Ready(Rule):
            def init(s, fn, fl): return None
            def event(s, st, ev, cx): return ev.res if ev.kind == 'load' and ev.ord in ACQ and ev.off == W else st.ts
            def exit(s, st, kind, ret, cx):
                if kind == 'ret' and ret != FALSE and st.ev(ret) is not False:
                    if st.ts is None or st.ev(mk_cmp('ult', st.ts, C(unit))) is not True: 
                        if not (st.ts is not None and ret == mk_cmp('ult', st.ts, C(unit))): cx.violate(st, 'reports ready without seeing a zero count', cx._ev)
        ck.flow(f['w_ready'], Ready(), cfg)
        # the constructor stores n*unit without a waiter
        class Ctor(Rule):
            def init(s, fn, fl): return None
            def event(s, st, ev, cx):
                if ev.kind == 'store' and ev.root == ('arg', 0) and ev.off == W: return ev.val
                return st.ts
            def exit(s, st, kind, ret, cx):
                if kind == 'ret' and st.ts not in (mk_op('mul', ('argv', 1), C(unit), 64), mk_op('shl', ('argv', 1), C(unit.bit_length() - 1), 64)):
                    cx.violate(st, 'a new barrier does not start with the requested count', cx._ev)
        ck.flow(f['w_ctor'], Ctor(), cfg)
        class Count(Rule):
            def init(s, fn, fl): return None
            def event(s, st, ev, cx): return ev.res if ev.kind == 'load' and ev.off == W else st.ts
            def exit(s, st, kind, ret, cx):
                if kind == 'ret' and ret != mk_op('lshr', st.ts or UNDEF, C(unit.bit_length() - 1), 64): cx.violate(st, 'count() does not report the number of outstanding arrivals', cx._ev)
        ck.flow(f['w_count'], Count(), cfg)

def run(ck):
    irs = ck.ir('m01.cpp', HANDLE_PRIMS)
    analyse(ck, irs)
    ck.samples = ['w_dec: %s' % f for f in ('load count; cas(old -> old==3?0:old-2); resume iff old==3',)]
    ck.assumptions = ['one waiter at a time (documented)', 'the count never drops below zero (documented; asserted)', 'distinct symbolic addresses do not alias']
    ck.finish('Path-sensitive typestate dataflow over the IR of every public barrier operation and of the awaiter protocol in both configurations: which atomic step of the count word each path takes, with which ordering, and what it may do before and after it.',
              'resume <=> the replaced word was (one arrival, waiter); register only while count>0, handle stored before; release on every arrival, acquire where the waiter or its data is read; no access after hand-off')
if __name__ == '__main__': main(run, 'M01')
