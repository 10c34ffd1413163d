from scope import *
import m01, m03

class JoinResume(Rule):
    """join's result: normal only if no exception is recorded, read under the mutex; otherwise all of them are reported"""
    def __init__(self, vec, mtx, obj): self.vec, self.mtx, self.obj = vec, mtx, obj; self.n = dict(ok=0, report=0)
    def private_roots(self, st): return {('arg', 0)}
    def init(self, fn, flow): return (None, None, None, None)     # locked, begin, end, thrown
    def event(self, st, ev, cx):
        lk, b, e, th = st.ts
        if is_lock(ev):
            return (norm_ptr(ev.args[0]), b, e, th)
        if is_unlock(ev): return (None, b, e, th)
        if ev.kind in ('load', 'store') and ev.root[0] != 'al' and self.obj(ev.root) and self.vec <= ev.off < self.vec + 24:
            if lk is None or lk[1] != self.mtx or lk[0] != ev.root: cx.violate(st, 'looks at the recorded exceptions without holding the mutex', ev)
            if ev.kind == 'load':
                if ev.off == self.vec and b is None: return (lk, ev.res, e, th)
                if ev.off == self.vec + 8 and e is None: return (lk, b, ev.res, th)
        if ev.callee == '__cxa_throw' and ev.kind == 'unwind':
            if 'async_scope_exception' not in str(ev.args[1]): cx.violate(st, 'reports failures by some other exception', ev); return (lk, b, e, True)
            o = norm_ptr(ev.args[0])[0]
            vals = {strip(v[1]) for k, v in st.mem.items() if k[0] == o}
            if b is None or e is None or strip(b) not in vals or strip(e) not in vals: cx.violate(st, 'the report does not carry the recorded exceptions', ev)
            if self.empty(st) is True: cx.violate(st, 'reports a failure although no exception was recorded', ev)
            return (lk, b, e, True)
        return st.ts
    def empty(self, st):
        lk, b, e, th = st.ts
        return None if b is None or e is None else st.ev(mk_cmp('eq', b, e))
    def exit(self, st, kind, ret, cx):
        if kind == 'ret':
            self.n['ok'] += 1
            if self.empty(st) is not True: cx.violate(st, 'reports success although an exception may have been recorded', cx._ev)
        if kind == 'unwind' and st.ts[3]: self.n['report'] += 1

class JoinOf(Rule):
    """the join awaiter refers to the barrier and the records of this very scope"""
    def __init__(self, boff, root=('arg', 1), extra=None): self.boff, self.want, self.slots = boff, root, {}
    def event(self, st, ev, cx):
        if is_dec(ev) or is_inc(ev): cx.violate(st, 'preparing the join changes the count', ev)
        return st.ts
    def exit(self, st, kind, ret, cx):
        if kind != 'ret': return
        b = [k[1] for k, v in st.mem.items() if k[0] == ('arg', 0) and norm_ptr(v[1]) == (self.want, self.boff)]
        s = [k[1] for k, v in st.mem.items() if k[0] == ('arg', 0) and norm_ptr(v[1]) == (self.want, 0) and v[1][0] == 'p']
        if len(b) != 1: cx.violate(st, 'the join does not wait for the barrier of its scope', cx._ev)
        self.slots.setdefault('b', set()).update(b); self.slots.setdefault('s', set()).update(s)

class BodyEnd(Rule):
    """when_all_scope: the body's own count"""
    def __init__(self, boff, obj): self.boff, self.obj = boff, obj
    def init(self, fn, flow): return 0
    def event(self, st, ev, cx):
        if ev.kind == 'call' and ev.callee == 'vf_continued': cx.violate(st, 'the finished body does not stay suspended: its frame destroys itself under its owner', ev)
        if is_dec(ev):
            if not (self.obj(norm_ptr(ev.args[0])[0]) and norm_ptr(ev.args[0])[1] == self.boff): cx.violate(st, 'the end of the body is announced to something other than its scope', ev)
            if st.ts: cx.violate(st, 'the end of the body is announced twice', ev)
            return 1
        if is_next(ev):
            if not nobody(ev.args[0]): cx.violate(st, 'the finished body continues something by itself', ev)
            return st.ts
        if st.ts and shared_access(ev, cx): cx.violate(st, 'touches the scope after it may have been joined', ev)
        if is_destroy(ev): cx.violate(st, 'the finished body destroys a frame', ev)
        return st.ts
    def exit(self, st, kind, ret, cx):
        if kind == 'ret' and st.ts != 1: cx.violate(st, 'the end of the body is not announced', cx._ev)

class BodyFails(Rule):
    """when_all_scope: an escaping exception is recorded under the mutex"""
    def __init__(self, vec, mtx): self.vec, self.mtx = vec, mtx
    def init(self, fn, flow): return (None, None, 0)
    def event(self, st, ev, cx):
        lk, src, n = st.ts
        if is_lock(ev): return (norm_ptr(ev.args[0]), src, n)
        if is_unlock(ev): return (None, src, n)
        if is_curexc(ev): return (lk, norm_ptr(ev.ptr) if ev.ptr else norm_ptr(ev.args[0]), n)
        if is_push(ev):
            if norm_ptr(ev.args[0]) != (('arg', 0), self.vec): cx.violate(st, 'records the exception somewhere other than in its scope', ev)
            if lk != (('arg', 0), self.mtx): cx.violate(st, 'records the exception without holding the mutex of the scope', ev)
            if src is None or norm_ptr(ev.args[1]) != src: cx.violate(st, 'records something other than the captured exception', ev)
            return (lk, src, n + 1)
        return st.ts
    def exit(self, st, kind, ret, cx):
        if kind == 'unwind': cx.violate(st, 'unhandled_exception lets an exception escape', cx._ev)
        if kind == 'ret' and st.ts[2] != 1: cx.violate(st, 'an exception of the body is recorded %d times' % st.ts[2], cx._ev)

class BodyStart(Rule):
    """awaiting a when_all_scope: start the body once, then join like any scope"""
    def __init__(self, off, inner): self.off, self.inner = off, inner
    def init(self, fn, flow): self.inner.init(fn, flow); return (None, 0, None)
    def event(self, st, ev, cx):
        h, n, sub = st.ts
        if ev.kind == 'load' and ev.root == ('arg', 0) and ev.off == self.off and h is None: return (strip(ev.res), n, sub)
        if is_resume(ev):
            if strip(ev.args[0]) != h: cx.violate(st, 'starts something other than the body', ev)
            if n: cx.violate(st, 'starts the body twice', ev)
            if sub: cx.violate(st, 'registers for the join before the body ran', ev)
            return (h, n + 1, sub)
        if is_destroy(ev) or is_dec(ev) or is_inc(ev): cx.violate(st, 'awaiting changes the scope', ev)
        if n == 0: return st.ts
        if sub is None: sub = self.inner.init(None, None)
        saved = st.ts; st.ts = sub
        r = self.inner.event(st, ev, cx)
        st.ts = saved
        return r if r is DEAD else (h, n, r)
    def exit(self, st, kind, ret, cx):
        h, n, sub = st.ts
        if kind == 'unwind': return         # the body threw out of its start: cannot happen (unhandled_exception records it)
        if kind == 'ret' and n != 1: cx.violate(st, 'awaiting does not start the body', cx._ev); return
        saved = st.ts; st.ts = sub; self.inner.exit(st, kind, ret, cx); st.ts = saved

def run(ck):
    irs = ck.ir('m06.cpp', PRIMS); bar = ck.ir('m01.cpp', HANDLE_PRIMS)
    for cfg, f in irs.items():
        vec = set(); mtx = set(); boff = set()
        for N in 'ivrt':
            c = analyse(ck, f, cfg, N, {'M05'})
            if c: vec |= c.vec; mtx |= c.mtx; boff.add(c.boff)
        if ck.viol: continue
        vec = one(vec, 'exception list of the scope'); mtx = one(mtx, 'mutex of the scope'); boff = one(boff, 'barrier of the scope')
        a = m01.anchors(ck, bar[cfg])
        if a is None: continue
        j = None
        for n in ('w_join', 'w_joinc'):
            j = JoinOf(boff); ck.flow(f[n], j, cfg)
        ck.flow(f['w_jready'], m03.Const(False, 'join claims to be done without looking at the count'), cfg)
        for n in ('w_jsusp', 'w_jsuspm'):
            s = m01.Susp(*a); ck.flow(f[n], s, cfg)
            if not ck.viol: ck.count('%s suspending and continuing exits [%s]' % (n, cfg), min(s.n.values()), 1)
        r = JoinResume(vec, mtx, lambda x: True); ck.flow(f['w_jres'], r, cfg)
        if not ck.viol: ck.count('join results [%s]' % cfg, min(r.n.values()), 1)
        # when_all_scope
        class WBorn(Rule):
            def init(s, fn, fl): return 0
            def event(s, st, ev, cx):
                if is_inc(ev):
                    if norm_ptr(ev.args[0])[0] != ('arg', 0): cx.violate(st, 'counts the body somewhere else', ev)
                    s.o.add(norm_ptr(ev.args[0])[1])
                    return st.ts + 1
                return st.ts
            def exit(s, st, kind, ret, cx):
                if kind == 'ret' and st.ts != 1: cx.violate(st, 'the body is counted %d times' % st.ts, cx._ev)
        w = WBorn(); w.o = set(); ck.flow(f['w_wctor'], w, cfg)
        if ck.viol: continue
        wb = one(w.o, 'barrier of the scope in the promise'); delta = wb - boff      # where the scope sits in the promise
        isp = lambda x: x == ('arg', 0) or x == ('promise', strip(ARG(1)))
        ck.flow(f['w_winit'], m03.Const(False, 'the body starts before it is awaited'), cfg)
        ck.flow(f['w_wfin'], BodyEnd(wb, isp), cfg)
        ck.flow(f['w_wunh'], BodyFails(vec + delta, mtx + delta), cfg)
        g = m03.GetReturn('get'); ck.flow(f['w_wget'], g, cfg)
        if ck.viol: continue
        off = one(g.off, 'handle slot of when_all_scope')
        d = DestroyOnce(off); ck.flow(f['w_wdtor'], d, cfg)
        ck.flow(f['w_wmove'], MoveCtor(off), cfg); ck.flow(f['w_wassign'], MoveAssign(off), cfg); ck.flow(f['w_wself'], SelfAssign(off), cfg)
        pr = [st for k, r, st in probe(f['w_waw']).exits if k == 'ret']
        ok = []
        for st in pr:
            hs = {strip(v[1]) for k, v in st.mem.items() if k == (('arg', 1), off)}
            h = next(iter(hs)) if len(hs) == 1 else None
            ho = [k[1] for k, v in st.mem.items() if k[0] == ('arg', 0) and h is not None and strip(v[1]) == h]
            bo = [k[1] for k, v in st.mem.items() if k[0] == ('arg', 0) and h is not None and norm_ptr(v[1]) == (('promise', h), wb)]
            ok.append((tuple(ho), len(bo)))
        if not ck.obligation('awaiting a when_all_scope joins the scope of its own body [%s]' % cfg, ok and all(len(h) == 1 and b == 1 for h, b in ok), str(ok)): continue
        ck.flow(f['w_wready'], m03.Const(False, 'a when_all_scope claims to be done before its body ran'), cfg)
        ck.flow(f['w_wsusp'], BodyStart(ok[0][0][0], m01.Susp(*a)), cfg)
        ck.flow(f['w_wres'], JoinResume(vec, mtx, lambda x: True), cfg)
    import pt; pt.around(ck, ('add',), ('add', 'sco'), 8)
    ck.assumptions = ['a handle is dropped before the join completes or is awaited (documented lifetime tie)', 'one join at a time (documented)', 'the barrier behaves as decided by M01']
    ck.finish('typestate dataflow over the IR of every start, completion, drop and join operation (enumerating the states of the shared word) of scoped_task<int>, <void>, <int&>, <opaque class>, async_scope and when_all_scope, both configurations',
              'exactly one increment of the scope before the body and exactly one decrement per completion path, as the last shared action; exceptions recorded exactly once when nobody can await, under the mutex, before the decrement; join waits by the barrier and returns normally only if the records, read under the mutex, are empty; typestate over the coroutines put around a given operation: the given one, awaited once, its outcome handed on')
if __name__ == '__main__': main(run, 'M05')
