from common import *
KINDS = dict(i=dict(retarg=None), v=dict(), r=dict(retarg=ARG(1)), t=dict(ctor='VT::VT'))

class Const(Rule):
    """every return yields the given constant"""
    def __init__(self, want, msg): self.want, self.msg = want, msg
    def exit(self, st, kind, ret, cx):
        if kind == 'ret' and st.ev(ret) is not self.want: cx.violate(st, self.msg, cx._ev)
        if kind == 'unwind': cx.violate(st, 'leaves by an exception', cx._ev)

class GetReturn(Rule):
    """the task object owns the handle of this very promise, with the backend that made it"""
    def __init__(self, want): self.want = want; self.off = set(); self.kinds = set()
    def init(self, fn, flow): return None
    def event(self, st, ev, cx):
        if ev.kind == 'call' and ev.callee.startswith('vf.from_promise'):
            if strip(ev.args[0]) != strip(ARG(1)): cx.violate(st, 'handle made from another promise', ev)
            if len(ev.args) > 1: self.kinds.add(ev.args[1])
        if is_resume(ev): cx.violate(st, 'the coroutine is started before it is awaited', ev)
        if is_destroy(ev): cx.violate(st, 'the coroutine is destroyed while creating its task', ev)
        return st.ts
    def exit(self, st, kind, ret, cx):
        if kind != 'ret': return
        o = [k[1] for k, v in st.mem.items() if k[0] == ('arg', 0) and strip(v[1]) == handle_of(ARG(1))]
        if len(o) != 1: cx.violate(st, 'the returned task does not own the coroutine', cx._ev)
        self.off.update(o)

class Start(Rule):
    """awaiting a lazy task: store who awaits, then start it exactly once"""
    def __init__(self, off): self.off = off; self.S = set(); self.n = 0
    def init(self, fn, flow): return (None, False, 0, False)     # handle, stored, starts, over
    def event(self, st, ev, cx):
        h, stored, n, over = st.ts
        if ev.kind == 'load' and ev.root == ('arg', 0) and ev.off == self.off and h is None: return (strip(ev.res), stored, n, over)
        if n and shared_access(ev, cx): cx.violate(st, 'touches shared state after starting the task', ev)
        if ev.kind == 'store' and h is not None and ev.root == ('promise', h) and strip(ev.val) == strip(ARG(1)):
            self.S.add(ev.off); return (h, True, n, over)
        if is_destroy(ev): cx.violate(st, 'awaiting destroys a coroutine', ev)
        if is_resume(ev) or is_next(ev):
            t = strip(ev.args[0])
            if is_next(ev) and (nobody(t)): return (h, stored, n, True)
            if t != h: cx.violate(st, 'awaiting continues with something other than the task', ev)
            if n: cx.violate(st, 'the task is started twice', ev)
            if not stored: cx.violate(st, 'the task is started before it knows whom to resume', ev)
            return (h, stored, n + 1, over or is_next(ev))
        return st.ts
    def exit(self, st, kind, ret, cx):
        if kind == 'unwind': cx.violate(st, 'leaves by an exception', cx._ev)
        if kind != 'ret': return
        self.n += 1
        if st.ts[2] != 1: cx.violate(st, 'awaiting does not start the task', cx._ev)

class Finish(Rule):
    """final suspension of a lazy task: hand control to the awaiting coroutine exactly once, then nothing"""
    def __init__(self, S): self.S = S; self.n = 0
    def init(self, fn, flow): return (None, 0)
    def event(self, st, ev, cx):
        c, n = st.ts
        if ev.kind == 'load' and ev.root == ('promise', strip(ARG(1))) and ev.off == self.S and c is None: return (strip(ev.res), n)
        if n and shared_access(ev, cx): cx.violate(st, 'touches the promise after resuming the awaiting coroutine (it may have destroyed the task)', ev)
        if is_destroy(ev): cx.violate(st, 'a finishing task destroys a frame its owner still owns', ev)
        if is_resume(ev) or is_next(ev):
            t = strip(ev.args[0])
            if is_next(ev) and nobody(t): return st.ts
            if c is None or t != c: cx.violate(st, 'resumes something other than the awaiting coroutine', ev)
            if n: cx.violate(st, 'the awaiting coroutine is resumed twice', ev)
            return (c, n + 1)
        return st.ts
    def exit(self, st, kind, ret, cx):
        if kind == 'unwind': cx.violate(st, 'leaves by an exception', cx._ev)
        if kind != 'ret': return
        self.n += 1
        c, n = st.ts
        if n != 1 and not (c is not None and st.ev(mk_cmp('eq', c, C(0))) is True): cx.violate(st, 'a finished task does not resume the awaiting coroutine', cx._ev)

class LazyReady(Rule):
    """ready only for an empty owner or a coroutine at its final suspension"""
    def __init__(self, off, exact): self.off, self.exact = off, exact
    def init(self, fn, flow): return (None, None)
    def event(self, st, ev, cx):
        h, d = st.ts
        if ev.kind == 'load' and ev.root == ('arg', 0) and ev.off == self.off and h is None: return (strip(ev.res), d)
        if is_done(ev):
            if strip(ev.args[0]) != h: cx.violate(st, 'asks another coroutine whether it is done', ev)
            if st.ev(mk_cmp('eq', h, C(0))) is not False: cx.violate(st, 'asks an empty owner whether it is done', ev)
            return (h, ev.res)
        return st.ts
    def exit(self, st, kind, ret, cx):
        if kind != 'ret': return
        h, d = st.ts
        null = None if h is None else st.ev(mk_cmp('eq', h, C(0)))
        r = st.ev(ret)
        if null is True:
            if self.exact and r is not False: cx.violate(st, 'an empty task claims to be ready', cx._ev)
            if not self.exact and r is not True: cx.violate(st, 'awaiting an empty task would suspend for ever', cx._ev)
        elif ret == d or (d is not None and (ret == ('zx', d) or ret == mk_cmp('ne', d, C(0), 8))): return
        elif r is not None and d is not None and r == st.ev(d): return
        elif not self.exact and r is False: return
        else: cx.violate(st, 'readiness is not what the coroutine says', cx._ev)

def owner(ck, f, cfg, N):
    """owner object: frame handle offset, moves, assignment, destruction"""
    offs = set(); kinds = []
    for g in ('get', 'getm'):
        r = GetReturn(g); ck.flow(f['w_%s_%s' % (g, N)], r, cfg); offs |= r.off; kinds.append(r.kinds)
    if ck.viol: return None
    off = one(offs, 'handle slot of task ' + N)
    ck.obligation('%s: the two backends make differently tagged handles [%s]' % (N, cfg), kinds[0] and kinds[1] and kinds[0] != kinds[1], 'both use %s' % (kinds,))
    d = DestroyOnce(off); ck.flow(f['w_tdtor_' + N], d, cfg)
    if not ck.viol: ck.count('%s owner destructor paths [%s]' % (N, cfg), min(d.yes, d.no), 1)
    ck.flow(f['w_tmove_' + N], MoveCtor(off), cfg); ck.flow(f['w_tassign_' + N], MoveAssign(off), cfg)
    ck.flow(f['w_tself_' + N], SelfAssign(off), cfg)
    class Empty(Rule):
        def exit(s, st, kind, ret, cx):
            if kind == 'ret' and st.mem.get((('arg', 0), off), (0, None))[1] != C(0): cx.violate(st, 'a default constructed task is not empty', cx._ev)
    ck.flow(f['w_tnew_' + N], Empty(), cfg)
    return off

def outcome(ck, f, cfg, N, off):
    """promise outcome: capture, store, hand over, destroy"""
    kw = {}
    if N == 'i': kw = dict(rets=('w_ret_i',), retarg=('never',))
    if N == 'r': kw = dict(rets=('w_ret_r',), retarg=ARG(1))
    if N == 'v': kw = dict(rets=('w_ret_v',))
    if N == 't': kw = dict(rets=('w_ret_t', 'w_retl_t'), ctor='VT::VT')
    m = promise_model(ck, cfg, f, N, **kw)
    if m is None: return
    isp = lambda r: r[0] == 'promise'
    def val(a, st, ret, cx):
        p = [k for k in st.mem if isp(k[0])]
        h = st.ts[3]
        if N in 'it' and ret is not None and ret[0] == 'p': ok = norm_ptr(ret) == (('promise', strip(h)), m.voff)
        elif N == 'r':
            c = st.mem.get((('promise', strip(h)), m.voff)); ok = c is not None and strip(c[1]) == strip(ret)
        elif N == 'i': 
            c = st.mem.get((('promise', strip(h)), m.voff)); ok = c is not None and c[1] == ret
        else: ok = True
        if not ok: cx.violate(st, 'yields something other than the stored result', cx._ev)
    for a in ('w_lres_', 'w_rres_'):
        n = a + N; arg = 1 if (a == 'w_rres_' and N == 't') else 0
        r = Access(m, isp, handle=(('arg', arg), off), value=val); ck.flow(f[n], r, cfg)
        if not ck.viol: ck.count('%s outcome paths [%s]' % (n, cfg), min(r.n.values()), 1)
    d = PromiseDtor(m, 'VT::~VT' if N == 't' else None); ck.flow(f['w_dtor_' + N], d, cfg)
    if not ck.viol: ck.count('%s promise destructor releases [%s]' % (N, cfg), d.nx, 1)
    return m

def run(ck):
    irs = ck.ir('m03.cpp', HANDLE_PRIMS)
    for cfg, f in irs.items():
        for N in 'ivrt':
            off = owner(ck, f, cfg, N)
            if off is None: continue
            ck.flow(f['w_init_' + N], Const(False, 'the body starts before the task is awaited'), cfg)
            ck.flow(f['w_fready_' + N], Const(False, 'a finished task does not stay suspended: its frame destroys itself under its owner'), cfg)
            S = set()
            for a in 'lrw':
                for b in ('', 'm'):
                    r = Start(off); ck.flow(f['w_%ssusp%s_%s' % (a, b, N)], r, cfg); S |= r.S
                ck.flow(f['w_%sready_%s' % (a, N)], LazyReady(off, False), cfg)
            ck.flow(f['w_isready_' + N], LazyReady(off, True), cfg)
            if ck.viol: continue
            S = one(S, 'continuation slot')
            for b in ('', 'm'): ck.flow(f['w_fin%s_%s' % (b, N)], Finish(S), cfg)
            outcome(ck, f, cfg, N, off)
    import pt; pt.around(ck, ('task',), ('task',), 4)
    ck.finish('typestate dataflow over the IR of every awaiter, promise and owner operation of task<int>, task<void>, task<int&> and task<opaque class>, both configurations and both coroutine backends',
              'suspended at start and end; continuation stored before the only start; final suspension transfers to exactly that continuation and touches nothing after; empty owner -> broken promise, nothing read; frame destroyed once by the owner; typestate over the coroutines put around a given operation: the given one, awaited once, its outcome handed on')
if __name__ == '__main__': main(run, 'M03')
