"""Scoped tasks: the three-way meeting of completion, await and drop (rules shared by M05 and M06).
Every finding carries the property it belongs to; a check only reports its own."""
from common import *
import m03
from m04 import Announce, ReadyWhen
PRIMS = HANDLE_PRIMS + ['keep\t^macoro::barrier::decrement\\(', 'rename vf.nc.inc\t^macoro::barrier::increment\\(', 'rename vf.nc.add\t^macoro::barrier::add\\(',
    'keep\t^((void|[a-z_:]*exception_ptr&) )?std::vector<std::__exception_ptr::exception_ptr.*>::(push_back|emplace_back)']
is_dec = lambda ev: ev.kind == 'call' and 'macoro::barrier::decrement' in (ev.dem or '')
is_inc = lambda ev: ev.kind == 'call' and ev.callee.startswith('vf.nc.')
is_push = lambda ev: ev.kind == 'call' and 'std::vector<std::__exception_ptr' in (ev.dem or '') and ('::push_back' in ev.dem or '::emplace_back' in ev.dem)
is_lock = lambda ev: ev.kind == 'call' and ev.callee == 'pthread_mutex_lock'
is_unlock = lambda ev: ev.kind == 'call' and ev.callee == 'pthread_mutex_unlock'

class Ctx:
    """what is known about one promise type"""
    pass

class Side(Rule):
    """completion or drop of the handle, for one value `old` of the shared word.
    kind: fin (promise is arg0 / promise of arg1), drop / assign (handle in arg0)"""
    def __init__(self, want, c, kind, old, second, dropped=None):
        self.want, self.c, self.kind, self.old, self.second, self.dropped = want, c, kind, old, second, dropped
        self.new = set(); self.cnt = dict(push=0, destroy=0, cont=0, dec=0, none=0)
    def V(self, p, cx, st, msg, ev):
        if p in self.want: cx.violate(st, msg, ev)
    def init(self, fn, flow):
        # h, phase, scope, cont, tag, exc, locked, pushed, destroyed, decremented, continued, source handle, took, emptied
        return dict2ts(dict(h=strip(ARG(1)) if self.kind == 'fin' else None, ph='pre', sc=None, ct=None, tag=None, x=None, lock=None, push=0, des=0, dec=0, con=0, src=None, took=False, empt=False))
    def private_roots(self, st):
        d = dict(st.ts)
        return {('arg', 0), ('arg', 1), ('promise', d['h'])} if self.kind != 'fin' else {('promise', d['h'])}
    def isP(self, r, d):
        if r == ('promise', d['h']): return True
        return self.kind == 'fin' and r == ('arg', 0)
    def event(self, st, ev, cx):
        d = dict(st.ts); c = self.c; V = self.V
        def out(): return dict2ts(d)
        onp = ev.root is not None and (d['h'] is not None or self.kind == 'fin') and self.isP(ev.root, d)
        if self.kind != 'fin':
            if ev.kind == 'load' and ev.root == ('arg', 0) and ev.off == c.off and d['h'] is None and not d['took']: d['h'] = strip(ev.res); return out()
            if self.kind == 'assign':
                if ev.kind == 'load' and ev.root == ('arg', 1) and ev.off == c.off and d['src'] is None: d['src'] = strip(ev.res); return out()
                if ev.kind == 'store' and ev.root == ('arg', 0) and ev.off == c.off: d['took'] = d['src'] is not None and strip(ev.val) == d['src']; return out()
                if ev.kind == 'store' and ev.root == ('arg', 1) and ev.off == c.off: d['empt'] = ev.val == C(0); return out()
        if ev.kind in ('rmw', 'cmpxchg') and onp and ev.off == c.W:
            if ev.kind == 'cmpxchg' and not ev.ok: return st.ts
            if d['ph'] == 'post': V('M06', cx, st, 'announces itself twice', ev); return st.ts
            o = ev.old if ev.kind == 'rmw' else ev.exp
            if not st.assume(mk_cmp('eq', o, C(self.old), 8 * ev.size), True): return DEAD
            nw = st.subst(ev.res if ev.kind == 'rmw' else ev.val)
            if nw[0] != 'c': V('M06', cx, st, 'the announcement leaves an unknown state', ev)
            self.new.add(nw)
            if ev.ord not in REL: V('M06', cx, st, 'the announcement does not release what was stored before it (ordering %s)' % ev.ord, ev)
            if ev.ord not in ACQ: V('M06', cx, st, 'the announcement does not acquire what the other side stored (ordering %s)' % ev.ord, ev)
            d['ph'] = 'post'; return out()
        if ev.kind == 'load' and onp:
            if d['ph'] == 'post' and (not self.second or d['des']): V('M06', cx, st, 'still touches the frame after %s' % ('destroying it' if d['des'] else 'announcing itself first: the other side may have destroyed it'), ev)
            if d['ph'] == 'pre' and self.second is not None and ev.off == c.S and self.kind == 'fin': V('M06', cx, st, 'reads whom to resume before knowing that it was stored', ev)
            if ev.off in c.scopes: d['sc'] = strip(ev.res)
            elif ev.off == c.S and c.S is not None: d['ct'] = strip(ev.res)
            elif c.m.tag and ev.off == c.m.tag[0]: d['tag'] = ev.res
            elif ev.off == c.m.X: d['x'] = strip(ev.res)
            elif ev.off == c.W and not ev.ord: V('M06', cx, st, 'reads the shared word without synchronisation', ev)
            return out()
        if ev.kind == 'store' and onp:
            if d['ph'] == 'post' and (not self.second or d['des']): V('M06', cx, st, 'still writes to the frame after %s' % ('destroying it' if d['des'] else 'announcing itself first'), ev)
            if ev.off == c.W: V('M06', cx, st, 'the shared word is overwritten without looking at the other side', ev)
            if self.kind != 'fin' and c.S is not None and ev.off == c.S:
                if ev.val != C(0): V('M06', cx, st, 'dropping the handle leaves a continuation behind', ev)
                if d['ph'] == 'post': V('M06', cx, st, 'changes the continuation after announcing the drop', ev)
            return out()
        if is_lock(ev): d['lock'] = strip(ev.args[0]); return out()
        if is_unlock(ev): d['lock'] = None; return out()
        if is_push(ev):
            v = norm_ptr(ev.args[0])
            if d['sc'] is None or v[0] != d['sc']: V('M05', cx, st, 'records the exception somewhere other than in its scope', ev)
            else: c.vec.add(v[1])
            if d['lock'] is None or norm_ptr(d['lock'])[0] != d['sc']: V('M05', cx, st, 'records the exception without holding the mutex of the scope', ev)
            else: c.mtx.add(norm_ptr(d['lock'])[1])
            a = norm_ptr(ev.args[1]); cell = st.mem.get(a)
            if not (self.isP(a[0], d) and a[1] == c.m.X) and not (cell and d['x'] is not None and strip(cell[1]) == d['x']): V('M05', cx, st, 'records something other than the captured exception', ev)
            if self.isE(st, d) is not True: V('M05', cx, st, 'records an exception although none was captured', ev)
            if d['ph'] != 'post' or not self.second: V('M05', cx, st, 'records the exception before knowing that nobody will await the task', ev)
            if d['dec']: V('M05', cx, st, 'records the exception after the scope may have been joined', ev)
            if d['des']: V('M05', cx, st, 'records the exception of a destroyed frame', ev)
            if d['push']: V('M05', cx, st, 'records the exception twice', ev)
            self.cnt['push'] += 1; d['push'] = 1; return out()
        if is_destroy(ev):
            if strip(ev.args[0]) != d['h']: V('M06', cx, st, 'destroys a frame other than its own', ev)
            if d['des']: V('M06', cx, st, 'destroys the frame twice', ev)
            if d['ph'] == 'pre' or not self.second: V('M06', cx, st, 'the side that comes first destroys the frame', ev)
            if d['dec']: V('M05', cx, st, 'the frame is destroyed after the scope may have been joined', ev)
            self.cnt['destroy'] += 1; d['des'] = 1; return out()
        if is_dec(ev):
            a = norm_ptr(ev.args[0])
            if self.kind != 'fin': V('M05', cx, st, 'the handle ends the task although the task itself is responsible', ev)
            if d['sc'] is None or a != (d['sc'], c.boff): V('M05', cx, st, 'the end of the task is announced to something other than its scope', ev)
            if d['dec']: V('M05', cx, st, 'the end of the task is announced twice', ev)
            if d['ph'] == 'pre': V('M05', cx, st, 'the end of the task is announced before its completion', ev)
            self.cnt['dec'] += 1; d['dec'] = 1; return out()
        if is_done(ev): V('M06', cx, st, 'inspects the frame of a coroutine that may be running', ev)
        if is_resume(ev) or is_next(ev):
            t = strip(ev.args[0])
            if is_next(ev) and nobody(t): return st.ts
            if self.kind != 'fin': V('M06', cx, st, 'dropping the handle resumes a coroutine', ev)
            elif d['ct'] is None or t != d['ct']: V('M06', cx, st, 'continues with something other than the awaiting coroutine', ev)
            if d['con']: V('M06', cx, st, 'continues the awaiting coroutine twice', ev)
            if d['ph'] == 'pre' or not self.second: V('M06', cx, st, 'continues an awaiting coroutine that has not announced itself', ev)
            if is_resume(ev) and not d['dec']: V('M05', cx, st, 'the awaiting coroutine runs before the end of the task is announced', ev)
            self.cnt['cont'] += 1; d['con'] = 1; return out()
        if d['dec'] and shared_access(ev, cx) and self.kind == 'fin': V('M05', cx, st, 'touches shared state after the scope may have been joined', ev)
        return st.ts
    def isE(self, st, d):
        if self.c.m.tag:
            o, E, V, Z = self.c.m.tag
            if d['tag'] is None: return None
            return st.ev(mk_cmp('eq', d['tag'], C(E), 32))
        return None if d['x'] is None else st.ev(mk_cmp('ne', d['x'], C(0)))
    def exit(self, st, kind, ret, cx):
        if kind == 'abort': return
        V = self.V; e = cx._ev; d = dict(st.ts)
        if kind == 'unwind': V('M06', cx, st, 'leaves by an exception', e); return
        if self.kind == 'assign':
            if st.ev(mk_cmp('eq', ARG(0), ARG(1))) is True:
                if d['ph'] != 'pre': V('M06', cx, st, 'self assignment drops the task', e)
                return
            if not d['took']: V('M06', cx, st, 'the assigned handle does not take over the frame', e)
            if not d['empt']: V('M06', cx, st, 'the moved-from handle still owns the frame', e)
        if self.kind != 'fin':
            null = None if d['h'] is None else st.ev(mk_cmp('eq', d['h'], C(0)))
            if null is True:
                if d['ph'] != 'pre': V('M06', cx, st, 'an empty handle announces a drop', e)
                self.cnt['none'] += 1; return
            if d['ph'] == 'pre': V('M06', cx, st, 'the handle goes away without announcing that it was dropped', e); return
            if null is None: V('M06', cx, st, 'may look into an empty handle', e)
            if self.second:
                if d['des'] != 1: V('M06', cx, st, 'the frame of a completed, dropped task is not destroyed', e)
                if not d['push'] and self.isE(st, d) is not False: V('M05', cx, st, 'the exception of a dropped task may be lost', e)
            return
        if d['ph'] == 'pre': V('M06', cx, st, 'completes without announcing it', e); V('M05', cx, st, 'completes without announcing it', e); return
        if d['dec'] != 1: V('M05', cx, st, 'the task ends without announcing it to its scope', e)
        if not self.second: return
        c = d['ct']
        null = None if c is None else st.ev(mk_cmp('eq', c, C(0)))
        if null is None: V('M06', cx, st, 'does not distinguish a dropped handle from an awaiting coroutine', e); return
        if null:
            if d['des'] != 1: V('M06', cx, st, 'the frame of a dropped task is not destroyed when it completes', e)
            if d['con']: V('M06', cx, st, 'continues although the handle was dropped', e)
            if not d['push'] and self.isE(st, d) is not False: V('M05', cx, st, 'the exception of a dropped task may be lost', e)
        else:
            if d['des']: V('M06', cx, st, 'destroys the frame although the awaiting coroutine still needs the result', e)
            if d['con'] != 1: V('M06', cx, st, 'the awaiting coroutine is not continued', e)
            if d['push']: V('M05', cx, st, 'records an exception that the awaiting coroutine gets', e)

def dict2ts(d): return tuple(sorted(d.items(), key=lambda kv: kv[0]))

class Born(Rule):
    """promise constructor: the task is announced to its scope exactly once"""
    def __init__(self, c): self.c = c
    def init(self, fn, flow): return 0
    def event(self, st, ev, cx):
        if is_inc(ev):
            r, o = norm_ptr(ev.args[0])
            if r != ('arg', 1): cx.violate(st, 'announces the task to something other than its scope', ev)
            self.c.boff = o
            if ev.callee.startswith('vf.nc.add') and ev.args[1] != C(1): cx.violate(st, 'announces a number of tasks other than one', ev)
            if st.ts: cx.violate(st, 'announces the task twice', ev)
            return st.ts + 1
        if is_dec(ev): cx.violate(st, 'announces the end of a task that has not started', ev)
        return st.ts
    def exit(self, st, kind, ret, cx):
        if kind == 'ret' and st.ts != 1: cx.violate(st, 'the task is not announced to its scope', cx._ev)
        if kind == 'ret':
            self.c.scopes = {k[1] for k, v in st.mem.items() if k[0] == ('arg', 0) and strip(v[1]) == strip(ARG(1))}

class Silent(Rule):
    """no announcement to the scope and no access to the shared word"""
    def __init__(self, msg): self.msg = msg
    def event(self, st, ev, cx):
        if is_inc(ev) or is_dec(ev) or ev.kind in ('rmw', 'cmpxchg') or is_destroy(ev) or is_resume(ev): cx.violate(st, self.msg, ev)
        return st.ts

def analyse(ck, f, cfg, N, want):
    """all obligations of one scoped_task<T>; returns the context"""
    c = Ctx(); c.boff = None; c.scopes = set(); c.vec = set(); c.mtx = set(); c.S = None
    nul = lambda r: r if want & {'M05'} else Quiet(r)
    b = Born(c); ck.flow(f['w_ctor_' + N], b if 'M05' in want else Quiet(b), cfg)
    if ck.viol or (c.boff is None and 'M05' in want): return None
    g = m03.GetReturn('get'); ck.flow(f['w_get_' + N], g, cfg)
    if ck.viol: return None
    c.off = one(g.off, 'handle slot of scoped_task ' + N)
    ck.flow(f['w_init_' + N], m03.Const(True, 'a scoped task does not start by itself'), cfg)
    kw = dict(i=dict(rets=('w_ret_i',), retarg=('never',)), r=dict(rets=('w_ret_r',), retarg=ARG(1)), v=dict(rets=('w_ret_v',)), t=dict(rets=('w_ret_t',), ctor='VT::VT'))[N]
    c.m = promise_model(ck, cfg, f, N, **kw)
    if c.m is None: return None
    # shared word
    wf = {(e.root, e.off) for n in ('w_fin_', 'w_finm_') for e in probe(f[n + N]).of('rmw', 'cmpxchg')}
    if not ck.obligation('%s: completion announces itself by one atomic read-modify-write [%s]' % (N, cfg), len({o for _, o in wf}) == 1, 'words %s' % wf): return None
    c.W = next(iter(wf))[1]
    z = [st.mem.get((('arg', 0), c.W)) for k, r, st in probe(f['w_ctor_' + N]).exits if k == 'ret']
    class Init(Rule):     # the state word is set before the increment publishes the task
        def init(s, fn, fl): return None
        def event(s, st, ev, cx):
            if ev.kind == 'store' and ev.root == ('arg', 0) and ev.off == c.W: return ev.val
            return st.ts
        def exit(s, st, kind, ret, cx):
            if kind == 'ret': s.vals.add(st.ts)
    i = Init(); i.vals = set(); Flow(f['w_ctor_' + N], i).run()
    if not ck.obligation('%s: the shared word starts in a known state [%s]' % (N, cfg), len(i.vals) == 1 and None not in i.vals and next(iter(i.vals))[0] == 'c', str(i.vals)): return None
    s0 = next(iter(i.vals))[1]
    # awaiter: takes the frame out of the handle
    tk = set()
    class Take(Rule):
        def init(s, fn, fl): return (None, False)
        def event(s, st, ev, cx):
            h, e = st.ts
            if ev.kind == 'load' and ev.root == ('arg', 1) and ev.off == c.off and h is None: return (strip(ev.res), e)
            if is_destroy(ev) or is_resume(ev) or ev.kind in ('rmw', 'cmpxchg'): cx.violate(st, 'preparing the await already acts on the task', ev)
            return st.ts
        def exit(s, st, kind, ret, cx):
            if kind != 'ret': return
            h, e = st.ts
            o = [k[1] for k, v in st.mem.items() if k[0] == ('arg', 0) and strip(v[1]) == h]
            if h is None or len(o) != 1: cx.violate(st, 'the awaiter does not take over the frame', cx._ev)
            tk.update(o)
            if st.mem.get((('arg', 1), c.off), (0, None))[1] != C(0): cx.violate(st, 'the handle still owns the frame that the awaiter destroys', cx._ev)
    ck.flow(f['w_take_' + N], Take(), cfg)
    if ck.viol: return None
    c.aoff = one(tk, 'handle slot of the awaiter')
    aw = ('w_asusp_', 'w_asuspm_')
    def awaits(old, second):
        new = set(); sl = set()
        for n in aw:
            r = Announce(None, c.W, old, second, 'await', None, c.aoff)
            ck.flow(f[n + N], r if 'M06' in want else Quiet(r), '%s, word=%s' % (cfg, old)); new |= r.new; sl |= r.slots
        return new, sl
    na, S = awaits(s0, False)
    if ck.viol: return None
    c.S = one(S, 'continuation slot'); na = one(na, 'state after the await')[1]
    cnt = {}
    def run(names, kind, old, second):
        new = set()
        for n in names:
            r = Side(want, c, kind, old, second); ck.flow(f[n + N], r, '%s, word=%s' % (cfg, old)); new |= r.new
            for k, v in r.cnt.items(): cnt[kind, k] = cnt.get((kind, k), 0) + v
        return new
    fin = ('w_fin_', 'w_finm_'); drop = ('w_drop_',); asg = ('w_tassign_',)
    nf = run(fin, 'fin', s0, False); nd = run(drop, 'drop', s0, False); nd |= run(asg, 'assign', s0, False)
    if ck.viol: return None
    nf = one(nf, 'state after completion')[1]; nd = one(nd, 'state after the drop')[1]
    if 'M06' in want and not ck.obligation('%s: completion can be told from await and drop [%s]' % (N, cfg), s0 != nf and nf not in (na, nd) and s0 not in (na, nd), str((s0, na, nd, nf))): return None
    ends = set()
    for w in sorted({na, nd}): ends |= run(fin, 'fin', w, True)
    ends |= run(drop, 'drop', nf, True) | run(asg, 'assign', nf, True)
    n3, _ = awaits(nf, True); ends |= n3
    if ck.viol: return None
    if 'M05' in want:
        for k in ('fin', 'drop', 'assign'): ck.count('%s: exceptions recorded by %s [%s]' % (N, k, cfg), cnt.get((k, 'push'), 0), 1)
        ck.count('%s: ends announced [%s]' % (N, cfg), cnt.get(('fin', 'dec'), 0), 2)
    if 'M06' in want:
        for k in ('fin', 'drop', 'assign'): ck.count('%s: frames destroyed by %s [%s]' % (N, k, cfg), cnt.get((k, 'destroy'), 0), 1)
        ck.count('%s: continuations by completion [%s]' % (N, cfg), cnt.get(('fin', 'cont'), 0), 1)
        for s, cpl in ((s0, False), (na, False), (nd, False), (nf, True)):
            r = Says(c, s, cpl); ck.flow(f['w_isready_' + N], r, '%s, word=%s' % (cfg, s))
        class EmptyReady(Rule):
            def init(s, fn, fl): return None
            def event(s, st, ev, cx):
                if ev.kind == 'load' and ev.root == ('arg', 0) and ev.off == c.aoff and st.ts is None: return strip(ev.res)
                if ev.root is not None and ev.root[0] == 'promise' and (st.ts is None or st.ev(mk_cmp('eq', st.ts, C(0))) is not False): cx.violate(st, 'looks into an empty task', ev)
                return st.ts
            def exit(s, st, kind, ret, cx):
                if kind != 'ret': return
                # an empty awaiter must not suspend; a present one announces itself in await_suspend
                h = st.ts; null = None if h is None else st.ev(mk_cmp('eq', h, C(0)))
                r = st.ev(st.subst(ret))
                if ret == mk_cmp('eq', h or UNDEF, C(0)) or st.ev(mk_not(ret) if is_bool(ret) else ret) is None and h is not None and (ret == ('zx', mk_cmp('eq', h, C(0)))): return
                if null is True and r is not True: cx.violate(st, 'awaiting an empty task would suspend for ever', cx._ev)
                elif null is None: cx.violate(st, 'readiness does not look at whether there is a task', cx._ev)
                elif null is False and r is not False: cx.violate(st, 'may not suspend although the task still runs', cx._ev)
        ck.flow(f['w_aready_' + N], EmptyReady(), cfg)
        dd = DestroyOnce(c.aoff); ck.flow(f['w_adtor_' + N], dd, cfg)
        ck.flow(f['w_tmove_' + N], MoveCtor(c.off), cfg); ck.flow(f['w_tself_' + N], SelfAssign(c.off), cfg)
        for n in ('w_tmove_', 'w_tself_', 'w_tnew_', 'w_get_'): ck.flow(f[n + N], Silent('moving a handle acts on the task'), cfg)
        class Empty(Rule):
            def exit(s, st, kind, ret, cx):
                if kind == 'ret' and st.mem.get((('arg', 0), c.off), (0, None))[1] != C(0): cx.violate(st, 'a default constructed task is not empty', cx._ev)
        ck.flow(f['w_tnew_' + N], Empty(), cfg)
        def val(a, st, ret, cx):
            h = st.ts[3]; cell = st.mem.get((('promise', strip(h)), c.m.voff)) if h else None
            ok = True
            if N == 'i': ok = cell is not None and cell[1] == ret
            if N == 'r': ok = cell is not None and strip(cell[1]) == strip(ret)
            if not ok: cx.violate(st, 'yields something other than the stored result', cx._ev)
        arg = 1 if N == 't' else 0
        r = Access(c.m, lambda x: x[0] == 'promise', handle=(('arg', arg), c.aoff), value=val); ck.flow(f['w_ares_' + N], r, cfg)
        if not ck.viol: ck.count('%s outcome paths [%s]' % (N, cfg), min(r.n.values()), 1)
        pd = PromiseDtor(c.m, 'VT::~VT' if N == 't' else None); ck.flow(f['w_dtor_' + N], pd, cfg)
    for n in ('w_dtor_', 'w_unh_'): ck.flow(f[n + N], Silent('announces something outside start and completion'), cfg)
    return c

class Says(Rule):
    """is_ready() as a function of the state word"""
    def __init__(self, c, state, complete): self.c, self.state, self.complete = c, state, complete
    def init(self, fn, flow): return None
    def event(self, st, ev, cx):
        if ev.kind == 'load' and ev.root == ('arg', 0) and ev.off == self.c.off and st.ts is None: return strip(ev.res)
        if is_done(ev): cx.violate(st, 'inspects the frame of a coroutine that may be running', ev)
        if ev.kind in ('load', 'store', 'rmw', 'cmpxchg') and ev.root[0] == 'promise':
            if st.ts is None or st.ev(mk_cmp('eq', st.ts, C(0))) is not False: cx.violate(st, 'looks into an empty task', ev)
            if ev.kind != 'load' or ev.off != self.c.W: cx.violate(st, 'readiness touches something other than the shared word', ev); return st.ts
            if not ev.ord: cx.violate(st, 'reads the shared word without synchronisation', ev)
            if not st.assume(mk_cmp('eq', ev.res, C(self.state), 8 * ev.size), True): return DEAD
        return st.ts
    def exit(self, st, kind, ret, cx):
        if kind != 'ret': return
        null = None if st.ts is None else st.ev(mk_cmp('eq', st.ts, C(0)))
        r = st.ev(st.subst(ret))
        if null is True:
            if r is not False: cx.violate(st, 'an empty task claims to be ready', cx._ev)
        elif r is not self.complete: cx.violate(st, 'claims to be ready while the task still runs' if not self.complete else 'a completed task is never ready', cx._ev)

class Quiet(Rule):
    """runs a rule for its anchors only"""
    def __init__(self, r): self.r = r
    def init(self, fn, flow): return self.r.init(fn, flow)
    def event(self, st, ev, cx): return self.r.event(st, ev, Hush(cx))
    def exit(self, st, kind, ret, cx): self.r.exit(st, kind, ret, Hush(cx))
    def __getattr__(self, k): return getattr(self.r, k)
class Hush:
    def __init__(self, cx): self._cx = cx
    def __getattr__(self, k): return getattr(self._cx, k)
    def violate(self, *a): pass
