"""handles: every operation, for each kind of address it can be given"""
from common import *
from flow import DEAD
KINDS = ('no-op', 'macro', 'compiler')
def bit0(a): return mk_cmp('eq', mk_op('and', a, C(1), 64), C(0), 64)
def kind(st, a):
    """which backend made the coroutine at this address, as established on the path"""
    if st.ev(mk_cmp('eq', a, NOOP, 64)) is True or strip(st.subst(a)) == NOOP: return 'no-op'
    b = st.ev(bit0(a))
    if b is True: return 'compiler'
    if b is False and st.ev(mk_cmp('eq', a, NOOP, 64)) is False: return 'macro'
def untag(a, t):
    """t as an offset from the frame behind the tagged address a"""
    t = strip(t); off = 0
    if t[0] == 'p' and t != a: off, t = t[2], t[1]
    elif t[0] == 'lin': off, t = t[2], t[1]
    a1 = strip(a)
    if t[0] == 'op' and (t[1], frozenset(t[2:])) in (('and', frozenset((a1, C(-2)))), ('xor', frozenset((a1, C(1))))): return off
    r, o = norm_ptr(a1)
    if t == r and off != o: return off - o + 1              # a - 1
    if a1[0] == 'p' and t == a1[1]: return off - a1[2] + 1
class Kinds(Rule):
    """the function is analysed once for every kind of address"""
    kinds = KINDS
    def starts(self, st, flow):
        out = []
        for k in self.kinds:
            s = st.copy(); a = ARG(0)
            if k == 'no-op': s.seteq(strip(a), 43)
            else: s.assume(mk_cmp('eq', a, NOOP, 64), False); s.assume(bit0(a), k == 'compiler')
            s.ts = self.first(k); out.append(s)
        return out
    def first(self, k): return (k, 0)
    def frame(self, st, ev, cx):
        """the field of the macro frame this memory access is about"""
        return untag(self.cur(st), ev.ptr) if ev.ptr is not None else None
    def cur(self, st): return ARG(0)
class Resume(Kinds):
    """symmetric transfer: resume the coroutine, then whatever it hands back, until there is none"""
    def __init__(self): self.slots = set()
    def first(self, k): return (k, ARG(0), 0)
    def event(self, st, ev, cx):
        k0, cur, n = st.ts; V = lambda m: cx.violate(st, m, ev)
        k = kind(st, cur)
        if ev.kind == 'unwind' or n == 'over' and ev.kind in ('call', 'icall'):
            if n == 'over' and ev.kind == 'call' and ev.callee == 'llvm.coro.resume': V('resumes a second coroutine')
            return st.ts
        if ev.kind == 'call' and ev.callee == 'llvm.coro.resume':
            if k != 'compiler': V('hands a coroutine the compiler did not make to the compiler\'s resume')
            if strip(ev.args[0]) != strip(cur): V('resumes a coroutine other than the one the handle refers to')
            return (k0, cur, 'over')
        if ev.kind == 'icall':
            if k != 'macro': V('resumes through a frame without knowing that the macros made it'); return (k0, cur, 'over')
            if untag(cur, ev.args[0]) != 0: V('resumes with a frame other than the one the handle refers to')
            return (k0, ev.res, 0)
        if ev.kind in ('load', 'store', 'rmw', 'cmpxchg') and ev.root is not None and ev.root[0] != 'al' and ev.root[0] != 'g':
            o = untag(cur, ev.ptr)
            if k != 'macro' or o is None: V('touches memory before knowing what the handle refers to' if k != 'no-op' else 'touches memory on behalf of a no-op handle')
            elif ev.kind == 'load': self.slots.add(o)
            else: V('changes the frame of a coroutine it only resumes')
        return st.ts
    def exit(self, st, how, ret, cx):
        k0, cur, n = st.ts
        if how == 'ret' and n != 'over' and kind(st, cur) != 'no-op': cx.violate(st, 'leaves the %s it was to resume suspended' % ('coroutine' if strip(cur) == strip(ARG(0)) else 'coroutine handed back'), cx._ev)
class Act(Kinds):
    """one action on exactly the coroutine referred to"""
    def __init__(self, intr, what, via=True): self.intr = intr; self.what = what; self.slots = set(); self.rets = {k: set() for k in KINDS}; self.via = via; self.loads = {}
    def event(self, st, ev, cx):
        k, n = st.ts; V = lambda m: cx.violate(st, m, ev)
        if ev.kind == 'unwind': return st.ts
        hit = ev.kind == 'call' and ev.callee in self.intr
        if hit and self.intr == ('llvm.coro.promise',) and ev.args[2] != C(0): V('takes an address for a promise')
        if hit:
            if k != 'compiler': V('hands a %s to the compiler\'s %s' % ('no-op handle' if k == 'no-op' else 'coroutine of the macros', self.what))
            if strip(ev.args[0]) != strip(ARG(0)): V('acts on a coroutine other than the one the handle refers to')
            return (k, n + 1)
        if ev.kind == 'icall':
            if k != 'macro': V('calls through the frame of a %s' % ('no-op handle' if k == 'no-op' else 'coroutine the compiler made'))
            elif untag(ARG(0), ev.args[0]) != 0: V('acts on a frame other than the one the handle refers to')
            self.icall = True
            return (k, n + 1)
        if ev.kind in ('load', 'store', 'rmw', 'cmpxchg') and ev.root is not None and ev.root[0] not in ('al', 'g') or (ev.kind in ('load', 'store') and ev.root is None):
            o = untag(ARG(0), ev.ptr) if ev.ptr is not None else None
            if k != 'macro' or o is None: V('touches memory on behalf of a %s handle' % k)
            elif ev.kind == 'load': self.slots.add(o); self.loads[o] = ev.res
            else: V('changes the frame')
        return st.ts
    def exit(self, st, how, ret, cx):
        if how != 'ret': return
        k, n = st.ts
        if ret is not None: self.rets[k].add(strip(st.subst(ret)) if k == 'no-op' else strip(ret))
        want = 0 if k == 'no-op' else 1 if k == 'compiler' and self.intr else 1 if k == 'macro' and self.via else 0
        if n != want: cx.violate(st, 'acts %d times on a %s coroutine' % (n, k), cx._ev)

class Drive(Resume):
    """resuming the standard handle of a macro coroutine: its body runs once, then whatever it hands back"""
    def __init__(self, body, base): self.slots = set(); self.body = body; self.base = base; self.frm = set(); self.n = 0
    def starts(self, st, flow): return (st,)
    def init(self, fn, flow): return (None, None, 'before')
    def branch(self, st, c, v, cx):
        # as everywhere: the addresses of compiler coroutines and of no coroutine are not odd frames
        return st.ts
    def event(self, st, ev, cx):
        k0, cur, n = st.ts; V = lambda m: cx.violate(st, m, ev)
        if ev.kind in ('call', 'unwind') and ev.callee == self.body:
            if n != 'before': V('runs the body again')
            if st.ev(mk_cmp('eq', ev.args[0], C(0), 64)) is True: return DEAD       # the adapter gives it the frame, which is somewhere
            if padd(ev.args[0], self.base) != ev.args[1] and norm_ptr(padd(ev.args[0], self.base)) != norm_ptr(ev.args[1]): V('runs the body on an object other than the frame %s' % (ev.args,))
            r, o = norm_ptr(ev.args[0]); w = [k for k, v in st.mem.items() if norm_ptr(strip(v[1]))[0] == r and k[0] == ('arg', 0)]
            if len(w) == 1: self.frm.add((w[0][1], o - norm_ptr(st.mem[w[0]][1])[1]))
            else: V('runs the body of a frame that is not the one it was made for')
            return (None, ev.res, 'over' if ev.kind == 'unwind' else 0)
        if n == 'before' or n == 'over' or (ev.dem or '').startswith('std::') or ev.kind in ('load', 'store', 'rmw', 'cmpxchg') and self.counts(st, ev): 
            if n == 'before' and ev.kind == 'call' and ev.callee == 'llvm.coro.resume': V('resumes something before the body ran')
            return Resume.event(self, st, ev, cx) if n == 'over' and cur is not None and ev.kind == 'call' else st.ts
        if ev.kind == 'icall' and untag(cur, ev.args[0]) is None and self.counts(st, ev): return st.ts
        return Resume.event(self, st, ev, cx)
    def counts(self, st, ev):
        """a reference count: memory that is not reached from what the body handed back"""
        return untag(st.ts[1], ev.ptr if ev.kind != 'icall' else ev.args[0]) is None and ev.root is not None and ev.root != ('arg', 0) and not (ev.root[0] == 's' and any(norm_ptr(strip(v[1]))[0] == ev.root for k, v in st.mem.items() if k[0] == ('arg', 0)))
    def exit(self, st, how, ret, cx):
        k0, cur, n = st.ts
        if how != 'ret': return
        self.n += 1
        if n == 'before': cx.violate(st, 'suspends without having run the body', cx._ev)
        elif n != 'over' and ret is not None and strip(ret) == strip(cur): return           # handed on
        elif n != 'over' and kind(st, cur) != 'no-op': cx.violate(st, 'leaves the coroutine the body handed back suspended', cx._ev)
class Adapter(Rule):
    """the coroutine behind the standard handle of a macro coroutine"""
    def __init__(self, this, fld, done, frm): self.this = this; self.fld = fld; self.done = done; self.frm = frm; self.outer = set(); self.n = dict(run=0, final=0, destroyed=0)
    def pure_call(self, dem, cal): return (dem or '').startswith('std::')
    def init(self, fn, flow): return ('new', None, None, None, 0)      # phase, result of the last suspension, what mDone was, handle of the frame, how often destroyed
    def event(self, st, ev, cx):
        ph, susp, dn, outer, n = st.ts; V = lambda m: cx.violate(st, m, ev)
        gone = ph in ('idle', 'final') and susp is not None and st.ev(mk_cmp('eq', susp, C(1), 8)) is True
        if ev.kind == 'call' and ev.callee == 'llvm.coro.id': self.pr = norm_ptr(ev.args[1])[0]
        if ev.kind == 'load' and not gone and ev.off == self.done and ev.root is not None and self.own(st, ev.root): return (ph, susp, strip(ev.res), outer, n)
        if ev.kind in ('call', 'unwind') and 'adapter()::' in (ev.dem or '') and 'await_suspend(' in ev.dem:
            if ev.kind == 'unwind': return st.ts
            if ph == 'new': V('runs the coroutine before it is started')
            elif ph != 'idle': V('runs the coroutine twice for one resumption')
            elif dn is None or st.ev(mk_cmp('eq', dn, C(0), 8)) is not True and st.ev(dn) is not False: V('runs the coroutine without knowing that it is not over')
            for off, d in self.frm:
                r, o = norm_ptr(ev.args[0]); m = st.mem.get((r, o + off))
                if m is None or padd(m[1], d) != self.this: V('runs a coroutine other than the one it belongs to')
            self.n['run'] += 1
            return ('ran', None, None, outer, n)
        if ev.kind == 'call' and ev.callee == 'llvm.coro.suspend':
            s = strip(ev.res) if ev.res is not None else None
            if ev.args[1] == C(0):
                if ph == 'idle': V('suspends without having run the coroutine')
                return ('idle', s, None, outer, n)
            if dn is None or st.ev(mk_cmp('eq', dn, C(0), 8)) is not False and st.ev(dn) is not True: V('is over although the coroutine is not')
            self.n['final'] += 1
            return ('final', s, None, outer, n)
        if gone:
            if ev.kind == 'load' and ev.root == self.pr and ev.off != self.done and outer is None: self.outer.add(ev.off); return (ph, susp, dn, strip(ev.res), n)
            if ev.kind == 'icall' or ev.kind == 'call' and ev.callee == 'llvm.coro.destroy':
                k = kind(st, outer) if outer is not None else None
                if outer is None or not (ev.kind == 'icall' and k == 'macro' and untag(outer, ev.args[0]) == 0 or ev.kind == 'call' and k == 'compiler' and strip(ev.args[0]) == outer): V('destroys a coroutine other than its own')
                return (ph, susp, dn, outer, n + 1)
        return st.ts
    def own(self, st, r):
        if r == self.pr: return True
        if r[0] != 'promise': return False
        m = st.mem.get((norm_ptr(self.this)[0], self.fld)); return m is not None and strip(m[1]) == strip(r[1])
    def exit(self, st, how, ret, cx):
        ph, susp, dn, outer, n = st.ts
        if how != 'ret' or susp is None or st.ev(mk_cmp('eq', susp, C(1), 8)) is not True: return
        self.n['destroyed'] += 1
        null = outer is not None and (st.ev(mk_cmp('eq', outer, C(0), 64)) is True or kind(st, outer) == 'no-op')
        if null and n or not null and n != 1: cx.violate(st, 'destroys the coroutine %d times' % n, cx._ev)
class Finished(Rule):
    """the end of a macro coroutine: its standard handle sees it and is resumed to its own end"""
    def __init__(self, fld): self.fld = fld; self.done = set()
    def init(self, fn, flow): return (None, 0)
    def event(self, st, ev, cx):
        d, n = st.ts; V = lambda m: cx.violate(st, m, ev)
        own = lambda t: (lambda m: m is not None and strip(m[1]) == strip(t))(st.mem.get((('arg', 0), self.fld)))
        if n and ev.kind in ('load', 'store', 'icall', 'rmw', 'cmpxchg') and ev.root is not None and ev.root[0] != 'al': V('touches the coroutine after its standard handle was resumed')
        if ev.kind == 'store' and ev.root is not None and ev.root[0] == 'promise' and own(ev.root[1]) and ev.val is not None:
            if strip(ev.val) == C(0): V('says that the coroutine is not over')
            return (ev.off, n)
        if ev.kind == 'call' and ev.callee == 'llvm.coro.resume':
            if not own(ev.args[0]): V('resumes a standard handle other than its own')
            if d is None: V('resumes the standard handle before it says that the coroutine is over')
            return (d, n + 1)
        return st.ts
    def exit(self, st, how, ret, cx):
        if how != 'ret': return
        d, n = st.ts
        if n != 1 or d is None: cx.violate(st, 'the standard handle does not learn that the coroutine is over', cx._ev)
        self.done.add(d)

FRAMEFN = r'^macoro::Frame(Base)?<.*>::\w+\(macoro::FrameBase<void>\*\)'
def run(ck):
    for cfg, f in ck.ir('m19.cpp', [], entries=['^w_', r'^w_coro\(Arg\)$', FRAMEFN, r'^w_coro\(Arg\)::.*::operator\(\)\(macoro::FrameBase<MP>\*\)']).items():
        nm = lambda s: '%s [%s]' % (s, cfg)
        ob = lambda s, ok, m='', **k: ck.obligation(nm(s), ok, m)
        sl = {}
        for n in ('w_resume_v', 'w_resume_t', 'w_call_v', 'w_call_t'):
            r = Resume(); ck.flow(f[n], r, cfg); sl[n] = r.slots
        if ck.viol: continue
        RES = one([o for s in sl.values() for o in s], 'place of the resume function')
        def act(n, intr, what, **k):
            r = Act(intr, what, **k); ck.flow(f[n], r, cfg); return r
        DES = one([o for n in ('w_destroy_v', 'w_destroy_t') for o in act(n, ('llvm.coro.destroy',), 'destroy').slots], 'place of the destroy function')
        dones = set()
        for n in ('w_done_v', 'w_done_t'):
            r = act(n, ('llvm.coro.done',), 'done', via=False); R = r.rets
            ob('%s: a no-op is never done' % n, R['no-op'] == {C(0)}, str(R['no-op']))
            ob('%s: a compiler coroutine says itself whether it is done' % n, len(R['compiler']) == 1 and all(t[0] == 's' for t in R['compiler']), str(R['compiler']))
            for t in R['macro']:
                ok = t[0] == 'cmp' and t[1] == 'eq' and t[3][0] == 'c' and any(t[2] == strip(v) for v in r.loads.values())
                ob('%s: a macro coroutine is done exactly at its final suspension' % n, ok, str(t))
                if ok: dones |= {(o, t[3][1]) for o, v in r.loads.items() if strip(v) == t[2]}
        if ck.viol: continue
        IDX, FIN = one(dones, 'mark of the final suspension')
        ob('the mark of the final suspension is the one macro coroutines use', FIN == 4294967293, str(FIN))
        casts = set(); fld = set()
        for n in ('w_cast_v', 'w_cast_vo', 'w_cast_t', 'w_cast_to'):
            r = Act((), 'cast', via=False); r.icall = False
            class CastR(Act):
                def exit(self, st, how, ret, cx):
                    if how != 'ret': return
                    k, m = st.ts; self.rets[k].add(strip(ret))
            r = CastR((), 'cast'); r.icall = False; ck.flow(f[n], r, cfg); R = r.rets
            ob('%s: a no-op stays a no-op' % n, len(R['no-op']) == 1 and all('noop_coroutine' in str(t) for t in R['no-op']), str(R['no-op']))
            ob('%s: a compiler coroutine keeps its address' % n, R['compiler'] <= {strip(ARG(0)), ARG(0)} and R['compiler'], str(R['compiler']))
            s = one(r.slots, 'where a macro frame keeps its standard handle')
            if r.icall: casts.add(s); ob('%s: a macro coroutine gives its own standard handle' % n, len(R['macro']) == 1 and all(t[0] == 's' for t in R['macro']), str(R['macro']))
            else: fld.add(s); ob('%s: a macro coroutine gives its own standard handle' % n, R['macro'] == {strip(v) for v in r.loads.values()}, str(R['macro']))
        class PromR(Act):
            def exit(self, st, how, ret, cx):
                if how == 'ret': self.rets[st.ts[0]].add(strip(ret))
        r = PromR(('llvm.coro.promise',), 'promise'); r.kinds = ('macro', 'compiler'); ck.flow(f['w_promise'], r, cfg)
        ob('the promise of a compiler coroutine is found by the compiler', r.rets['compiler'] == {strip(promise_of(ARG(0)))}, str(r.rets['compiler']))
        off = {untag(ARG(0), t) for t in r.rets['macro']}
        ob('the promise of a macro coroutine lies in its frame', len(off) == 1 and None not in off, str(r.rets['macro']))
        if None in off or len(off) != 1: continue
        PR, = off
        def rets(n): return [strip(r) for k, r, s, ev in paths(f[n]) if k == 'ret']
        def quiet(n): return not [e for k, r, s, ev in paths(f[n]) if k == 'ret' for e in ev if e.kind in ('call', 'icall', 'rmw', 'cmpxchg') or e.kind in ('load', 'store') and (e.root is None or e.root[0] not in ('al',))]
        ob('a handle made from the promise of a compiler coroutine is its address', rets('w_from_s') == [strip(handle_of(ARG(0)))], str(rets('w_from_s')))
        t = rets('w_from_m'); base = padd(ARG(0), -PR)
        def tagged(t, b): return t in (strip(mk_op('or', b, C(1), 64)), strip(mk_op('xor', b, C(1), 64)), strip(padd(b, 1)))
        ob('a handle made from the promise of a macro coroutine is its tagged frame', len(t) == 1 and tagged(t[0], base), str(t))
        # the promises of the library
        gro = sorted(n for n in f if n.startswith('w_gro')); ck.count('return objects %s' % cfg, len(gro), 22)
        for n in gro:
            k, x = n[5], n[7:]; b = None
            if k == 'm':
                o = rets('w_off_' + x); b = padd(ARG(1), -o[0][1]) if len(o) == 1 and o[0][0] == 'c' else None
            for how, r, s, ev in paths(f[n]):
                if how != 'ret': continue
                h = [strip(v[1]) for q, v in s.mem.items() if q[0] == ('arg', 0) and q[1] == 0]
                ob('%s: a promise hands out its own coroutine, as the one who made it reaches it' % n, len(h) == 1 and (h[0] == strip(handle_of(ARG(1))) if k == 's' else b is not None and tagged(h[0], b)), str(h))
        for n in sorted(n for n in f if n.startswith('w_wa')):
            m = n[4] == 'm'; o = rets('w_off_' + n[6:])
            b = padd(ARG(0), -o[0][1]); F = First(b); ck.flow(f[n], F, cfg)
            own = {strip(x) for x in (b, mk_op('and', mk_op('xor', b, C(1), 64), C(-2), 64), mk_op('xor', mk_op('xor', b, C(1), 64), C(1), 64))} if m else {strip(handle_of(ARG(0)))}
            ob('%s: an operation of when_all is started as what it is' % n, F.seen and all((e.kind == 'icall') == m and strip(e.args[0]) in own for e in F.seen) and not F.never, str([(e.kind, e.args) for e in F.seen]))
        for n in sorted(n for n in f if n.startswith('w_id_')):
            ob('%s: keeps the address' % n, rets(n) == [strip(ARG(0))] and quiet(n), str(rets(n)))
        for n in ('w_null_v', 'w_null_t', 'w_null_n', 'w_null_a', 'w_null_at'): ob('%s: refers to nothing' % n, rets(n) == [C(0)], str(rets(n)))
        for n in ('w_bool_v', 'w_bool_t'): ob('%s: tells whether there is a coroutine' % n, rets(n) == [strip(mk_cmp('ne', ARG(0), C(0), 64))], str(rets(n)))
        for n, p in (('w_eq', 'eq'), ('w_ne', 'ne'), ('w_eq_t', 'eq')): ob('%s: equal exactly when the addresses are' % n, rets(n) == [strip(mk_cmp(p, ARG(0), ARG(1), 64))], str(rets(n)))
        for n in ('w_noop', 'w_noop_v'): ob('%s: the no-op address' % n, rets(n) == [NOOP], str(rets(n)))
        T = {C(1), C(-1)}
        for n, v in (('w_n_done', {C(0)}), ('w_nv_done', {C(0)}), ('w_n_bool', T), ('w_nv_bool', T), ('w_nv_eq', T)): ob('%s: what a no-op handle says' % n, len(rets(n)) == 1 and rets(n)[0] in v and quiet(n), str(rets(n)))
        for n in ('w_n_resume', 'w_n_destroy', 'w_nv_resume', 'w_nv_destroy'): ob('%s: has no effect' % n, quiet(n))
        for n in ('w_n_cast', 'w_nv_cast'): ob('%s: the standard no-op' % n, all('noop_coroutine' in str(r) for r in rets(n)) and rets(n), str(rets(n)))
        ob('w_nv_is: a no-op handle is recognised', rets('w_nv_is') == [strip(mk_cmp('eq', ARG(0), NOOP, 64))], str(rets('w_nv_is')))
        ob('w_isstd: the low bit tells the backend', rets('w_isstd') == [strip(bit0(ARG(0)))] , str(rets('w_isstd')))
        # the frame of a macro coroutine
        fn = {x.dem: x for x in f.values()}
        body = one([x for d, x in fn.items() if d.endswith('operator()(macoro::FrameBase<MP>*)') and 'FrameBase<void>' not in d], 'body of the coroutine')
        made = creation(ck, [x for x in f.values() if x.dem == 'w_coro(Arg)'][0], PR)
        if made is None: continue
        BASE, mem, prom = made
        ob('a new macro coroutine is not at its final suspension', mem.get(BASE + IDX, C(FIN)) != C(FIN), str(mem.get(BASE + IDX)))
        def target(slot):
            t = mem.get(BASE + slot)
            d = [x for n, x in f.items() if t is not None and t[0] == 'p' and t[1][0] == 'g' and t[1][1] == n]
            return d[0] if d else None
        ts = {w: target(o) for w, o in (('resume', RES), ('destroy', DES), ('cast', one(casts, 'place of the conversion')))}
        for w, x in ts.items(): ob('a macro frame offers a function to %s' % w, x is not None, str(mem))
        if None in ts.values(): continue
        for k, r, s, ev in paths(ts['resume'], starts=lambda st, fl: nonnull(st)):
            c = [e for e in ev if e.kind == 'call' and e.callee == body.name]
            ok = len(c) == 1 and padd(c[0].args[0], BASE) == ARG(0) and c[0].args[1] == ARG(0) if k == 'ret' else True
            ob('resuming runs the body once, on the own frame, and hands on what it returns', ok and (k != 'ret' or strip(r) == strip(c[0].res)), '%s %s' % (r, [e.args for e in c]))
        D = Deletes(BASE); ck.flow(ts['destroy'], D, cfg)
        if not fld:      # the typed conversions go through the function the frame offers
            fld = {e.off for k, r, s, ev in paths(ts['cast']) if k == 'ret' for e in ev if e.kind == 'load' and e.root == ('arg', 0) and strip(e.res) == strip(r)}
        FLD = one(fld, 'standard handle of a frame')
        for k, r, s, ev in paths(ts['cast']):
            l = [e for e in ev if e.kind == 'load' and e.root == ('arg', 0) and strip(e.res) == strip(r)]
            ob('the standard handle of a frame is its own', l and all(e.off == FLD for e in l), str(r))
        # the standard handle resumes an adapter that knows the frame
        h = mem.get(BASE + FLD)
        ob('a macro frame has a standard handle from the start', h is not None and h != C(0), str(h))
        # what resuming and destroying that standard handle does
        g = ck.ir('m19.cpp', [], entries=[r'^w_coro\(Arg\)$', r'::adapter\(\)$', r'::adapter\(\)::.*await_suspend\(', r'^macoro::FrameBase<MP>::final_suspend\(\)', r'^w_coro\(Arg\)::.*::operator\(\)\(macoro::FrameBase<MP>\*\)'], configs=[cfg])[cfg]
        gn = lambda p, w: one([x for x in g.values() if re.search(p, x.dem)], w)
        F = Finished(FLD); ck.flow(gn(r'::final_suspend\(\)', 'end of a macro coroutine'), F, cfg)
        if len(F.done) != 1 or None in F.done: continue
        D = Drive(body.name, BASE); ck.flow(gn(r'::adapter\(\)::.*await_suspend\(', 'resumption of a standard handle'), D, cfg)
        ob('resuming the standard handle of a macro coroutine runs it', D.n > 0 and len(D.frm) == 1, str(D.frm))
        A = Adapter(ptr(('arg', 1)), BASE + FLD, *F.done, D.frm); ck.flow(gn(r'::adapter\(\)$', 'coroutine behind a standard handle'), A, cfg)
        ob('destroying a macro coroutine through its standard handle destroys it', len(A.outer) == 1 and A.outer <= ck.others, '%s %s' % (A.outer, ck.others))
        ob('the coroutine behind a standard handle runs, ends and is destroyed', all(A.n.values()), str(A.n))
    ck.assumptions = ['addresses of coroutine frames are even, as the compiler aligns them', 'std::coroutine_handle is taken at the compiler\'s intrinsics']
    ck.finish('path analysis of every handle operation (resume, call, done, destroy, std_cast, promise, from_promise, conversions, comparisons) for each kind of address (no-op, macro, compiler), of the frame a macro coroutine creates, and of the coroutine behind its standard handle (from each of its suspension points to the next, resumed or destroyed), both configurations',
              'per kind of address: exactly one action, on exactly the coroutine referred to; identity of addresses; no memory touched for a no-op; slots of a macro frame hold the functions the handle operations call')
def nonnull(st): st.assume(mk_cmp('eq', ARG(0), C(0), 64), False); return (st,)
TAGS = (lambda b: mk_op('or', b, C(1), 64), lambda b: mk_op('xor', b, C(1), 64), lambda b: padd(b, 1))
class First(Rule):
    """the first thing resumed"""
    def __init__(self, base): self.base = base
    def starts(self, st, flow):
        # addresses are those of aligned objects, and there is nothing where the no-op handle points
        nonnull(st); h = handle_of(ARG(0))
        for x in (h, self.base): st.assume(bit0(x), True)
        for x in (h, *(f(self.base) for f in TAGS)): st.assume(mk_cmp('eq', x, NOOP, 64), False)
        for f in TAGS: st.assume(bit0(f(self.base)), False)
        return (st,)
    def pure_call(self, dem, cal): return (dem or '').startswith('Any::')
    def init(self, fn, flow): self.seen = []; self.never = 0; return (handle_of(ARG(0)), self.base)        # what is known about these is kept
    def event(self, st, ev, cx):
        if ev.kind == 'icall' or ev.kind == 'call' and ev.callee == 'llvm.coro.resume': self.seen.append(ev); return DEAD
        return st.ts
    def exit(self, st, how, ret, cx): self.never += how == 'ret'
class Deletes(Rule):
    """the frame is destroyed and freed exactly once, as the object that was created"""
    def __init__(self, base): self.base = base
    def starts(self, st, flow): return nonnull(st)
    def init(self, fn, flow): return 0
    def event(self, st, ev, cx):
        if ev.kind == 'call' and ev.callee in ('_ZdlPv', '_ZdlPvm') and norm_ptr(ev.args[0])[0] == ('arg', 0):
            if norm_ptr(ev.args[0])[1] != -self.base: cx.violate(st, 'frees something other than the frame that was created', ev)
            return st.ts + 1
        return st.ts
    def exit(self, st, how, ret, cx):
        if how == 'ret' and st.ts != 1: cx.violate(st, 'frees the frame %d times' % st.ts, cx._ev)
class Creation(Rule):
    """a macro coroutine is created, gives its promise the word, and starts itself through its own handle"""
    def __init__(self, pr): self.pr = pr; self.found = []; self.others = set()
    def init(self, fn, flow): return (None, None, 0)
    def private_roots(self, st): return (st.ts[0],) if st.ts[0] else ()
    def branch(self, st, c, v, cx):
        new, prom, n = st.ts                        # the new frame is not where the no-op handle points
        if prom is None: return st.ts
        b = ptr(new, prom - self.pr)
        for j in (0, 1):                            # memory from operator new is even
            for q in (padd(b, j), strip(padd(b, j))):
                if c[0] == 'cmp' and c[1] in ('eq', 'ne') and c[2] == mk_op('and', q, C(1), 64) and c[3][0] == 'c' and v != ((c[3][1] == j) == (c[1] == 'eq')): return DEAD
        return DEAD if any(st.ev(mk_cmp('eq', t, NOOP, 64)) is True for t in (mk_op('or', b, C(1), 64), mk_op('xor', b, C(1), 64), mk_op('add', b, C(1), 64), padd(b, 1))) else st.ts
    def event(self, st, ev, cx):
        new, prom, n = st.ts; V = lambda m: cx.violate(st, m, ev)
        if ev.kind == 'call' and ev.callee == '_Znwm' and new is None: return (norm_ptr(ev.res)[0], prom, n)
        if ev.kind == 'call' and ev.dem == 'MP::MP()' and norm_ptr(ev.args[0])[0] == new:
            prom = norm_ptr(ev.args[0])[1];
            return (new, prom, n)
        if ev.kind == 'call' and 'get_return_object' in (ev.dem or ''):
            if prom is None or norm_ptr(ev.args[0]) != (new, prom): V('asks an object other than the promise for the return object')
            else: self.found.append(({k[1]: v[1] for k, v in st.mem.items() if k[0] == new}, prom))
            return (new, prom, n + 1)
        if ev.kind == 'store' and prom is not None and ev.root is not None and ev.root != new and ev.root[0] != 'al' and ev.val is not None:
            b = ptr(new, prom - self.pr)
            if strip(ev.val) in [strip(mk_op(o, b, C(1), 64)) for o in ('or', 'xor', 'add')] + [strip(ptr(new, prom - self.pr + 1))]: self.others.add(ev.off)
        if ev.kind == 'icall' and n:
            b = prom - self.pr
            if norm_ptr(ev.args[0]) != (new, b) and untag(ptr(new, b), ev.args[0]) != 0 and untag(ptr(new, b + 1), ev.args[0]) != 0: V('starts a frame other than the new one')
            return DEAD
        if ev.kind == 'call' and ev.callee == 'llvm.coro.resume' and n: V('starts the new coroutine as one of the compiler\'s')
        return st.ts
    def exit(self, st, how, ret, cx):
        if how == 'ret': cx.violate(st, 'never starts the new coroutine', cx._ev)
def creation(ck, fn, pr):
    c = Creation(pr); ck.flow(fn, c)
    if not c.found: ck.obligation('a macro coroutine asks its promise for the return object', False); return None
    m, prom = c.found[0]; ck.others = c.others
    return prom - pr, m, prom
if __name__ == '__main__': main(run, 'M19')
