from common import *
import m03

class Announce(Rule):
    """one side announcing itself on the shared word, which holds `old` when it gets there"""
    def __init__(self, P, W, old, second, mode, S=None, off=None):
        self.P, self.W, self.old, self.second, self.mode, self.S, self.off = P, W, old, second, mode, S, off
        self.new = set(); self.slots = set(); self.n = 0
    def init(self, fn, flow): return (None, False, 'pre', None, 0, None)   # handle, stored, phase, continuation, continued, seen
    def isP(self, r, h): return r == ('promise', h if self.mode == 'await' else strip(ARG(1)))
    def event(self, st, ev, cx):
        h, stored, ph, c, n, seen = st.ts
        if self.mode == 'await' and h is None and ev.kind == 'load' and ev.root == ('arg', 0) and ev.off == self.off: return (strip(ev.res),) + st.ts[1:]
        onp = ev.root is not None and self.isP(ev.root, h)
        if ev.kind == 'cmpxchg' and onp and ev.off == self.W and not ev.ok: return st.ts
        if ev.kind in ('rmw', 'cmpxchg') and onp and ev.off == self.W:
            if ph == 'post': cx.violate(st, 'announces itself twice', ev); return st.ts
            o = ev.old if ev.kind == 'rmw' else ev.exp
            if not st.assume(mk_cmp('eq', o, C(self.old), 8 * ev.size), True): return DEAD
            nw = st.subst(ev.res if ev.kind == 'rmw' else ev.val)
            if nw[0] != 'c': cx.violate(st, 'the announcement leaves an unknown state', ev)
            self.new.add(nw)
            if ev.ord not in REL: cx.violate(st, 'the announcement does not release what was stored before it (ordering %s)' % ev.ord, ev)
            if ev.ord not in ACQ: cx.violate(st, 'the announcement does not acquire what the other side stored (ordering %s)' % ev.ord, ev)
            if self.mode == 'await' and not stored: cx.violate(st, 'announces the await before storing whom to resume', ev)
            return (h, stored, 'post', c, n, seen)
        if ev.kind == 'load' and onp and ev.off == self.W:
            if not ev.ord: cx.violate(st, 'reads the shared word without synchronisation', ev)
            return (h, stored, ph, c, n, (ev.res, ev.ord in ACQ))
        if ev.kind == 'store' and onp and ev.off == self.W: cx.violate(st, 'the shared word is overwritten without looking at the other side', ev)
        if ev.kind == 'store' and onp and self.mode == 'await' and strip(ev.val) == strip(ARG(1)):
            if ph == 'post': cx.violate(st, 'stores whom to resume after announcing the await', ev)
            self.slots.add(ev.off); return (h, True, ph, c, n, seen)
        if ph == 'post' and onp and ev.kind in ('load', 'store') and not self.second: cx.violate(st, 'the side that came first still touches the shared state', ev)
        if n and shared_access(ev, cx): cx.violate(st, 'touches shared state after handing over', ev)
        if self.mode == 'finish' and onp and ev.kind == 'load' and ev.off == self.S:
            if ph != 'post': cx.violate(st, 'reads whom to resume before knowing that it was stored', ev)
            return (h, stored, ph, strip(ev.res), n, seen)
        if is_done(ev): cx.violate(st, 'inspects the frame of a coroutine that may be running', ev)
        if is_destroy(ev): cx.violate(st, 'destroys a frame here', ev)
        if is_resume(ev) or is_next(ev):
            t = strip(ev.args[0])
            if is_next(ev) and nobody(t): return st.ts
            want = strip(ARG(1)) if self.mode == 'await' else c
            if t != want: cx.violate(st, 'continues with something other than the awaiting coroutine', ev)
            if n: cx.violate(st, 'continues the awaiting coroutine twice', ev)
            if ph == 'pre':
                if not (self.mode == 'await' and seen and seen[1] and self.early(st, seen[0])): cx.violate(st, 'continues without having announced itself', ev)
            elif not self.second: cx.violate(st, 'the side that comes first continues the awaiting coroutine', ev)
            return (h, stored, ph, c, n + 1, seen)
        return st.ts
    def early(self, st, seen): return self.second and st.ev(mk_cmp('eq', seen, C(self.old), 8)) is True
    def exit(self, st, kind, ret, cx):
        if kind == 'unwind': cx.violate(st, 'leaves by an exception', cx._ev)
        if kind != 'ret': return
        h, stored, ph, c, n, seen = st.ts
        if ph == 'pre' and not n: cx.violate(st, 'returns without announcing itself', cx._ev)
        if ph == 'post' and self.second and not n: cx.violate(st, 'the side that comes second does not continue the awaiting coroutine', cx._ev)
        self.n += 1

class ReadyWhen(Rule):
    """readiness as a function of the shared word"""
    def __init__(self, off, W, state, complete, exact): self.off, self.W, self.state, self.complete, self.exact = off, W, state, complete, exact
    def init(self, fn, flow): return (None, None)
    def event(self, st, ev, cx):
        h, w = st.ts
        if ev.kind == 'load' and ev.root == ('arg', 0) and ev.off == self.off and h is None: return (strip(ev.res), w)
        if is_done(ev): cx.violate(st, 'inspects the frame of a coroutine that may be running', ev)
        if ev.kind in ('load', 'store', 'rmw', 'cmpxchg') and ev.root[0] == 'promise':
            if st.ev(mk_cmp('eq', h, C(0))) is not False: cx.violate(st, 'looks into an empty task', ev)
            if ev.kind != 'load' or ev.off != self.W: cx.violate(st, 'readiness touches something other than the shared word', ev); return st.ts
            if ev.ord not in ACQ: cx.violate(st, 'readiness does not acquire the result (ordering %s)' % ev.ord, ev)
            if not st.assume(mk_cmp('eq', ev.res, C(self.state), 8 * ev.size), True): return DEAD
            return (h, self.state)
        return st.ts
    def exit(self, st, kind, ret, cx):
        if kind != 'ret': return
        h, w = st.ts; r = st.ev(st.subst(ret))
        null = None if h is None else st.ev(mk_cmp('eq', h, C(0)))
        if null is True:
            if r is not (not self.exact): cx.violate(st, 'wrong answer for an empty task', cx._ev)
        elif r is True and not (w is not None and self.complete): cx.violate(st, 'claims to be ready while the coroutine may still run', cx._ev)
        elif r is None: cx.violate(st, 'readiness is not a function of the shared word', cx._ev)
        elif r is False and self.complete and self.exact and w is not None: cx.violate(st, 'a completed task is never ready', cx._ev)

def run(ck):
    irs = ck.ir('m03.cpp', HANDLE_PRIMS, extra=['-DLAZY=false'])
    for cfg, f in irs.items():
        for N in 'ivrt':
            off = m03.owner(ck, f, cfg, N)
            if off is None: continue
            ck.flow(f['w_init_' + N], m03.Const(True, 'an eager task does not start by itself'), cfg)
            ck.flow(f['w_fready_' + N], m03.Const(False, 'a finished task does not stay suspended: its frame destroys itself under its owner'), cfg)
            # the shared word: the atomic both sides change
            wf = {(e.root, e.off) for e in probe(f['w_fin_' + N]).of('rmw', 'cmpxchg')}
            if not ck.obligation('%s: completion announces itself by one atomic read-modify-write [%s]' % (N, cfg), len(wf) == 1, 'words %s' % wf): continue
            W = next(iter(wf))[1]
            z = [st.mem.get((('arg', 0), W)) for k, r, st in probe(f['w_ctor_' + N]).exits if k == 'ret']
            if not ck.obligation('%s: the shared word starts in a known state [%s]' % (N, cfg), z and all(c and c[1][0] == 'c' for c in z), str(z)): continue
            s0 = z[0][1][1]
            P = None
            def side(names, old, second, mode, S=None):
                new = set(); sl = set()
                for n in names:
                    r = Announce(P, W, old, second, mode, S, off); ck.flow(f[n], r, '%s, word=%s' % (cfg, old)); new |= r.new; sl |= r.slots
                return new, sl
            aw = ['w_%ssusp%s_%s' % (a, b, N) for a in 'lrw' for b in ('', 'm')]; fi = ['w_fin_' + N, 'w_finm_' + N]
            na, S = side(aw, s0, False, 'await')
            if ck.viol: continue
            S = one(S, 'continuation slot'); na = one(na, 'state after the await')[1]
            nf, _ = side(fi, s0, False, 'finish', S)
            if ck.viol: continue
            nf = one(nf, 'state after completion')[1]
            if not ck.obligation('%s: the three states are different [%s]' % (N, cfg), len({s0, na, nf}) == 3 or (na == nf != s0), '%s' % ((s0, na, nf),)): continue
            n2, _ = side(fi, na, True, 'finish', S); n3, _ = side(aw, nf, True, 'await')
            if ck.viol: continue
            ends = {x[1] for x in n2 | n3}
            complete = {nf} | ends
            running = {s0, na}
            for s in sorted(running | complete):
                if s in running and s in complete:
                    cpl = False      # cannot be told apart: must never be called ready
                else: cpl = s in complete
                for a in 'lrw': ck.flow(f['w_%sready_%s' % (a, N)], ReadyWhen(off, W, s, cpl, False), '%s, word=%s' % (cfg, s))
                ck.flow(f['w_isready_' + N], ReadyWhen(off, W, s, cpl, True), '%s, word=%s' % (cfg, s))
            m03.outcome(ck, f, cfg, N, off)
    import pt; pt.around(ck, ('eager',), ('eager',), 4)
    ck.finish('enumeration of the reachable states of the shared word with typestate dataflow over the IR of both sides for each state; task<int>, <void>, <int&>, <opaque class>, both configurations and backends',
              'whoever finds the other side announced continues the awaiting coroutine exactly once; the first side touches nothing afterwards; both announcements acquire and release; readiness reads only the shared word with acquire; typestate over the coroutines put around a given operation: the given one, awaited once, its outcome handed on')
if __name__ == '__main__': main(run, 'M04')
