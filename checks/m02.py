from common import *

class Start(Rule):
    """the awaiting side: start each operation once, store the handle, take one count, suspend iff others are outstanding"""
    def __init__(self, nfixed=None): self.nfixed = nfixed; self.W = set(); self.S = set(); self.started = 0; self.exits = 0; self.steps = []
    def init(self, fn, flow): return (None, (), False, None)     # awaitable root, started handles, handle stored, old count
    def awaitable(self, root): return root == ('s', 'ld') or (root[0] == 's' and root[1] == 'ld')
    def event(self, st, ev, cx):
        aw, started, stored, old = st.ts
        if is_resume(ev):
            h = strip(ev.args[0]); self.started += 1
            if old is not None: cx.violate(st, 'starts an operation after giving up its own count', ev); return st.ts
            if h in started: cx.violate(st, 'starts the same operation twice', ev)
            p = promise_of(h); pr = norm_ptr(p)[0]
            back = [v for k, v in st.mem.items() if k[0] == pr and v[1][0] in ('p', 's') and norm_ptr(v[1])[0][0] == 's' and norm_ptr(v[1])[1] == 0 and (aw is None or norm_ptr(v[1])[0] == aw)]
            if not back: cx.violate(st, 'starts an operation before telling it whom to notify', ev)
            else: aw = norm_ptr(back[0][1])[0]
            return (aw, tuple((started + (h,))[-4:]) if self.nfixed is None else started + (h,), stored, old)
        if old is not None and shared_access(ev, cx):
            if st.ev(mk_cmp('eq', old, C(1))) is not True: cx.violate(st, 'touches the awaitable after giving up its count', ev)
            return st.ts
        if ev.kind == 'store' and strip(ev.val) == strip(ARG(1)) and ev.root[0] == 's' and self.awaitable(ev.root):
            self.S.add(ev.off); return (ev.root if aw is None else aw, started, True, old)
        if ev.kind == 'rmw' and self.awaitable(ev.root):
            if old is not None: cx.violate(st, 'gives up its count twice', ev)
            if ev.val != C(-1) or ev.op != 'add': cx.violate(st, 'awaiter does not give up exactly one count', ev)
            if not stored: cx.violate(st, 'gives up its count before storing who is to be resumed', ev)
            if ev.ord not in REL: cx.violate(st, 'the stored handle is not released to the operations (ordering %s)' % ev.ord, ev)
            if ev.ord not in ACQ: cx.violate(st, 'results of finished operations are not acquired (ordering %s)' % ev.ord, ev)
            if self.nfixed is not None and len(set(started)) != self.nfixed: cx.violate(st, 'not every operation was started: %d of %d' % (len(set(started)), self.nfixed), ev)
            self.W.add(ev.off); st.assume(mk_cmp('ne', ev.old, C(0)), True); return (aw, started, stored, ev.old)      # its own count is still in there
        return st.ts
    def step(self, st, ins, new, cx):
        cur = st.env.get(ins['id'])
        if cur is not None and cur[0] in ('p', 's') and new[0] == 'p': self.steps.append(norm_ptr(new)[1] - norm_ptr(cur)[1] if norm_ptr(new)[0] == norm_ptr(cur)[0] else None)
    def exit(self, st, kind, ret, cx):
        if kind == 'abort': return
        if kind == 'unwind': cx.violate(st, 'awaiting leaves by an exception', cx._ev); return
        self.exits += 1
        aw, started, stored, old = st.ts
        if old is None: cx.violate(st, 'returns without giving up its own count', cx._ev); return
        # suspend iff old != 1 (others outstanding); the count is at least one here
        for want, cond in ((True, mk_cmp('eq', old, C(1))), (False, mk_cmp('ne', old, C(1)))):
            s = st.copy()
            if not s.assume(cond, True): continue
            s.assume(mk_cmp('ne', old, C(0)), True)
            r = s.ev(ret)
            if want and r is not False: cx.violate(st, 'suspends although every operation had already finished (nobody would resume it)', cx._ev)
            if not want and r is not True: cx.violate(st, 'does not suspend although operations are outstanding', cx._ev)

class Notify(Rule):
    """a finishing operation: after it is suspended, drop one count; the last one resumes"""
    def __init__(self, W, S, need_value=None): self.W, self.S, self.need = W, S, need_value; self.R = set(); self.res = self.quiet = 0
    def init(self, fn, flow): return ('run', None, None)   # phase, old, awaitable root
    def event(self, st, ev, cx):
        ph, old, aw = st.ts
        if ev.kind == 'call' and ev.callee == 'vf_mark': return ('susp', old, aw)
        if ph == 'done' and shared_access(ev, cx): cx.violate(st, 'touches memory after resuming the awaiting coroutine', ev)
        if ev.kind == 'store' and self.need is not None and strip(ev.val) == strip(self.need): self.R.add(ev.off)
        if ev.kind == 'rmw' and ev.off == self.W and ev.root[0] == 's':
            if ph == 'run': cx.violate(st, 'notifies before the operation is suspended', ev)
            if old is not None: cx.violate(st, 'notifies its completion twice', ev)
            if ev.op != 'add' or ev.val != C(-1): cx.violate(st, 'completion does not lower the count by one', ev)
            if ev.ord not in REL: cx.violate(st, 'completion does not release the result (ordering %s)' % ev.ord, ev)
            if ev.ord not in ACQ: cx.violate(st, 'last completion does not acquire the other results and the handle (ordering %s)' % ev.ord, ev)
            if self.need is not None and not any(strip(v[1]) == strip(self.need) for k, v in st.mem.items() if k[0] in (('arg', 0), ('promise', strip(ARG(2))))): cx.violate(st, 'notifies before the result was stored', ev)
            st.assume(mk_cmp('ne', ev.old, C(0)), True)      # its own count is still in there
            return ('told', ev.old, ev.root)
        if ph == 'told' and shared_access(ev, cx):
            if st.ev(mk_cmp('eq', old, C(1))) is not True: cx.violate(st, 'touches shared memory after its completion may have let the awaiting coroutine destroy it', ev)
        if is_resume(ev):
            if ph != 'told': cx.violate(st, 'resumes the awaiting coroutine without having been the last', ev); return st.ts
            if st.ev(mk_cmp('eq', old, C(1))) is not True: cx.violate(st, 'resumes the awaiting coroutine although operations are outstanding', ev)
            c = st.mem.get((aw, self.S))
            if not c or strip(c[1]) != strip(ev.args[0]): cx.violate(st, 'resumes something other than the awaiting coroutine', ev)
            self.res += 1
            return ('done', old, aw)
        return st.ts
    def exit(self, st, kind, ret, cx):
        if kind == 'abort': return
        ph, old, aw = st.ts
        if kind == 'unwind': cx.violate(st, 'completion leaves by an exception', cx._ev); return
        if ph in ('run', 'susp'): cx.violate(st, 'an operation finishes without announcing it', cx._ev)
        if ph == 'told':
            self.quiet += 1
            if st.ev(mk_cmp('eq', old, C(1))) is not False: cx.violate(st, 'the last completion does not resume the awaiting coroutine', cx._ev)

class Ready(Rule):
    def __init__(self, S): self.S = S
    def init(self, fn, flow): return ()
    def exit(self, st, kind, ret, cx):
        if kind != 'ret' or ret == FALSE: return
        slot = [v[1] for k, v in st.mem.items() if k[1] == self.S]
        if not any(ret == mk_cmp('ne', x, C(0)) or st.ev(mk_cmp('ne', x, C(0))) is True for x in slot): cx.violate(st, 'reports ready before it was awaited', cx._ev)

def rule_count(W, want, what):
    class R(Rule):
        def private_roots(s, st): return (('arg', 0),)
        def init(s, fn, fl): return None
        def event(s, st, ev, cx):
            if ev.kind == 'store' and ev.root == ('arg', 0) and ev.off == W: return want(ev.val)
            if ev.kind == 'rmw' and ev.root == ('arg', 0) and ev.off == W: return want(ev.res)
            return st.ts
        def exit(s, st, kind, ret, cx):
            if kind != 'ret': return
            if st.ts is not True: cx.violate(st, '%s: the count does not start at the number of operations plus one' % what, cx._ev)
    return R()

def run(ck):
    irs = ck.ir('m02.cpp', HANDLE_PRIMS)
    for cfg, f in irs.items():
        W = set(); S = set()
        for n in ('w_await_t_r', 'w_await_t_l', 'w_await_t_rm', 'w_await_t_lm'):
            r = Start(3); ck.flow(f[n], r, cfg); W |= r.W; S |= r.S
        if not ck.viol: ck.count('operations started [%s]' % cfg, r.started, 3)
        for n in ('w_awaitv_r', 'w_awaitv_l'):
            r = Start(); ck.flow(f[n], r, cfg); W |= r.W; S |= r.S
            if not ck.viol:
                ck.count('vector start sites [%s]' % cfg, r.started, 1)
                ck.obligation('%s: the loop over the operations visits each element [%s]' % (n, cfg), r.steps and all(x in (8, -8) for x in r.steps), 'advances by %s' % r.steps)
                self_exit(ck, f[n], cfg)
        if ck.viol: continue
        W = one(W, 'count word'); S = one(S, 'awaiting handle slot')
        tot = 0
        for n, need in (('w_fin_0', None), ('w_finm_0', None), ('w_fin_1', None), ('w_finm_1', None), ('w_fin_2', None), ('w_finm_2', None), ('w_yield_0', ARG(1)), ('w_yield_2', ARG(1))):
            r = Notify(W, S, need); ck.flow(f[n], r, cfg); tot += min(r.res, r.quiet)
            if need is not None: R = r.R
        if not ck.viol: ck.count('completion hand-offs judged [%s]' % cfg, tot, 8)
        for n in ('w_ready_t_r', 'w_ready_t_l', 'w_ready_v_r'): ck.flow(f[n], Ready(S), cfg)
        p = probe(f['w_ready_0']); ck.obligation('an empty set of operations does not suspend [%s]' % cfg, all(e[1] == TRUE for e in p.exits if e[0] == 'ret'))
        xs = {}
        for i in range(3):
            u = Uncaught(); ck.flow(f['w_uncaught_%d' % i], u, cfg); xs[i] = u.slots
        if ck.viol: continue
        isprom = lambda r: r[0] == 'promise'
        for n, i in (('w_res_0', 0), ('w_resr_0', 0), ('w_res_1', 1), ('w_res_2', 2)):
            o = Outcome(one(xs[i], 'exception slot'), isprom); ck.flow(f[n], o, cfg)
            if not ck.viol: ck.count('%s outcome paths [%s]' % (n, cfg), min(o.re, o.ok), 1)
            if i != 1 and not ck.viol:
                pr = probe(f[n])
                for k, ret, st in pr.exits:
                    if k == 'ret': ck.obligation('%s yields the stored result [%s]' % (n, cfg), any(strip(v[1]) == strip(ret) and kk[0][0] == 'promise' for kk, v in st.mem.items()), 'returns %s' % (ret,))
        # counts
        ck.flow(f['w_make_t'], rule_count(W, lambda t: t == C(4), 'three operations'), cfg)
        ck.flow(f['w_move_t'], rule_count(W, lambda t: t == C(4), 'moved set of three'), cfg)
        def vecsize(t):
            # (end - begin) / sizeof + 1, in any spelling
            if t[0] != 'lin' or t[2] != 1: return False
            x = t[1]
            return x[0] == 'op' and x[1] in ('ashr', 'lshr', 'sdiv', 'udiv') and x[3] in (C(3), C(8)) and x[2][0] == 'op' and x[2][1] == 'sub'
        ck.flow(f['w_make_v'], rule_count(W, vecsize, 'vector of operations'), cfg)
        ck.flow(f['w_move_v'], rule_count(W, vecsize, 'moved vector of operations'), cfg)
        ck.flow(f['w_kdtor'], DestroyOnce(), cfg); ck.flow(f['w_kmove'], MoveCtor(), cfg)
    import pt; pt.around(ck, ('when',), ('when',), 8)
    ck.finish('typestate dataflow over the IR of the awaiting side, of every operation\'s final suspension, of the result accessors and of the constructors, both configurations',
              'count starts at n+1; each operation is started once after it knows whom to notify; handle stored before the awaiter\'s decrement; resume <=> decrement replaced 1; acquire+release on both; nothing shared touched after a non-final decrement; typestate over the coroutines put around a given operation: the given one, awaited once, its outcome handed on')
def self_exit(ck, fn, cfg):
    """the start loop is left only when the iterator has reached the end of the container"""
    class R(Rule):
        bad = 0; n = 0
        def init(s, f, fl): return False
        def branch(s, st, c, val, cx):
            while c[0] == 'not': c, val = c[1], not val
            if c[0] == 'cmp' and c[3][0] != 'c':
                if c[1] in ('eq', 'ne'): return val == (c[1] == 'eq')
                return not val
            return st.ts
        def event(s, st, ev, cx):
            if is_resume(ev): return False
            if ev.kind == 'rmw' and not st.ts: cx.violate(st, 'operations may be left out of the start loop', ev)
            return st.ts
    ck.flow(fn, R(), cfg)
main(run, 'M02')
