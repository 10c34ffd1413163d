from body import *
from m22 import prim
AW = ('AwI', 'AwV', 'AwR', 'AwM')
class Start(Body):
    """the coroutine behind start_on"""
    who = dict(AwS='sc', AwI='op', AwV='op', AwR='op', AwM='op', AwT='op'); names = dict(sc='the scheduler', op='the operation')
    def __init__(self, valued, owns): self.valued, self.owns = valued, owns
    def start(self): return dict(made=None, kept2=None, where=None)
    def begins(self, st, d, w, ev, V):
        if w == 'op':
            if self.phase(d, 'sc') != 'over': V('awaits the operation before it is on the scheduler')
            a = norm_ptr(ev.args[0])
            if a != (('arg', 2), 0) and a != d['where'] and not (self.owns and 'AwT::' in ev.dem and a[0][0] == 'al'): V('awaits something other than the given operation')
        elif d['made'] is None: V('awaits something other than what the scheduler gave')
    def event(self, st, ev, cx):
        d = dict(st.ts)
        if not d['gone'] and d['fin'] != 2:
            if 'Sch::schedule()' in (ev.dem or '') and ev.kind in ('call', 'unwind'):
                if ev.kind == 'unwind': d['made'] = 'threw'; d['act'] = 'sched'; return dict2ts(d)
                if d['made']: cx.violate(st, 'goes to the scheduler twice', ev)
                if ev.args[1] != ARG(1): cx.violate(st, 'goes to another scheduler than the given one', ev)
                d['made'] = 'made'; return dict2ts(d)
            m = re.match(r'^(Aw[IVRM])::\1\(\1&&\)', ev.dem or '')
            if m and ev.kind == 'call':
                if norm_ptr(ev.args[1]) in ((('arg', 2), 0), d['where']): d['where'] = norm_ptr(ev.args[0]); return dict2ts(d)
            if m and ev.kind == 'unwind': d['act'] = 'other'; return dict2ts(d)
            if 'VT::VT(VT&&)' in (ev.dem or '') and ev.kind == 'call' and d['pr'] is not None and norm_ptr(ev.args[0])[0] == d['pr']:
                if d['res'] is None or norm_ptr(ev.args[1]) != norm_ptr(d['res']): cx.violate(st, 'the outcome is not what the operation returned', ev)
                d['kept'] = norm_ptr(ev.args[0])[1]; return dict2ts(d)
        return super().event(st, ev, cx)
    def outcome(self, st, d, w, ev):
        if w == 'op': d['res'] = ev.args[0] if 'AwM' in ev.dem else strip(ev.res) if ev.res is not None else 'void'
    def final(self, st, d, V):
        if d['made'] == 'threw' or d['act'] == 'sched':
            if d['exc'] is None: V('the exception of the scheduler is not the outcome')
            return
        if self.phase(d, 'sc') is None:
            if d['exc'] is None: V('ends without going to the scheduler')
            return
        if self.phase(d, 'sc') == 'threw':
            if d['exc'] != 'sc': V('the exception of the scheduler is not the outcome')
            return
        if self.phase(d, 'op') == 'over' and d['exc'] == 'other': return            # the value threw while being moved
        if self.phase(d, 'op') is None and d['exc'] == 'other': return            # the operation threw while being moved
        self.result(st, d, V, 'op', self.valued)
class Via(Rule):
    """start_on: one coroutine, for the given scheduler and operation"""
    caught = True
    def __init__(self, coros, val): self.coros, self.val = coros, val; self.n = 0
    def init(self, fn, flow): return (None, None, 0)
    def event(self, st, ev, cx):
        tmp, made, k = st.ts
        if ev.kind == 'call' and ev.callee in self.coros:
            if k: cx.violate(st, 'starts the operation twice', ev)
            if ev.args[1] != ARG(1): cx.violate(st, 'starts the operation on another scheduler than the given one', ev)
            a = norm_ptr(ev.args[2])
            if a != (tmp if self.val and tmp else (('arg', 2), 0)) and not (self.coros[ev.callee] and 'AwT' in ev.dem and a[0][0] == 'al'): cx.violate(st, 'starts something other than the given operation', ev)
            if self.val and not self.coros[ev.callee]: cx.violate(st, 'a temporary operation is only referred to', ev)
            if not self.val and self.coros[ev.callee]: cx.violate(st, 'a named operation is taken away', ev)
            return (tmp, norm_ptr(ev.args[0]), k + 1)
        m = re.match(r'^(Aw[IVRM])::\1\(\1&&\)', ev.dem or '')
        if m and ev.kind == 'call':
            if not self.val: cx.violate(st, 'a named operation is taken away', ev)
            if norm_ptr(ev.args[1]) in ((('arg', 2), 0), tmp): return (norm_ptr(ev.args[0]), made, k)
        return st.ts
    def exit(self, st, kind, ret, cx):
        if kind != 'ret': return
        self.n += 1
        if st.ts[2] != 1: cx.violate(st, 'the operation is not started', cx._ev)
class Hop(Rule):
    def init(self, fn, flow): return 0
    def event(self, st, ev, cx):
        if ev.kind == 'call' and 'Sch::schedule()' in (ev.dem or ''):
            if norm_ptr(ev.args[1])[0] != ('arg', 1): cx.violate(st, 'goes to another scheduler than the given one', ev)
            return st.ts + 1
        return st.ts
    def exit(self, st, kind, ret, cx):
        if kind == 'ret' and st.ts != 1: cx.violate(st, 'does not ask the scheduler exactly once', cx._ev)
class Says(Rule):
    def __init__(self, v, msg): self.v, self.msg = v, msg
    def init(self, fn, flow): return ()
    def exit(self, st, kind, ret, cx):
        if kind != 'ret' or st.ev(ret) is not self.v: cx.violate(st, self.msg, cx._ev)
def run(ck):
    irs = ck.ir('m23.cpp', HANDLE_PRIMS, entries=['^w_', '^coro:.*Sch'])
    for cfg, f in irs.items():
        cs = {n: x for n, x in f.items() if not n.startswith('w_')}
        ck.count('coroutines behind start_on [%s]' % cfg, len(cs), 8)
        val = {}
        for n, x in cs.items():
            m = re.search(r'\((.*)\)$', x.dem); val[n] = not m.group(1).rstrip().endswith('&')
            r = Start('AwV' not in m.group(1), val[n]); ck.flow(x, r, cfg)
            if not ck.viol: ck.count('%s: ends reached [%s]' % (n[-40:], cfg), r.n['final'], 3)
        for n in f:
            m = re.match(r'w_p?(ref|val)_', n)
            if not m: continue
            r = Via(val, m.group(1) == 'val'); ck.flow(f[n], r, cfg)
            if not ck.viol: ck.count('%s [%s]' % (n, cfg), r.n, 1)
        ck.flow(f['w_transfer'], Hop(), cfg)
        for n in ('w_inline', 'w_inline_t'): ck.flow(f[n], Says(True, 'the inline scheduler suspends'), cfg)
    import tp
    irs = ck.ir('m12.cpp', tp.TP_PRIMS, entries=['^w_'])
    for cfg, f in irs.items():
        L = tp.layout(ck, f, cfg)
        for n in ('w_psched', 'w_spost_m', 'w_spost_s', 'w_try', 'w_pdisp', 'w_sdisp_m', 'w_sdisp_s'):
            direct, kind = tp.POOLFNS[n]
            r = tp.Post(L, direct, kind, ARG(1), priv=(('arg', 0),) if not direct else ()); r.owners = {('arg', 0)}; ck.flow(f[n], r, cfg)
            if not ck.viol: ck.count('%s: operations queued [%s]' % (n, cfg), r.n['push'], 1)
        for n in ('w_rpost', 'w_rdisp', 'w_rafter'): ck.flow(f[n], Says(False, 'the awaiting coroutine stays where it is without asking'), cfg)
        for n in ('w_sched', 'w_apost', 'w_adisp'):
            p = tp.tprobe(f[n]); s = {strip(e.res) for e in p.of('load') if e.root == ('arg', 1) and e.off == L.px}
            got = [fields(st, ('arg', 0)) for k, r, st in p.exits if k == 'ret']
            ck.obligation('%s: the awaiter is for this pool [%s]' % (n, cfg), got and all(any(v in s for v in g.values()) for g in got), str(got)[:200])
    ck.assumptions = ['the scheduler and the awaitable keep the awaiter protocol', 'what the pool does with what is queued is decided under M12']
    ck.finish('typestate over the bodies of the coroutines behind start_on as the compiler sees them before splitting (every co_await is ready, suspend and resume; every awaiter opaque; every suspension resumed or destroyed), for operations yielding a value, a class object, a reference and nothing, named and temporary, in call and pipe form; transfer_to; the inline scheduler; the pool\'s scheduling awaiters; both configurations',
              'the given scheduler is asked exactly once and its operation awaited to the end before the given operation is begun, the outcome of the operation (or the exception of the scheduler) is the outcome; a temporary operation lives in the coroutine, a named one is used in place; the inline scheduler never suspends; the awaiters of a pool never claim to be ready, belong to the pool they were asked of, and queue the caller exactly once unless it is told to go on, which it only is on a thread of that pool')
if __name__ == '__main__': main(run, 'M23')
