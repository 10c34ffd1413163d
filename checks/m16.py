from body import *
import tp
from m22 import prim
PRIMS = tp.TP_PRIMS
def lock(ev): return tp.name(ev, 'vf.lock')
def unlock(ev): return tp.name(ev, 'vf.unlock')
def notify(ev): return (ev.callee or '').startswith('vf.notify')
class Drive(Body):
    """the coroutine that awaits on behalf of the blocked thread"""
    who = {k: 'op' for k in ('AwI', 'AwV', 'AwR', 'AwM', 'AwB', 'AwH', 'AwC', 'AwT')}; names = dict(op='the awaitable')
    def __init__(self, byref): self.byref = byref; self.flags = set(); self.excs = set()
    def start(self): return dict(saved=0, lock=0, set=0, told=0, done=0, made=0, where=None, frame=None, prs=(), back=0)
    def own(self, d, ev): return d['pr'] is not None and ev.root == d['pr'] or ev.root in d['prs']
    def event(self, st, ev, cx):
        d = dict(st.ts); V = lambda m: cx.violate(st, m, ev)
        out = lambda: dict2ts(d)
        if d['gone'] or d['fin'] == 2: return st.ts
        c = ev.callee or ''
        if d['susp'] is not None and st.ev(mk_cmp('eq', d['susp'], C(0), 8)) is True: d['back'] = 1
        if ev.kind == 'call' and c == 'llvm.coro.begin': d['frame'] = strip(ev.res); return out()
        if ev.kind == 'call' and c.startswith('vf.promise') and strip(ev.args[0]) == d['frame']: d['prs'] = d['prs'] + (norm_ptr(ev.res)[0],); return out()
        if ev.kind == 'call' and c == 'llvm.coro.save': d['saved'] = 1; return out()
        if ev.kind == 'call' and c == 'llvm.coro.suspend':
            if ev.args[1] == C(0):
                if self.phase(d, 'op') != 'waiting': V('stops before the awaitable has been started: nobody will ever resume it')
                if d['told']: V('announces the end although it may go on')
            d['saved'] = 0
            return super().event(st, ev, cx)
        if ev.kind == 'unwind' and (lock(ev) or unlock(ev) or notify(ev)): return DEAD
        if ev.kind == 'call' and lock(ev): d['lock'] = 1; return out()
        if ev.kind == 'call' and unlock(ev): d['lock'] = 2; return out()
        if ev.kind == 'call' and notify(ev):
            if d['lock'] != 1: V('announces the end outside the mutex: the waiter may be gone already')
            if not d['saved']: V('announces the end before the coroutine is suspended')
            if not d['set'] and not d['lock'] == 1: V('announces the end before it is recorded')
            d['told'] += 1; return out()
        if ev.kind == 'load' and self.own(d, ev) and d['lock'] == 2: V('uses the coroutine after announcing its end')
        if ev.kind == 'store' and self.own(d, ev):
            if d['lock'] == 2: V('uses the coroutine after announcing its end')
            if d['lock'] == 1 and ev.size == 1 and strip(ev.val) == C(1):
                self.flags.add(ev.off)
                if not d['saved']: V('records the end before the coroutine is suspended')
                d['set'] = 1; return out()
            if ev.size == 1 and ev.off in self.flags and strip(ev.val) != C(0): V('records the end outside the mutex')
        if 'CoI::operator co_await' in (ev.dem or '') and ev.kind == 'call':
            if d['made']: V('starts the awaitable twice')
            d['made'] = 1; d['where'] = norm_ptr(ev.args[0]); return out()
        m = re.match(r'^(Aw.|CoI)::\1\(\1&&\)', ev.dem or '')
        if m and ev.kind == 'call':
            if self.byref: V('moves the awaitable although it is only referred to')
            if norm_ptr(ev.args[1]) in ((('arg', 1), 0), d['where']): d['where'] = norm_ptr(ev.args[0])
            return out()
        if m and ev.kind == 'unwind': d['act'] = 'other'; return out()
        m = AWAIT.match(ev.dem or '') if ev.kind in ('call', 'unwind') else None
        if m and self.who.get(m.group(1)) and ev.kind == 'call':
            p, r = dict(d['ph']).get('op', (None, None)); k = m.group(2)
            if norm_ptr(ev.args[0]) not in ((('arg', 1), 0), d['where']) and not (not self.byref and 'AwT::' in ev.dem and norm_ptr(ev.args[0])[0][0] in ('al', 'promise')): V('awaits something other than the given awaitable')
            if k == 'ready':
                if p is not None: V('starts the awaitable twice')
                self.setph(d, 'op', 'asked', strip(ev.res)); return out()
            if k == 'suspend':
                if p != 'asked' or st.ev(r) is not False: V('suspends on the awaitable without asking whether it is ready')
                self.setph(d, 'op', 'waiting', strip(ev.res) if m.group(1) == 'AwB' and ev.res is not None else None); self.n['suspended'] += 1; return out()
            V('takes the outcome in the coroutine that only waits for it'); return out()
        if d['told'] == 0 and d['saved'] and self.phase(d, 'op') == 'waiting' and d['susp'] is None: pass
        t = super().event(st, ev, cx)
        if t is DEAD: return t
        d = dict(t)
        if d['exc'] is not None and ev.kind == 'store' and self.own(d, ev) and strip(ev.val) in dict(d['cap']): self.excs.add(ev.off)
        if is_curexc(ev) and d['pr'] is not None and norm_ptr(ev.args[0])[0] == d['pr']: self.excs.add(norm_ptr(ev.args[0])[1])
        return t
    def final(self, st, d, V):
        p, r = dict(d['ph']).get('op', (None, None))
        if not d['set']: V('the end is never recorded: the waiter sleeps for ever')
        elif not d['told']: V('the end is never announced: the waiter may sleep for ever')
        if d['lock'] != 2: V('the mutex is still held')
        if p == 'threw':
            if d['exc'] != 'op': V('the exception of the awaitable is not the outcome')
        elif d['exc'] is not None: V('the outcome is an exception although none was thrown')
        elif p == 'asked':
            if st.ev(r) is not True: V('ends although the awaitable is not ready')
        elif p == 'waiting':
            if not d['back'] and not (r is not None and st.ev(r) is False): V('ends although the awaitable has not completed')
        else: V('ends without awaiting')
class Wait(Rule):
    """the blocked thread"""
    caught = True
    def __init__(self, coros, flag, exc, kind, ref): self.coros, self.flag, self.exc, self.kind, self.ref = coros, flag, exc, kind, ref; self.n = dict(ret=0, threw=0)
    def pure_call(self, dem, cal): return bool(EXC.match(dem or ''))
    def private_roots(self, st): return {k[0] for k in st.mem if k[0][0] == 'al'}
    def init(self, fn, flow): return dict2ts(dict(task=None, h=None, pr=None, lock=0, seen=None, x=None, gone=0, got=None, threw=None, tmp=None, out=None))
    def event(self, st, ev, cx):
        d = dict(st.ts); V = lambda m: cx.violate(st, m, ev); out = lambda: dict2ts(d)
        ended = lambda: d['seen'] is not None and st.ev(mk_cmp('ne', d['seen'], C(0), 8)) is True
        c = ev.callee or ''
        if ev.kind == 'unwind' and (lock(ev) or unlock(ev) or (ev.callee or '').startswith('vf.wait')): return DEAD
        if ev.kind == 'unwind' and c in self.coros: return st.ts
        if ev.kind == 'call' and c in self.coros:
            if d['task']: V('starts the awaitable twice')
            a = norm_ptr(ev.args[1])
            if a != (('arg', 1), 0) and a != d['tmp'] and not (not self.ref and 'AwT' in ev.dem and a[0][0] == 'al'): V('waits for something other than the given awaitable')
            d['task'] = norm_ptr(ev.args[0]); return out()
        m = re.match(r'^(Aw.|CoI)::\1\(\1&&\)', ev.dem or '')
        if m and ev.kind == 'call' and not d['task']:
            if self.ref: V('takes a named awaitable away')
            if norm_ptr(ev.args[1]) in ((('arg', 1), 0), d['tmp']): d['tmp'] = norm_ptr(ev.args[0])
            return out()
        if d['task'] is None: return st.ts
        if ev.kind == 'store' and (ev.root, ev.off) == (('arg', 0), 0): d['out'] = strip(ev.val); return out()
        if ev.kind == 'load' and (ev.root, ev.off) == d['task'] and d['h'] is None: d['h'] = strip(ev.res); return out()
        if ev.kind == 'call' and c.startswith('vf.promise'):
            if strip(ev.args[0]) != d['h'] and norm_ptr(ev.args[0]) != d['task']: V('waits for another coroutine')
            d['pr'] = norm_ptr(ev.res)[0]; return out()
        mine = d['pr'] is not None and ev.root == d['pr']
        if ev.kind == 'call' and lock(ev): d['lock'] = 1; return out()
        if ev.kind == 'call' and unlock(ev): d['lock'] = 0; return out()
        if ev.kind == 'call' and c.startswith('vf.wait'):
            if not d['lock']: V('sleeps without the mutex')
            if not c.startswith('vf.wait.plain'): pass
            d['seen'] = None; return out()
        if mine and d['gone'] and ev.kind in ('load', 'store'): V('uses the coroutine after destroying it')
        if mine and ev.kind == 'store' and ev.off == self.flag: V('changes the flag it waits for')
        if mine and ev.kind == 'load' and ev.off == self.flag:
            if ended(): return out()
            if not d['lock']: V('looks at the flag without the mutex')
            d['seen'] = strip(ev.res); return out()
        if mine and ev.kind == 'load' and ev.off == self.exc:
            if not ended(): V('looks at the outcome before the end')
            if d['x'] is None: d['x'] = strip(ev.res)
            return out()
        if is_rethrow(ev) and ev.kind in ('call', 'unwind'):
            cell = st.mem.get(norm_ptr(ev.args[0])); v = strip(cell[1]) if cell else None
            if not ended(): V('throws before the end')
            if d['x'] is None or v != d['x'] and norm_ptr(ev.args[0]) != (d['pr'], self.exc): V('throws something other than the exception of the awaitable')
            elif st.ev(mk_cmp('ne', d['x'], C(0))) is not True: V('throws although the awaitable did not')
            d['threw'] = 'op'; return out()
        m = AWAIT.match(ev.dem or '') if ev.kind in ('call', 'unwind') else None
        if m and m.group(1) in Drive.who:
            if ev.kind == 'unwind': d['threw'] = 'resume'; return out()
            if m.group(2) != 'resume': V('awaits a second time'); return out()
            if not ended(): V('takes the outcome before the end')
            if d['gone']: V('takes the outcome after destroying the coroutine')
            if d['x'] is None or st.ev(mk_cmp('eq', d['x'], C(0))) is not True: V('takes a value although the awaitable may have thrown')
            if d['got'] is not None: V('takes the outcome twice')
            d['got'] = ev.args[0] if m.group(1) == 'AwM' else strip(ev.res) if ev.res is not None else 'void'; return out()
        if 'VT::VT(VT&&)' in (ev.dem or '') and ev.kind == 'call' and d['got'] is not None and norm_ptr(ev.args[1]) == norm_ptr(d['got']): d['got'] = ev.args[0]; return out()
        if is_destroy(ev):
            if strip(ev.args[0]) != d['h']: V('destroys another coroutine')
            if d['gone']: V('destroys the coroutine twice')
            if not ended(): V('destroys a coroutine that may still run')
            d['gone'] = 1; return out()
        return st.ts
    def exit(self, st, kind, ret, cx):
        if kind == 'abort': return
        d = dict(st.ts); V = lambda m: cx.violate(st, m, cx._ev)
        if d['task'] is None: 
            if kind == 'ret': V('does not wait')
            return
        if not d['gone'] and not (d['h'] is not None and st.ev(mk_cmp('eq', d['h'], C(0))) is True): V('the coroutine is never destroyed')
        if kind == 'unwind':
            self.n['threw'] += 1
            if d['threw'] is None: V('leaves by another exception than that of the awaitable')
            return
        self.n['ret'] += 1
        if d['got'] is None: V('returns without the outcome'); return
        if d['gone'] and d['x'] is not None and st.ev(mk_cmp('eq', d['x'], C(0))) is not True: V('returns although the awaitable threw')
        if self.kind in 'ir':
            if d['out'] != d['got']: V('returns something other than the outcome')
        if self.kind == 'm' and norm_ptr(d['got'])[0] != ('arg', 0): V('returns something other than the outcome')
def run(ck):
    irs = ck.ir('m16.cpp', PRIMS, entries=['^w_', '^coro:.*(Aw.|CoI)'])
    for cfg, f in irs.items():
        cs = [n for n in f if not n.startswith('w_')]
        ck.count('waiting coroutines [%s]' % cfg, len(cs), 21)
        flags, excs = set(), set()
        for n in cs:
            m = re.search(r'\((\w+)(&*), [^()]*\)$', f[n].dem)
            r = Drive(bool(m and m.group(2))); ck.flow(f[n], r, cfg); flags |= r.flags; excs |= {(n, x) for x in r.excs}
            if not ck.viol: ck.count('%s: ends reached [%s]' % (n[-30:], cfg), r.n['final'], 2)
            f[n].flag, f[n].exc = one(r.flags, 'flag'), one(r.excs, 'slot of the exception')
        by = {}
        for n in cs: by.setdefault((f[n].flag, f[n].exc), {})[n] = f[n]
        for n in f:
            m = re.match(r'w_(l|r|bl|br|pl|pr|mv|mc)_(.)$', n)
            if not m: continue
            used = {i['callee'] for b in f[n].blocks for i in b if i.get('callee') in cs}
            lay = one([(f[c].flag, f[c].exc) for c in used], 'coroutine behind ' + n)
            k = {'b': 'i', 'h': 'i', 'c': 'i'}.get(m.group(2), m.group(2))
            r = Wait(by[lay], lay[0], lay[1], k, m.group(1)[-1] == 'l'); ck.flow(f[n], r, cfg)
            if not ck.viol: ck.count('%s [%s]' % (n, cfg), min(r.n.values()), 1)
        r = DestroyOnce(); ck.flow(f['w_dtor'], r, cfg)
        ck.flow(f['w_move'], MoveCtor(), cfg); ck.flow(f['w_assign'], MoveAssign(), cfg); ck.flow(f['w_self'], SelfAssign(), cfg)
    ck.assumptions = ['the awaitable keeps the awaiter protocol and resumes the coroutine it was given at most once', 'std::mutex and std::condition_variable do what the standard says and do not throw', 'a blocking task is asked for its outcome before it is destroyed']
    ck.finish('typestate over the body of the coroutine that awaits on behalf of the blocked thread (as the compiler sees it before splitting) and over sync_wait, blocking_get, both pipe forms and make_blocking().get(), for awaitables yielding a value, a class object, a reference and nothing, with void, bool and handle await_suspend and with operator co_await, named and temporary; the blocking task as an owner; both configurations',
              'the driver awaits the given awaitable once, in place, starting at once; it records the end under the mutex and announces it under the same lock, once, only when suspended at its end after the awaitable completed or threw, and touches nothing after; the waiter looks at the flag under the mutex, sleeps only there, and takes or throws the outcome and destroys the coroutine only after having seen the flag set; it returns exactly what the awaitable yields and throws exactly what it threw; every path destroys the coroutine exactly once')
if __name__ == '__main__': main(run, 'M16')
