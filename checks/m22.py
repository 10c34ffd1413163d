from body import *
S = r'(std|macoro)::stop_source::'
PRIMS = HANDLE_PRIMS + [
    'rename vf.ss.stop	^' + S + r'request_stop\(\)( const)?$', 'rename vf.ss.token	^' + S + r'get_token\(\) const$',
    'rename vf.ss.copy	^' + S + r'stop_source\(.*stop_source( const&|&&)\)$', 'rename vf.ss.new	^' + S + r'stop_source\(\)$', 'rename vf.ss.dtor	^' + S + r'~stop_source\(\)$',
    'rename vf.ss.assign	^' + S + r'operator=\(',
    r'rename vf.st.possible	^(std|macoro)::stop_token::stop_possible\(\) const$', r'rename vf.st.dtor	^(std|macoro)::stop_token::~stop_token\(\)$',
    r'rename vf.st.copy	^(std|macoro)::stop_token::stop_token\(.*stop_token( const&|&&)\)$',
    r'rename vf.cb.ctor	^(std|macoro)::stop_callback(<std::function<void \(\)> ?>)?::stop_callback<', r'rename vf.cb.dtor	^(std|macoro)::stop_callback(<std::function<void \(\)> ?>)?::~stop_callback\(\)$',
]
class Take(Body):
    who = dict(AwI='op', AwV='op', AwR='op', AwU='un'); names = dict(op='the operation', un='the other operation')
    def __init__(self, valued): self.valued = valued
    def start(self): return dict(stop=0)
    def begins(self, st, d, w, ev, V):
        if w == 'un' and not d['stop']: V('waits for the other operation without asking it to stop')
        if w == 'un' and self.phase(d, 'op') not in ('over', 'threw'): V('waits for the other operation before the operation has ended')
    def event(self, st, ev, cx):
        if 'AwU::request_stop(' in (ev.dem or ''):
            d = dict(st.ts)
            if d['gone']: return st.ts
            if ev.kind == 'unwind': return DEAD
            if self.phase(d, 'op') not in ('over', 'threw'): cx.violate(st, 'asks the other operation to stop before the operation has ended', ev)
            d['stop'] = 1; return dict2ts(d)
        return super().event(st, ev, cx)
    def final(self, st, d, V):
        if not d['stop']: V('ends without asking the other operation to stop')
        if self.phase(d, 'un') not in ('over', 'threw'): V('ends while the other operation may still run')
        self.result(st, d, V, 'op', self.valued)
def prim(ev, n): return ev.kind == 'call' and ((ev.callee or '') == n or (ev.callee or '').startswith(n + '.'))
class Sources:
    """which stop source an object is: copies are the same source"""
    def sid(self, d, p):
        p = norm_ptr(p); m = dict(d['ids']); return m.get(p, ('at',) + p)
    def setid(self, d, p, i): m = dict(d['ids']); m[norm_ptr(p)] = i; d['ids'] = tuple(sorted(m.items(), key=repr))
    def nothrow(self, ev): return ev.kind == 'unwind' and (ev.callee or '').startswith('vf.ss.stop')      # requesting stop does not throw (M14)
    def sources(self, st, d, ev):
        """true when the event was about sources"""
        a = ev.args if ev.kind == 'call' else None
        if prim(ev, 'vf.ss.new'): d['news'] += 1; self.setid(d, a[0], ('new', d['news']))
        elif prim(ev, 'vf.ss.copy') or prim(ev, 'vf.ss.assign') or prim(ev, 'vf.st.copy'): self.setid(d, a[0], self.sid(d, a[1]))
        elif prim(ev, 'vf.ss.token'): self.setid(d, a[0], ('token of', self.sid(d, a[1])))
        elif prim(ev, 'vf.ss.dtor') or prim(ev, 'vf.st.dtor'): self.setid(d, a[0], ('gone',))
        else: return False
        return True
class Helper(Body, Sources):
    """the timer task of a timeout"""
    who = dict(AwT='tm'); names = dict(tm='the timer')
    def start(self): return dict(ids=(), news=0, stop=0, sched=None)
    def event(self, st, ev, cx):
        d = dict(st.ts)
        if not d['gone'] and d['fin'] != 2:
            if self.nothrow(ev): return DEAD
            if self.sources(st, d, ev): return dict2ts(d)
            V = lambda m: cx.violate(st, m, ev)
            if prim(ev, 'vf.ss.stop'):
                if self.sid(d, ev.args[0]) != ('at', ('arg', 2), 0): V('requests stop of a source that is not the timeout\'s own')
                if self.phase(d, 'tm') not in ('over', 'threw') and d['sched'] != 'threw': V('requests stop before the timer has ended')
                d['stop'] = 1; return dict2ts(d)
            if 'Sch::schedule_after(' in (ev.dem or '') and ev.kind in ('call', 'unwind'):
                if ev.kind == 'unwind': d['sched'] = 'threw'; d['act'] = 'other'; return dict2ts(d)
                if d['sched']: V('starts the timer twice')
                if ev.args[1] != ARG(1): V('uses another scheduler than the one given')
                if ev.args[2] != ('argv', 3): V('waits another time than the one given')
                if self.sid(d, ev.args[3]) != ('token of', ('at', ('arg', 2), 0)): V('the timer does not listen to the stop source of the timeout')
                d['sched'] = 'made'; return dict2ts(d)
        return super().event(st, ev, cx)
    def final(self, st, d, V):
        if self.phase(d, 'tm') not in ('over', 'threw') and d['sched'] != 'threw': V('ends without waiting for the timer')
        if not d['stop']: V('ends without requesting stop')
        if d['exc'] is not None: V('an exception of the timer becomes the outcome of the timeout')
class Reset(Rule, Sources):
    caught = True
    def __init__(self, a=(0, 1, 2)): self.a = a; self.n = dict(reg=0, noreg=0)
    def pure_call(self, dem, cal): return cal.startswith('vf.')
    def init(self, fn, flow): return dict2ts(dict(ids=(), news=0, possible=None, cb=None, mk=None, h=None, own=()))
    def event(self, st, ev, cx):
        d = dict(st.ts); V = lambda m: cx.violate(st, m, ev)
        me, s, t = ARG(self.a[0]), ARG(self.a[1]), ('argv', self.a[2])
        if self.sources(st, d, ev): return dict2ts(d)
        own = [i for p, i in d['ids'] if p[0] == norm_ptr(me)[0] and i[0] == 'new']
        if prim(ev, 'vf.st.possible'):
            if self.sid(d, ev.args[0])[0] == 'token of': V('looks at another token than the one given')
            d['possible'] = strip(ev.res)
        elif prim(ev, 'vf.cb.ctor'):
            if self.sid(d, ev.args[1])[0] == 'token of': V('registers on another token than the one given')
            fn = norm_ptr(ev.args[2])
            cap = [i for p, i in d['ids'] if p[0] == fn[0]]
            if not own or cap != own: V('the callback does not hold the stop source of the timeout')
            d['cb'] = norm_ptr(ev.args[0])
        elif ev.kind == 'call' and 'timeout::make_task<' in (ev.dem or ''):
            if d['mk']: V('starts two timers')
            if ev.args[1] != s or ev.args[3] != t: V('starts the timer on another scheduler or with another time')
            if not own or self.sid(d, ev.args[2]) != own[0]: V('the timer task does not hold the stop source of the timeout')
            d['mk'] = norm_ptr(ev.args[0])
        elif ev.kind == 'load' and d['mk'] == (ev.root, ev.off) and d['h'] is None: d['h'] = strip(ev.res)
        elif ev.kind in ('load', 'store') and ev.root == norm_ptr(me)[0]: m = dict(d['own']); m[ev.off] = strip(ev.res if ev.kind == 'load' else ev.val); d['own'] = tuple(sorted(m.items()))
        elif prim(ev, 'vf.ss.stop'): V('requests stop right away')
        return dict2ts(d)
    def exit(self, st, kind, ret, cx):
        if kind != 'ret': return
        d = dict(st.ts); V = lambda m: cx.violate(st, m, cx._ev)
        me = norm_ptr(ARG(self.a[0]))[0]
        if not any(p[0] == me and i[0] == 'new' for p, i in d['ids']): V('no new stop source is made')
        mem = dict(d['own']); has = lambda v: any(st.ev(mk_cmp('eq', x, v)) is True for x in mem.values())
        p = st.ev(d['possible']) if d['possible'] is not None else None
        if d['cb'] is None and p is not False: V('a stop request of the given token is not forwarded')
        if d['cb'] is not None:
            self.n['reg'] += 1
            if not any(norm_ptr(v) == d['cb'] for v in mem.values()): V('the registration is not kept')
        else: self.n['noreg'] += 1
        if d['mk'] is None or d['mk'][0] != me and (d['h'] is None or not has(d['h'])): V('the timer task is not kept')
class Own(Rule, Sources):
    """does one thing to the source of the timeout"""
    def __init__(self, what): self.what = what; self.n = 0
    def pure_call(self, dem, cal): return cal.startswith('vf.')
    def init(self, fn, flow): return dict2ts(dict(ids=(), news=0, did=0))
    src = ('arg', 0)
    def event(self, st, ev, cx):
        d = dict(st.ts); mine = ('at', self.src)
        if self.nothrow(ev): return DEAD
        if prim(ev, 'vf.ss.stop'):
            if self.what != 'stop' or self.sid(d, ev.args[0])[:2] != mine: cx.violate(st, 'requests stop of another stop source', ev)
            d['did'] += 1
        self.sources(st, d, ev); return dict2ts(d)
    def exit(self, st, kind, ret, cx):
        if kind != 'ret': return
        d = dict(st.ts); self.n += 1; mine = ('at', self.src)
        if self.what == 'stop':
            if d['did'] != 1: cx.violate(st, 'does not request stop', cx._ev)
        else:
            g = self.sid(d, ARG(0))
            if self.what == 'token' and (g[0] != 'token of' or g[1][:2] != mine) or self.what == 'copy' and g[:2] != mine: cx.violate(st, 'hands out something that is not the stop source of the timeout', cx._ev)
class Take2(Rule, Sources):
    """moving a timeout: source shared, registration and task moved"""
    caught = True
    def __init__(self, assign): self.assign = assign; self.n = 0
    def pure_call(self, dem, cal): return cal.startswith('vf.')
    def init(self, fn, flow): self.src = {}; return dict2ts(dict(ids=(), news=0, from_=(), taken=0))
    def event(self, st, ev, cx):
        d = dict(st.ts)
        if prim(ev, 'vf.ss.copy') or prim(ev, 'vf.ss.assign'):
            if norm_ptr(ev.args[0])[0] == ('arg', 0) and norm_ptr(ev.args[1])[0] == ('arg', 1): d['taken'] = 1
        if prim(ev, 'vf.ss.stop'): cx.violate(st, 'moving a timeout requests stop', ev)
        if ev.kind == 'load' and ev.root == ('arg', 1) and ev.off in self.slots and ev.off not in dict(d['from_']): d['from_'] += ((ev.off, strip(ev.res)),)
        return dict2ts(d)
    def exit(self, st, kind, ret, cx):
        if kind != 'ret' or st.ev(mk_cmp('eq', ARG(0), ARG(1))) is True: return
        d = dict(st.ts); f = dict(d['from_']); self.n += d['taken']
        a, b = fields(st, ('arg', 0)), fields(st, ('arg', 1))
        e = a.get(self.flag)
        if not d['taken'] and (e is None or st.ev(mk_cmp('eq', e, C(1), 8)) is not False): cx.violate(st, 'the moved timeout has no stop source', cx._ev)
        for o in self.slots:
            if o not in f or a.get(o) != f[o]: cx.violate(st, 'the moved timeout does not hold what it was moved from', cx._ev)
            elif b.get(o) != C(0) and not (self.assign and b.get(o) is not None and b.get(o) != f[o]): cx.violate(st, 'the timeout still holds what it was moved to', cx._ev)
def run(ck):
    irs = ck.ir('m22.cpp', PRIMS, entries=[r'^macoro::task<.*macoro::take_until<', '^w_', r'^macoro::task<void, false> macoro::timeout::make_task<', r'^(void )?macoro::timeout::.*lambda.*::operator\(\)\('])
    for cfg, f in irs.items():
        L = {p: [x for n, x in f.items() if re.search(p, x.dem)] for p in ('take_until<', 'timeout::make_task<', 'lambda.*operator')}
        for p, k in (('take_until<', 3), ('timeout::make_task<', 1), ('lambda.*operator', 1)): ck.count('%s bodies [%s]' % (p, cfg), len(L[p]), k)
        for x in L['take_until<']:
            m = re.search(r'take_until<(\w+), ', x.dem)
            r = Take(m.group(1) != 'AwV'); ck.flow(x, r, cfg)
            if not ck.viol: ck.count('%s: ends reached [%s]' % (m.group(1), cfg), r.n['final'], 4)
        for x in L['timeout::make_task<']:
            r = Helper(); ck.flow(x, r, cfg)
            if not ck.viol: ck.count('timer: ends reached [%s]' % cfg, r.n['final'], 3)
        for n in ('w_reset',):
            r = Reset(); ck.flow(f[n], r, cfg)
            if not ck.viol: ck.count('%s: with and without a token [%s]' % (n, cfg), min(r.n.values()), 1)
        ck.flow(f['w_ctor'], Reset(), cfg)
        for n, what in (('w_stop', 'stop'), ('w_token', 'token'), ('w_source', 'copy')):
            r = Own(what); r.src = ('arg', 0 if what == 'stop' else 1); ck.flow(f[n], r, cfg)
            if not ck.viol: ck.count('%s [%s]' % (n, cfg), r.n, 1)
        p = probe(f['w_def']); z = [e for e in p.of('store') if e.root == ('arg', 0) and e.val == C(0)]
        slots = sorted({e.off for e in z if e.size == 8}); flag = one([e.off for e in z if e.size == 1], 'flag of the stop source')
        if not ck.obligation('a default timeout is empty [%s]' % cfg, len(slots) == 2, 'slots %s' % slots): continue
        for n in ('w_move', 'w_assign'):
            r = Take2(n == 'w_assign'); r.slots, r.flag = slots, flag; ck.flow(f[n], r, cfg)
            if not ck.viol: ck.count('%s [%s]' % (n, cfg), r.n, 1)
        for x in L['lambda.*operator']:
            r = Own('stop'); ck.flow(x, r, cfg)
            if not ck.viol: ck.count('forwarding [%s]' % cfg, r.n, 1)
    ck.assumptions = ['the operation, the other operation and the scheduler keep the awaiter protocol', 'the timer ends when its token is stopped (M13)', 'requesting stop does not throw (M14)', 'a timeout whose timer has not ended is awaited before it is destroyed, as any eager task']
    ck.finish('typestate over the bodies of take_until (for operations yielding a value, a reference and nothing) and of the timer task of timeout, as the compiler sees them before splitting: every co_await is ready, suspend and resume, every awaiter opaque and free to throw, every suspension resumed or destroyed; reset, constructor, request_stop, get_token, get_source, moves of timeout and the forwarding callback, with the identity of every stop source tracked through copies; both configurations',
              'the other operation is asked to stop only after the operation has ended, always, and awaited to its end before the coroutine ends; the outcome is the operation\'s value or exception and never the other\'s; the timer task waits once, for the given time on the given scheduler, listening to the timeout\'s own source, and requests stop of that source after the timer ended however it ended, letting nothing escape; a given token that can be stopped is forwarded to that same source; moves keep source, registration and task together')
if __name__ == '__main__': main(run, 'M22')
