"""Bodies of library coroutines, analysed as the compiler sees them before it splits them:
the awaiters are opaque, every co_await is ready / suspend / resume, every suspension may
be resumed or destroyed."""
from common import *
from scope import dict2ts
AWAIT = re.compile(r'^(?:\w+::)*(\w+)::await_(ready|suspend|resume)\(')
EXC = re.compile(r'^std::__exception_ptr::|^std::rethrow_exception|^std::terminate|^std::current_exception')
class Body(Rule):
    caught = True
    who = {}                # class of the awaiter -> letter
    def pure_call(self, dem, cal): return bool(EXC.match(dem or '')) or cal.startswith('vf.')
    def private_roots(self, st): return {k[0] for k in st.mem if k[0][0] == 'al'}
    def start(self): return {}
    def init(self, fn, flow):
        self.n = dict(final=0, suspended=0, threw=0)
        return dict2ts(dict(dict(ph=(), susp=None, gone=0, pr=None, act=None, cap=(), kept=None, res=None, exc=None, fin=0), **self.start()))
    def phase(self, d, w): return dict(d['ph']).get(w, (None, None))[0]
    def setph(self, d, w, p, r=None): x = dict(d['ph']); x[w] = (p, r); d['ph'] = tuple(sorted(x.items()))
    def event(self, st, ev, cx):
        d = dict(st.ts)
        V = lambda m: cx.violate(st, m, ev)
        if d['gone'] or d['fin'] == 2: return st.ts
        if d['susp'] is not None and st.ev(mk_cmp('eq', d['susp'], C(1), 8)) is True: d['gone'] = 1; return dict2ts(d)
        out = lambda: dict2ts(d)
        if ev.kind == 'call' and ev.callee == 'llvm.coro.id': d['pr'] = norm_ptr(ev.args[1])[0]; return out()
        if ev.kind == 'call' and ev.callee == 'llvm.coro.suspend':
            d['susp'] = strip(ev.res) if ev.res is not None else None
            if ev.args[1] != C(0): d['fin'] = 2
            return out()
        m = AWAIT.match(ev.dem or '') if ev.kind in ('call', 'unwind') else None
        w = self.who.get(m.group(1)) if m else None
        if ev.kind == 'unwind':
            if w: self.setph(d, w, 'threw'); d['act'] = w; self.n['threw'] += 1; self.ended(st, d, w, ev, V); return out()
            if is_rethrow(ev): d['act'] = self.exc_of(st, d, ev.args[0])
            elif ev.callee == '__cxa_rethrow': pass
            elif ev.callee == '__cxa_end_catch': return DEAD
            else: return self.thrown(st, d, ev, cx)
            return out()
        if is_curexc(ev) and ev.kind == 'call':
            if ev.res is not None:
                d['cap'] = tuple(sorted(set(d['cap']) | {(ev.res, d['act'])}, key=repr))
                if d['pr'] is not None and norm_ptr(ev.args[0])[0] == d['pr']: d['exc'] = d['act'] or '?'
            return out()
        if w and ev.kind == 'call':
            p, r = dict(d['ph']).get(w, (None, None)); k = m.group(2)
            if k == 'ready':
                if p is not None: V('awaits %s again' % self.names[w])
                self.begins(st, d, w, ev, V); self.setph(d, w, 'asked', strip(ev.res))
            elif k == 'suspend':
                if p != 'asked' or st.ev(r) is not False: V('suspends on %s without asking whether it is ready' % self.names[w])
                self.n['suspended'] += 1; self.setph(d, w, 'waiting')
            else:
                if not (p == 'asked' and st.ev(r) is True or p == 'waiting' and d['susp'] is not None and st.ev(mk_cmp('eq', d['susp'], C(0), 8)) is True): V('takes the outcome of %s before it is there' % self.names[w])
                self.setph(d, w, 'over'); self.outcome(st, d, w, ev); self.ended(st, d, w, ev, V)
            return out()
        if ev.kind == 'store' and d['pr'] is not None and ev.root == d['pr']:
            v = strip(ev.val) if ev.val is not None else UNDEF
            if d['res'] is not None and v == d['res']: d['kept'] = ev.off
            elif d['kept'] is not None and ev.off == d['kept']: d['kept'] = None
            c = dict(d['cap'])
            if v in c: d['exc'] = c[v] or '?'
            return out()
        return self.more(st, d, ev, cx)
    def outcome(self, st, d, w, ev):
        if w == self.main: d['res'] = strip(ev.res) if ev.res is not None else 'void'
    main = 'op'
    def exc_of(self, st, d, p):
        c = st.mem.get(norm_ptr(p)); return dict(d['cap']).get(c[1] if c else None, '?')
    def begins(self, st, d, w, ev, V): pass
    def ended(self, st, d, w, ev, V): pass
    def thrown(self, st, d, ev, cx): d['act'] = 'other'; return dict2ts(d)
    def more(self, st, d, ev, cx):
        """the end: control goes on to whoever awaits"""
        if d['fin'] == 0 and ev.kind == 'call' and (is_resume(ev) or is_next(ev)) and d['pr'] is not None and self.ending(st, d): d['fin'] = 1; return dict2ts(d)
        return st.ts
    def ending(self, st, d): return False
    def exit(self, st, kind, ret, cx):
        d = dict(st.ts)
        if d['gone'] or kind == 'abort': return
        if d['fin'] == 2:
            if not d.get('chk'): self.n['final'] += 1; self.final(st, d, lambda m: cx.violate(st, m, cx._ev))
            return
        if kind == 'unwind' and d['ph']: cx.violate(st, 'an exception escapes into whoever resumed the coroutine', cx._ev)
    def final(self, st, d, V): pass
    def result(self, st, d, V, w, valued):
        """the outcome of w is the coroutine's"""
        p = self.phase(d, w)
        if p == 'threw':
            if d['exc'] != w: V('the exception of %s is not the outcome' % self.names[w])
        elif p == 'over':
            if d['exc'] is not None: V('the outcome is an exception although %s returned' % self.names[w])
            elif valued and d['kept'] is None: V('what %s returned is not the outcome' % self.names[w])
        else: V('ends without the outcome of %s' % self.names[w])
