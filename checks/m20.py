"""macro coroutines, followed through every suspension, exception and destruction"""
from common import *
from execf import *
from scope import dict2ts
# ---- what a body does, as a pattern over what can be observed of it
def seq(*p): return ('seq',) + tuple(x for q in p for x in (q if isinstance(q, str) else (q,)))
def alt(*p): return ('alt',) + p
def star(p): return ('star', p)
def opt(p): return alt(p, seq())
class NFA:
    def __init__(self, p): self.eps = []; self.tr = []; self.start = self.new(); self.end = self.build(p, self.start)
    def new(self): self.eps.append([]); self.tr.append({}); return len(self.eps) - 1
    def build(self, p, a):
        if isinstance(p, str):
            b = self.new(); self.tr[a].setdefault(p, []).append(b); return b
        if p[0] == 'seq':
            for x in p[1:]: a = self.build(x, a)
            return a
        b = self.new()
        if p[0] == 'alt':
            for x in p[1:]:
                s = self.new(); self.eps[a].append(s); self.eps[self.build(x, s)].append(b)
            return b
        s = self.new(); e = self.build(p[1], s); self.eps[a] += [s, b]; self.eps[e] += [s, b]; return b
    def close(self, S):
        S = set(S); todo = list(S)
        while todo:
            for t in self.eps[todo.pop()]:
                if t not in S: S.add(t); todo.append(t)
        return frozenset(S)
    def step(self, S, c): return self.close({t for s in S for t in self.tr[s].get(c, ())})
AW = seq('R', opt('S'), 'Z')
def aw(pre, use='', d=1): return seq(pre, AW, use, 'D' * d)
FINAL = seq('A', aw('f'), 'K')
one_await = seq(aw('s'), 'b')
BODIES = dict(none=seq('a'), value=seq('a', one_await), lvalue=seq(aw('s', d=0), 'b'), xvalue=seq(aw('s', d=0), 'b'), opm=seq(aw('sC', d=2), 'b'), opml=seq(aw('sC'), 'b'), opr=seq(aw('sC'), 'b'), opf=seq(aw('sC', d=2), 'b'),
              opt=seq(aw('sTC', d=3), 'b'), opu=seq(aw('sT', d=2), 'b'), opv=seq(aw('sT'), 'b'), set=seq(aw('s', '='), 'b'), ref=seq(aw('s', 't'), 'b'), fn=seq(aw('s', 't'), 'b'), await_await=seq('s', AW, AW, 'DD', 'b'),
              **{'try': seq('s', 'R', opt('S'), alt(seq('Z', opt('=')), '!Z', ('seq', 'Z', '!keep'), ('seq', 'Z', '!=')), 'D', 'b')}, **{'yield': seq(aw('y'), 'b')}, yield_temp=seq(aw('y', d=2), 'b'), yield_set=seq(aw('y', '='), 'b'), yield_await=seq('s', AW, 'y', AW, 'DDD', 'b'), two=seq(aw('s'), 'a', aw('sTC', d=3), 'b'),
              loop=seq(star(seq('m', aw('sC', d=2), 'b')), 'm'), early=seq('m', alt('V', one_await)), ret=seq('v'), ret_move=seq(aw('s'), 'v'), ret_await=aw('s', 'v'), ret_yield=aw('y', 'v'))
for n in ('bool', 'handle', 'svoid', 'sbool', 'shandle'): BODIES[n] = one_await
PASSES = {'set', 'ref', 'try', 'fn', 'ret_await', 'yield_await', 'yield_set', 'ret_yield', 'await_await'}
TOK = [(r'\b(make|named)<(Aw|Op)', 's'), (r'::initial_suspend\(\)', 'i'), (r'::final_suspend\(\)', 'f'), (r'::yield_value\(', 'y'), (r'::await_transform\(', 'T'), (r'operator co_await\(', 'C'), (r'::await_ready\(\)', 'R'),
       (r'::await_suspend\(', 'S'), (r'::await_resume\(\)', 'Z'), (r'^Here::a\(\)', 'a'), (r'^Here::b\(\)', 'b'), (r'^Sink::take\(', 't'), (r'^more\(\)', 'm'), (r'::return_value\(', 'v'), (r'::return_void\(\)', 'V'), (r'::unhandled_exception\(\)', 'X'), (r'^VT::operator=\(', '=')]
TOK = [(re.compile(a), b) for a, b in TOK]
MINE = re.compile(r'^(VT|Cap|MP|Ret|Aw|Op\w|Ini|Fin|Yie)(<.*?>)?::')
CTOR = re.compile(r'^(VT|Cap|MP|Aw|Op\w)(<.*>)?::(VT|Cap|MP|Aw|Op\w)\(')
DTOR = re.compile(r'::~(VT|Cap|MP|Aw|Op\w|Ini|Fin|Yie)\(\)')
SAY = dict(s='the operand is evaluated', i='initial_suspend() is asked', f='final_suspend() is asked', y='the promise is given the yielded value', T='await_transform is applied', C='operator co_await is applied', R='await_ready() is asked', S='the coroutine suspends', Z='the awaiter is resumed',
           D='a part of the await is destroyed', a='the body goes on', b='the body goes on', t='the result is passed on', m='the body goes on', v='the value is returned', V='return_void() is called', X='the exception is handled', A='the standard handle is told of the end', K='the standard handle is given up', **{'=': 'the result is assigned', '!Z': 'the exception is kept'})
def local(r): return r[0] == 'al'
class Macro(ExecRule):
    enough = 1
    def __init__(self, prog, name): self.prog = prog; self.name = name; self.nfa = NFA(alt(seq(aw('i'), BODIES[name], opt('V'), FINAL), seq('0', FINAL))); self.cases = set(); self.final = []; self.evens = set(); self.nonnull = set()
    def private_roots(self, st): return {k[0] for k in st.mem}
    def begin(self): return dict2ts(dict(objs=(), alloc=(), freed=(), nfa=self.nfa.close({self.nfa.start}), fail=None, cur=None, last=None, need=None, given=None, asked=None, h=None, frame=None, tag=None, adapter=None, begun=False, ready=None, k=0, went=0, doomed=False))
    def call_result(self, st, ev, cx):
        if ev.callee in ('_Znwm', '_Znam', '_ZnwmSt11align_val_t'):
            d = dict(st.ts); n = 0
            while n in d['alloc'] or n in d['freed']: n += 1
            return ptr(HEAP(n))
        if ev.kind == 'icall': return NOOP               # some other coroutine, which runs until it suspends
        return None
    def even(self, t): return strip(t) in self.evens
    # ---- a step of the pattern
    def token(self, st, d, c, V, threw=False):
        if threw:
            S = self.nfa.step(d['nfa'], '!' + c)
            if S: d['nfa'] = S; d['need'] = None
            else: self.fails(d)
            return
        if d['doomed']:
            if c not in 'DK': V('%s although the coroutine is being destroyed' % SAY[c])
            return
        if d['fail'] == 'open':
            if c == 'D': return
            if c == 'X' and d['begun']:
                if any(is_heap(r) and r != d['frame'][0] or local(r) for r, o in d['objs']): V('the exception is handled before what the await made is destroyed')
                d['fail'] = 'handled'; d['nfa'] = self.nfa.step(self.nfa.close({self.nfa.start}), '0'); return
            V('%s although an exception left the body' % SAY[c]); return
        S = self.nfa.step(d['nfa'], c)
        if not S: V('%s at the wrong time or too often' % SAY[c])
        d['nfa'] = S
    def fails(self, d):
        if d['fail'] is None: d['fail'] = 'open'
        d['need'] = d['given'] = None
    def settled(self, st, d):
        """does the coroutine stay suspended, as far as the path knows"""
        kind, res, own = d['asked']
        if kind == 'void': return True
        if kind == 'bool': return truth(st, res)
        same = st.ev(mk_cmp('eq', res, own, 64)); return None if same is None else not same
    def touched(self, st, d, V):
        if d['asked'] is None: return
        s = self.settled(st, d)
        if s is False: d['asked'] = None
        else: V('touches the coroutine after await_suspend, when somebody else may be resuming or destroying it')
    def event(self, st, ev, cx):
        d = dict(st.ts); V = lambda m: cx.violate(st, m, ev)
        if ev.kind in ('load', 'store', 'rmw', 'cmpxchg'):
            r = ev.root
            if r is not None and is_heap(r):
                if r[1][1] not in d['alloc']: V('uses memory that was freed'); return DEAD
                self.touched(st, d, V)
            if ev.kind == 'store' and ev.val is not None and r is not None and not is_heap(r) and not local(r) and d['frame'] and norm_ptr(ev.val)[0] == d['frame'][0] and d['adapter'] is None: d['adapter'] = (r, ev.off); d['h'] = ev.val if norm_ptr(ev.val)[1] & 1 else None
            return dict2ts(d)
        if ev.kind in ('landingpad', 'fence'): return st.ts
        cal, dem, args = ev.callee, ev.dem or '', ev.args; un = ev.kind == 'unwind'
        if cal in ('_Znwm', '_Znam', '_ZnwmSt11align_val_t'):
            if un:
                if d['frame'] and self.ending(d): self.final.append(ev); return DEAD
                self.fails(d) if d['frame'] else None; return dict2ts(d)
            self.touched(st, d, V)
            d['alloc'] += (norm_ptr(ev.res)[0][1][1],); return dict2ts(d)
        if cal in ('_ZdlPv', '_ZdlPvm', '_ZdaPv', '_ZdaPvm', '_ZdlPvmSt11align_val_t'):
            r, o = norm_ptr(args[0])
            if args[0] == C(0): return st.ts
            if not is_heap(r) or o: V('frees something that was not allocated'); return DEAD
            if r[1][1] not in d['alloc']: V('frees memory twice'); return DEAD
            self.touched(st, d, V)
            if any(x[0] == r for x in d['objs']): V('frees the memory of an object that is alive')
            d['alloc'] = tuple(n for n in d['alloc'] if n != r[1][1]); d['freed'] = (d['freed'] + (r[1][1],))[-2:]
            if r in [k[0] for k in st.mem]: st.mem = {k: v for k, v in st.mem.items() if k[0] != r}
            return dict2ts(d)
        if ev.kind == 'icall' or not cal or cal == 'llvm.coro.resume':
            if d['asked'] is not None and self.settled(st, d) and d['asked'][0] == 'handle' and untag_any(d['asked'][1], args[0]): d['went'] += 1; return DEAD if un else dict2ts(d)
            if cal == 'llvm.coro.resume' and not un and d['asked'] is None:
                a = d['adapter']
                if a is None or not any(k[0] == a[0] and v == (1, C(1)) for k, v in st.mem.items()): V('the standard handle is not told that the coroutine is over')
                self.token(st, d, 'A', V); return dict2ts(d)
            if not un and d['went'] == 0: V('resumes something nobody asked for')
            return DEAD if un else dict2ts(d)
        if cal == 'llvm.coro.destroy':
            d['k'] += 1; self.touched(st, d, V)
            if d['k'] > 1: V('destroys the standard handle twice')
            if d['adapter'] and st.mem.get(d['adapter'], (8, None))[1] != C(0): V('the standard handle is destroyed while it would destroy the coroutine again')
            self.token(st, d, 'K', V); return dict2ts(d)
        if cal == '__cxa_throw': V('throws an exception of its own'); return DEAD
        if cal == '__assert_fail': V('fails an assertion of the library'); return DEAD
        if cal in ('_ZSt9terminatev', 'abort'): V('ends the program'); return DEAD
        if cal == '__cxa_end_catch' and un: return DEAD
        if 'adapter()' in dem or cal.startswith(('llvm.', '__cxa_')): return st.ts
        if not dem or dem.startswith(('std::', 'macoro::')) and not re.search(r'\bnamed<', dem):
            if un:
                if d['frame'] and self.ending(d): self.final.append(ev); return DEAD
                self.fails(d) if d['frame'] else None
            return dict2ts(d)
        m = DTOR.search(dem)
        if m:
            at = norm_ptr(args[0])
            if is_heap(at[0]): self.touched(st, d, V)
            if is_heap(at[0]) or local(at[0]):
                if at not in d['objs']: V('a %s is destroyed where there is none' % m[1]); return DEAD
                if is_heap(at[0]) and at != [x for x in d['objs'] if is_heap(x[0])][-1]: V('a %s is destroyed before what was made after it' % m[1])
                if d['need'] is not None and norm_ptr(d['need']) == at: V('the result of an await is not passed on')
                if d['given'] is not None and not d['doomed'] and norm_ptr(d['given']) == at: V('the value given to the promise by a yield does not live until the coroutine continues')
                d['objs'] = tuple(x for x in d['objs'] if x != at)
                if is_heap(at[0]) and d['frame'] is not None and at[0] != d['frame'][0]: self.token(st, d, 'D', V)
            return dict2ts(d)
        sret = (ev.ins.get('sret') or [None])[0]; rest = [a for i, a in enumerate(args) if i != sret]
        c = next((t for p, t in TOK if p.search(dem)), None)
        for a in rest:
            at = norm_ptr(a)
            if c and is_heap(at[0]):
                if at[0][1][1] not in d['alloc']: V('%s with memory that was freed' % SAY[c]); return DEAD
                self.touched(st, d, V)
                if c not in 'S' and at not in d['objs'] or c == 'S' and a is rest[0] and at not in d['objs']: V('%s with an object that is not alive' % SAY[c])
            if c and local(at[0]) and at not in d['objs']: V('%s with an object that is not alive' % SAY[c])
            if d['need'] is not None and strip(a) == strip(d['need']) and not un: d['need'] = None
        if CTOR.match(dem) and not un and (is_heap(norm_ptr(rest[0])[0]) or local(norm_ptr(rest[0])[0])):
            at = norm_ptr(rest[0])
            if at in d['objs']: V('an object is made over one that is alive')
            d['objs'] += (at,)
            if 'MP' in dem.split('::')[-1]: d['frame'] = at
            if d['last'] is not None and dem == 'VT::VT(VT&&)' and strip(rest[1]) == d['last']: d['last'] = strip(rest[0])
        if un and c is None:
            if d['frame'] and at_begun(d): (self.token(st, d, 'keep', V, True), d.update(need=None))
            return dict2ts(d)
        if c and c not in 'T=tvVXsmab' or c == 'T': pass
        if c in ('a', 'b', 'm') and d['frame'] and leaks(st, d): V('memory of an await is not freed when the await is over')
        if c == 'T' or c in ('y', 'v', 'V', 'i', 'f', 'X'):
            if d['frame'] is None or norm_ptr(rest[0]) != d['frame']: V('%s: of something other than the promise' % SAY[c])
        if c == 'T' and strip(rest[1]) != strip(d['cur']): V('await_transform is applied to something other than the operand')
        if c == 'C' and strip(rest[0]) != strip(d['cur']): V('operator co_await is applied to something other than the operand')
        if c in ('R', 'S', 'Z'):
            if d['asked'] is not None and not un: self.touched(st, d, V)
            if d['cur'] is None or strip(rest[0]) != strip(d['cur']): V('%s: not the awaiter of the operand' % SAY[c])
        if c in ('=', 't', 'v') and d['last'] is not None and self.name in PASSES and strip(rest[1] if c != 't' else rest[0]) != strip(d['last']): V('%s: not what the awaiter returned' % SAY[c])
        if c in ('S', 'Z') and d['ready'] is not None:
            t = truth(st, d['ready'])
            if c == 'S' and t is not False: V('the coroutine suspends although the awaiter may be ready')
            if c == 'Z' and t is not True: V('the awaiter is resumed although it may not be ready')
            d['ready'] = None
        if c == 'S':
            self.suspending(st, d, ev, rest, V)
            if not un:
                kind = 'void' if 'id' not in ev.ins else 'bool' if ev.ins['t'] == 'i1' or ev.ins['t'] == 'i8' else 'handle'
                if kind == 'handle':
                    st.assume(mk_cmp('ne', strip(ev.res), C(0), 64), True); st.assume(mk_cmp('ne', ev.res, C(0), 64), True)
                    if 'std::' in dem.split('await_suspend')[1]: self.evens.add(strip(ev.res))
                d['asked'] = (kind, (ev.res if kind == 'bool' else strip(ev.res)) if ev.res is not None else None, strip(rest[1])); d['went'] = 0
        if c == 'Z' and 'Ini::' in dem: d['begun'] = True
        if c:
            d['asked0'] = None
            self.token(st, d, c, V, un)
            d.pop('asked0')
        if un: d['ready'] = None; return dict2ts(d)
        if c == 'R': d['ready'] = ev.res
        res = args[sret] if sret is not None else ev.res
        if sret is not None and (is_heap(norm_ptr(res)[0]) or local(norm_ptr(res)[0])):
            at = norm_ptr(res)
            if at in d['objs']: V('an object is made over one that is alive')
            d['objs'] += (at,)
        if res is not None and (c == 's' and re.search(r'named<', dem) or c in ('T', 'C') and sret is None): self.nonnull |= {res, strip(res)}; [st.assume(mk_cmp('ne', t, C(0), 64), True) for t in (res, strip(res))]
        if c in ('s', 'T', 'C', 'i', 'f', 'y'): d['cur'] = strip(res)
        if c == 'y': d['given'] = rest[1] if local(norm_ptr(rest[1])[0]) or is_heap(norm_ptr(rest[1])[0]) else None
        if c == 'Z':
            d['cur'] = d['last'] = strip(res) if res is not None else None; d['given'] = None
            if self.name in PASSES and res is not None: d['need'] = res if 'Ini' not in dem and 'Fin' not in dem else None
        if 'Yie' in dem and self.name not in ('yield_set', 'ret_yield'): d['need'] = None
        return dict2ts(d)
    def ending(self, d): return not d['fail'] == 'open' and bool(self.nfa.step(d['nfa'], 'f'))
    def suspending(self, st, d, ev, rest, V):
        h = rest[1]
        if 'coroutine_handle' in ev.dem and 'std::' in ev.dem.split('await_suspend')[1]:
            if d['adapter'] is None or 'hof' not in str(h) and norm_ptr(h)[0] not in [v[1] for v in st.mem.values()] and strip(h) not in [strip(v[1]) for v in st.mem.values()]: V('suspends with a handle other than the standard handle of the coroutine')
        else:
            r, o = norm_ptr(h)
            if d['frame'] is None or r != d['frame'][0] or not o & 1: V('suspends with a handle other than its own')
            elif d['h'] is not None and norm_ptr(d['h']) != (r, o): V('suspends with a handle other than its own')
            else: d['h'] = h
def truth(st, t):
    for u in (t, strip(t)):
        for c in (u, mk_cmp('ne', u, C(0), 1), mk_cmp('ne', u, C(0), 8)):
            try: v = st.ev(c)
            except (KeyError, TypeError, ValueError): v = None
            if v is not None and v in (True, False): return bool(v)
    return None
def at_begun(d): return d['begun']
def reach(mem, root):
    out = {}
    for x, y in mem.items():
        if is_heap(x[0]): subterms(y, out.setdefault(x[0], set()))
    got = set(); todo = [root]
    while todo:
        x = todo.pop()
        if x not in got: got.add(x); todo += [t for t in out.get(x, ()) if is_root(t)]
    return got
def leaks(st, d):
    held = reach(st.mem, d['frame'][0]); return any(HEAP(x) not in held for x in d['alloc'])
def untag_any(a, x):
    """x is the handle a, or the frame it refers to"""
    s = set(); subterms(strip(x), s); return strip(x) == strip(a) or strip(a) in s
def canon(mem, ts):
    """memory and state up to the names of allocations; stack, freed names and facts are gone"""
    m = {k: v for k, v in mem.items() if k[0][0] != 'al'}
    d = dict(ts); d['freed'] = (); order = {}
    def see(t):
        if isinstance(t, tuple):
            if is_root(t): order.setdefault(t[1][1], len(order)); return
            for x in t: see(x)
    if d['frame']: see(d['frame'])
    see(d['alloc'] and tuple(HEAP(n) for n in d['alloc']))
    def R(t):
        if isinstance(t, tuple):
            if is_root(t): return HEAP(order[t[1][1]])
            return tuple(R(x) for x in t)
        return t
    for k, v in m.items(): see(k); see(v)
    for k, v in d.items(): see(v)
    d = {k: R(v) for k, v in d.items()}; d['alloc'] = tuple(sorted(order[n] for n in dict(ts)['alloc']))
    return {R(k): R(v) for k, v in m.items()}, d
def is_root(t): return len(t) == 2 and t[0] == 'g' and isinstance(t[1], tuple) and len(t[1]) == 2 and t[1][0] == 'heap'
def life(ck, prog, name, cfg):
    byname = {x.dem.split('(')[0]: x for x in prog.values() if x.dem.count('(') == 1}
    fn = byname['w_' + name]; rule = Macro(prog, name); viol = []; seen = set(); todo = [(None, None, None)]; n = 0
    def go(f, ts, mem, args):
        st = State(); st.mem = dict(mem); st.ts = ts
        for t in rule.nonnull: st.assume(mk_cmp('ne', t, C(0), 64), True)
        fl = Exec(f, rule, args, state=st, max_steps=40000)
        try: fl.run()
        except Enough: pass
        ck.stats['functions'] += 1
        for k in ('states', 'events', 'paths'): ck.stats[k] += fl.stats[k]
        for v in fl.violations: viol.append(v)
        return fl.exits
    def bad(m, ev, tr=()): viol.append(dict(msg=m, loc=locstr(ev.loc), where='', fn=fn.dem, path=list(tr)))
    while todo and not viol:
        what, mem, d0 = todo.pop(); n += 1
        if n > 400: raise TooBig('%s has too many suspended states' % name)
        if what is None: ex = go(fn, rule.begin(), {}, (ARG(0),))
        else: ex = go(byname['x_' + what], dict2ts(d0), mem, (d0['h'],))
        if not ex and not viol: raise Missing('no path through %s' % name)
        for kind, ret, st, ev in ex:
            d = dict(st.ts); f = d['frame']
            if kind == 'abort': continue
            V = lambda m: bad(m, ev)
            if any(local(r) for r, o in d['objs']): V('something made on the stack is not destroyed when the coroutine is left')
            alive = f is not None and f[0][1][1] in d['alloc']
            if what == 'destroy' and (kind != 'ret' or alive): V('destroying the coroutine does not free it'); continue
            if kind == 'unwind':
                if what == 'resume' and d['begun']: V('an exception escapes into whoever resumed the coroutine')
                if alive and (d['objs'] != d['objs'][:2] or any(r != f[0] for r, o in d['objs'])): V('what an await made is not destroyed when its exception escapes')
                if not alive and (d['objs'] or d['alloc']): V('an exception while the coroutine is made leaks')
                rule.cases.add('escapes'); continue
            if not alive:
                if d['objs']: V('something is not destroyed with the coroutine')
                if d['alloc']: V('memory is not freed with the coroutine')
                if d['k'] != 1: V('the standard handle is not given up with the coroutine')
                if what != 'destroy' and not rule.nfa.end in d['nfa']: V('the coroutine is destroyed before its end')
                rule.cases.add('destroyed' if what == 'destroy' else 'ended'); continue
            if d['fail'] == 'open': V('an exception of the body is dropped'); continue
            if d['asked'] is None: V('the coroutine is left without being suspended'); continue
            s = rule.settled(st, d)
            if s is not True: V('the coroutine is left although await_suspend may have said to continue'); continue
            if d['asked'][0] == 'handle' and d['went'] != 1 and st.ev(mk_cmp('eq', d['asked'][1], NOOP, 64)) is not True: V('the coroutine to continue with is resumed %d times' % d['went'])
            if d['asked'][0] != 'handle' and d['went']: V('resumes something although it was only to suspend')
            if d['h'] is None: V('suspends without a handle'); continue
            if leaks(st, d): V('memory of an await is not freed when the await is over'); continue
            rule.cases.add('suspends after an exception' if d['fail'] else 'suspends')
            d['asked'] = None; d['went'] = 0; d['fail'] = None if d['fail'] != 'handled' else 'handled'
            m, d = canon(st.mem, d); key = (frozenset(m.items()), dict2ts(d))
            if key in seen: continue
            seen.add(key)
            todo.append(('resume', m, d)); todo.append(('destroy', m, dict(d, doomed=True)))
    if rule.final: ck.violation('when there is no memory for the final suspension the exception escapes into whoever resumed the coroutine', locstr(rule.final[0].loc), key='final|no memory')
    for v in viol: ck.violation('[%s] %s: %s' % (cfg, name, v['msg']), v['loc'], v['where'], v['path'], key='%s|%s' % (name, v['msg']))
    if not viol:
        want = {'escapes', 'destroyed', 'ended', 'suspends', 'suspends after an exception'} if name not in ('ret', 'none') else {'escapes', 'destroyed', 'ended', 'suspends'}
        if not want <= rule.cases: raise Missing('%s: not every way through it was found: %s' % (name, sorted(want - rule.cases)))
    return n, len(seen)
def run(ck):
    n = k = 0
    for cfg, prog in ck.ir('m20.cpp', [], entries=['^w_', '^x_', '@taken']).items():
        for name in sorted(BODIES):
            a, b = life(ck, prog, name, cfg); n += b; k += 1
            ck.samples.append('%s [%s]: %d runs, %d suspended states' % (name, cfg, a, b))
    ck.count('coroutine bodies', k, 2 * len(BODIES)); ck.count('suspended states', n, 6 * len(BODIES))
    ck.assumptions = ['values, awaiters and promises of the user have destructors that do not throw; their final awaiter and unhandled_exception do not throw']
    ck.finish('every macro coroutine body of the witness followed from its creation through every suspension by interpreting the frame\'s real code on known memory: each call may throw, each await may be ready, suspend, be refused or transfer control, each suspended state is both resumed and destroyed',
              'what can be observed of a body is the sequence a compiler coroutine gives (operand, await_transform, operator co_await, ready, suspend, resume, use, destruction); each object and allocation ends exactly once, in reverse order; nothing of the coroutine is touched once await_suspend has let it go; exceptions reach unhandled_exception with the await\'s objects gone, or the caller before the body began')
if __name__ == '__main__': main(run, 'M20')
