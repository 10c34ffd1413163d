from stopst import *
class Bal(Rule):
    """references added and dropped match what the objects hold before and after"""
    OFF = 0
    def __init__(self, before, after, self_=False): self.b, self.a = before, after; self.n = 0; self.self_ = self_
    def pure_call(self, dem, cal): return cal.startswith('vf.')
    def private_roots(self, st): return (('arg', 0), ('arg', 1))
    def init(self, fn, flow): self.fn = fn; return ((), 0)          # (references: ((kind, term, net) ...), created)
    def starts(self, st, flow):
        init = {}
        objs = set(self.b) | set(self.a)
        for i in list(self.b):
            t = ('s', 'entry', i, 0); st.mem[(('arg', i), self.OFF)] = (8, t); init[i] = t
        for i in objs:
            for j in objs:
                if i < j: st.assume(mk_cmp('eq', ARG(i), ARG(j)), False)
        st.ts = (tuple((self.b[i], init[i], 1) for i in sorted(init)), None)
        if init and len(init) == 2 and None: pass
        return (st,)
    def same(self, st, x, y):
        return x == y or st.ev(mk_cmp('eq', x, y)) is True
    def net(self, st, refs, x, kind=None): return sum(n for k, t, n in refs if (kind is None or k == kind) and self.same(st, t, x))
    def event(self, st, ev, cx):
        refs, made = st.ts
        if op(ev, 'create'):
            if ev.kind == 'unwind': return st.ts
            x = strip(ev.res); st.assume(mk_cmp('eq', x, C(0)), False); return (refs + (('src', x, 1),), x)
        for n, k, d in (('addt', 'tok', 1), ('adds', 'src', 1), ('relt', 'tok', -1), ('rels', 'src', -1)):
            if op(ev, n):
                if ev.kind == 'unwind': return DEAD
                x = strip(ev.args[0])
                if st.ev(mk_cmp('eq', x, C(0))) is not False: cx.violate(st, 'counts a reference of a possibly null state', ev)
                if d > 0 and self.net(st, refs, x) < 1: cx.violate(st, 'adds a reference to a state that may be gone already', ev)
                if d < 0 and self.net(st, refs, x, k) < 1: cx.violate(st, 'drops a reference that it does not hold', ev)
                return (refs + ((k, x, d),), made)
        for n in ('possible', 'requested', 'request', 'register', 'deregister'):
            if op(ev, n):
                x = strip(ev.args[0])
                if st.ev(mk_cmp('eq', x, C(0))) is not False: cx.violate(st, 'uses a possibly null state', ev)
                if self.net(st, refs, x) < 1: cx.violate(st, 'uses a state that may be gone already', ev)
        return st.ts
    def exit(self, st, kind, ret, cx):
        if kind == 'abort': return
        refs, made = st.ts; refs = list(refs); self.n += 1
        held = dict(self.a)
        if kind == 'unwind' and self.unwind is not None: held = dict(self.unwind)
        for i, k in held.items():
            c = st.mem.get((('arg', i), self.OFF))
            if c is None: cx.violate(st, 'what the object refers to afterwards is unknown', cx._ev); return
            refs.append((k, strip(c[1]), -1))
        left = []
        for k, t, n in refs:
            for e in left:
                if e[0] == k and self.same(st, e[1], t): e[2] += n; break
            else: left.append([k, t, n])
        for k, t, n in left:
            if n == 0 or st.ev(mk_cmp('eq', t, C(0))) is True: continue
            w = 'source' if k == 'src' else 'token'
            cx.violate(st, ('a %s reference is never dropped: the state is never freed' if n > 0 else 'a %s refers to the state without being counted: it may be freed too early') % w, cx._ev)
        self.last(st, kind, ret, cx)
    unwind = None
    def last(self, st, kind, ret, cx):
        if self.want is None or kind != 'ret': return
        c = {i: st.mem.get((('arg', i), self.OFF)) for i in (0, 1)}
        g = lambda i: strip(c[i][1]) if c[i] else None
        for i, x in self.want.items():
            v = g(i)
            if x == 'null': ok = v is not None and st.ev(mk_cmp('eq', v, C(0))) is True
            elif x == 'new': ok = v is not None and v == st.ts[1]
            else:
                e = ('s', 'entry', x, 0); ok = v is not None and self.same(st, v, e)
            if not ok: cx.violate(st, 'the object does not refer to the state it should', cx._ev)
    want = None
class Drop(Rule):
    """destroying the state frees the table, every list and every chunk once, each after its successor was read"""
    gens = 4; slim = True; unroll = 0
    def init(self, fn, flow): self.n = dict(chunk=0, list=0, table=0); return (None, (), None, None, 0)      # table, ((term, freed, next read)...), bound, index, covered
    def known(self, ts, x): return next((h for h in ts[1] if h[0] == x), None)
    def put(self, ts, x, h): return ts[:1] + (tuple(y for y in ts[1] if y[0] != x) + ((h,) if h else ()),) + ts[2:]
    def event(self, st, ev, cx):
        ts = st.ts; tab, hs, bound, idx, cov = ts
        if self.known(ts, ('leak',)): cx.violate(st, 'a list or chunk is never freed', ev); ts = self.put(ts, ('leak',), None)
        if ev.kind in ('load', 'store') and ev.root is not None:
            r, o = ev.root, ev.off
            base = r[1] if r[0] == 'gep' else r
            h = self.known(ts, base)
            if h and h[1]: cx.violate(st, 'reads what was freed already', ev); return ts
        if ev.kind == 'load':
            if r == ('arg', 0) and o == self.TAB: return (strip(ev.res),) + ts[1:]
            if tab is not None and r == tab and ev.size == 4: return ts[:2] + (strip(ev.res),) + ts[3:]
            if tab is not None and ev.size == 8 and (r == tab or r[0] == 'gep' and r[1] == tab):
                i = r[3][0][0] if r[0] == 'gep' else C(ev.off - 16); i = i[2] if i[0] in ('ze', 'se') else i
                if idx is None and i != C(0) and not (i[0] == 's' and i[1] == 'phi'): cx.violate(st, 'the lists are not gone through from the first one', ev)
                return self.put(ts[:3] + (i, 1), strip(ev.res), (strip(ev.res), 0, None))
            if r[0] == 'p' or r[0] == 's':
                h = self.known(ts, r)
                if h and ev.size == 8 and ev.ord is not None and o in self.NEXT:
                    x = strip(ev.res); t = self.put(ts, h[0], (h[0], h[1], x))
                    return self.put(t, x, (x, 0, None))
        if ev.kind == 'call' and (ev.callee == 'free' or ev.callee.startswith('_ZdlPv')):
            x = strip(ev.args[0])
            if x == tab and tab is not None:
                if st.ev(mk_cmp('eq', tab, C(0))) is True: return ts
                if cov != 2: cx.violate(st, 'the table is freed before every list was', ev)
                self.n['table'] += 1
                return ('freed',) + ts[1:]
            h = self.known(ts, x)
            if h is None: cx.violate(st, 'frees something it does not own', ev); return ts
            if h[1]: cx.violate(st, 'frees a list or chunk twice', ev)
            if h[2] is None: cx.violate(st, 'frees a list or chunk before reading what follows it', ev)
            self.n['chunk'] += 1
            return self.put(ts, x, (x, 1, h[2]))
        return ts
    def settle(self, st, ts, h, cx):
        if not h[1] and st.ev(mk_cmp('eq', h[0], C(0))) is not True: cx.violate(st, 'a list or chunk is never freed', cx._ev)
    def step(self, st, ins, new, cx):
        tab, hs, bound, idx, cov = st.ts
        if idx is not None and new[0] == 'lin' and new[1] == idx and new[2] != 1: cx.violate(st, 'skips lists', Ev('step', ins))
    def branch(self, st, c, v, cx):
        tab, hs, bound, idx, cov = st.ts
        while c[0] == 'not': c, v = c[1], not v
        if bound is not None and c[0] == 'cmp' and bound in (c[2], c[3]):
            if c[1] == 'ult' and c[3] == bound and not v or c[1] == 'eq' and v or c[1] == 'ne' and not v: return st.ts[:4] + (2,)
        return st.ts
    def prune(self, st, live):
        tab, hs, bound, idx, cov = st.ts
        keep = []
        for h in hs:
            if st.ev(mk_cmp('eq', h[0], C(0))) is True: continue
            if h[0] not in live and (h[1] or not any(g[2] == h[0] for g in hs if g is not h)):
                if not h[1]: keep.append((('leak',), 0, None))
                continue
            keep.append(h)
        if idx is not None and idx not in live: idx = None
        if cov == 1 and idx is None: cov = 0
        return (tab, tuple(keep), bound, idx, cov)
    def exit(self, st, kind, ret, cx):
        if kind == 'abort': return
        tab, hs, bound, idx, cov = st.ts
        if kind == 'unwind': cx.violate(st, 'destroying the state throws', cx._ev)
        for h in hs: self.settle(st, st.ts, h, cx)
        if tab is None: cx.violate(st, 'the table of registrations is never freed', cx._ev)
        elif tab != 'freed' and st.ev(mk_cmp('eq', tab, C(0))) is not True: cx.violate(st, 'the table of registrations is never freed', cx._ev)
def prims(ck, cfg, f0, f1):
    W, off = word(ck, f0, cfg)
    def says(n, what, want):
        """the answer of a query, for every word"""
        for k, r, st, evs in paths(f0[n]):
            ld = [e for e in evs if e.kind == 'load' and (e.root, e.off) == (('arg', 0), off)]
            if not ck.obligation('%s: one acquiring look at the state [%s]' % (what, cfg), len(ld) == 1 and all(e.ord in ACQ for e in ld), '%s' % [e.ord for e in ld]): continue
            s = strip(ld[0].res)
            bad = []
            for w in W.words:
                if not W.possible(st, s, w): continue
                a = W.ev(r, s, w)
                if a is None or want(w) is not None and bool(a) != want(w): bad.append('%#x says %s' % (w, a))
            ck.obligation('%s for every state [%s]' % (what, cfg), not bad, ', '.join(bad[:3]))
    says('w_st_requested', 'stop is requested exactly when the flag is set', lambda w: bool(w & W.F))
    says('w_st_possible', 'stop is possible exactly when it was requested or a source exists', lambda w: bool(w & (W.F | W.fields[2])))
    for n, u, what in (('w_st_addt', W.T, 'token'), ('w_st_adds', W.S, 'source')):
        for k, r, st, evs in paths(f0[n]):
            e = [x for x in evs if x.kind in ('rmw', 'cmpxchg', 'store')]
            ck.obligation('adding a %s reference adds exactly one [%s]' % (what, cfg), len(e) == 1 and e[0].kind == 'rmw' and e[0].op == 'add' and e[0].val == C(u) and (e[0].root, e[0].off) == (('arg', 0), off), str([(x.kind, x.op, x.val) for x in e]))
    for n, u, what in (('w_st_relt', W.T, 'token'), ('w_st_rels', W.S, 'source')):
        seen = set()
        for k, r, st, evs in paths(f1[n]):
            if k == 'abort': continue
            e = [x for x in evs if x.kind in ('rmw', 'cmpxchg') or x.kind == 'store' and x.root == ('arg', 0)]
            if not ck.obligation('dropping a %s reference drops exactly one [%s]' % (what, cfg), len(e) == 1 and e[0].kind == 'rmw' and e[0].op == 'add' and e[0].val == C(-u) and (e[0].root, e[0].off) == (('arg', 0), off), str([(x.kind, x.op, x.val) for x in e])): continue
            i = evs.index(e[0]); fr = [x for x in evs if op(x, 'drop') or x.kind == 'call' and x.callee.startswith('_ZdlPv')]
            ck.obligation('dropping a %s reference releases [%s]' % (what, cfg), e[0].ord in REL, str(e[0].ord))
            s = strip(e[0].old); last = [w for w in W.words if W.possible(st, s, w) and w & (W.fields[2] if u == W.S else W.fields[3])]
            is_last = lambda w: w & ~(W.F | W.C) == u
            if fr:
                seen.add('free')
                ck.obligation('the last %s reference acquires before freeing [%s]' % (what, cfg), e[0].ord in ACQ or any(x.kind == 'fence' and x.ord in ACQ for x in evs[i:evs.index(fr[0])]), str(e[0].ord))
                ck.obligation('the state is destroyed and freed once, after the reference was dropped [%s %s]' % (what, cfg), len(fr) == 2 and op(fr[0], 'drop') and strip(fr[0].args[0]) == strip(ARG(0)) and strip(fr[1].args[0]) == strip(ARG(0)) and evs.index(fr[0]) > i, str([x.callee for x in fr]))
                bad = [w for w in last if not is_last(w)]
                ck.obligation('the state is freed only with the last reference [%s %s]' % (what, cfg), not bad, ', '.join('%#x' % w for w in bad[:3]))
            else:
                seen.add('keep')
                bad = [w for w in last if is_last(w)]
                ck.obligation('the last reference frees the state [%s %s]' % (what, cfg), not bad, ', '.join('%#x' % w for w in bad[:3]))
        ck.obligation('dropping a %s reference may free and may keep the state [%s]' % (what, cfg), seen == {'free', 'keep'}, str(seen))
    for k, r, st in probe(f0['w_st_create']).exits:
        if k != 'ret': continue
        m = fields(st, norm_ptr(r)[0])
        tab = [o for o in m if o != off]
        ck.obligation('a new state has one source, no token and nothing registered [%s]' % cfg, m.get(off) == C(W.S) and tab and all(m[o] == C(0) for o in tab), str(m))
    # asking twice: only the first request acts
    class Once(Rule):
        slim = True; unroll = 0
        def init(s, fn, flow): s.n = [0, 0]; return None
        def event(s, st, ev, cx):
            if ev.kind == 'rmw' and (ev.root, ev.off) == (('arg', 0), off) and st.ts is None:
                if ev.ord not in REL or ev.ord not in ACQ: cx.violate(st, 'requesting stop does not acquire and release (ordering %s)' % ev.ord, ev)
                return (strip(ev.old),)
            if ev.kind in ('store', 'rmw', 'cmpxchg') and ev.root[0] != 'al' or ev.kind == 'icall' or op(ev, 'drop') or ev.kind == 'call' and ev.callee.startswith('vf.fn.call'):
                if st.ts is None: cx.violate(st, 'acts before the request is marked', ev)
                else:
                    for w in W.words:
                        if w & W.F and W.possible(st, st.ts[0], w): cx.violate(st, 'a request for stop that was made already acts again', ev); break
                if ev.kind in ('store', 'rmw', 'cmpxchg') and (ev.root, ev.off) == (('arg', 0), off) and not (ev.kind == 'rmw' and ev.op in ('add', 'or') and ev.val == C(W.C)): cx.violate(st, 'changes the state after stop was requested', ev)
            return st.ts
        def exit(s, st, kind, ret, cx):
            if kind == 'abort': return
            if st.ts is None: cx.violate(st, 'does not mark that stop was requested', cx._ev); return
            for w in W.words:
                if W.possible(st, st.ts[0], w): s.n[1 if w & W.F else 0] += 1
    o = Once(); ck.flow(f1['w_st_request'], o, cfg)
    if not ck.viol: ck.count('first and repeated requests [%s]' % cfg, min(o.n), 1)
    return off
def run(ck):
    own = ['own_stop']
    f0 = ck.ir('m14.cpp', FNP, configs=own)['own_stop']; f1 = ck.ir('m14.cpp', FNP + DTOR, configs=own)['own_stop']; f2 = ck.ir('m14.cpp', FNP + METHODS, configs=own)['own_stop']
    cfg = 'own_stop'
    off = prims(ck, cfg, f0, f1)
    d = Drop(); m = probe(f0['w_st_create']); d.TAB = one([e.off for e in m.of('store') if e.val == C(0) and e.size == 8], 'table of registrations')
    d.NEXT = nexts(ck, f0)
    ck.flow(f0['w_st_drop'], d, cfg)
    fl = d
    if not ck.viol: ck.count('lists and chunks freed', d.n['chunk'], 2); ck.count('tables freed', d.n['table'], 1)
    T, Sx = 'tok', 'src'
    J = [('w_tok_def', {}, {0: T}, {0: 'null'}), ('w_src_def', {}, {0: Sx}, {0: 'new'}),
         ('w_tok_copy', {1: T}, {0: T, 1: T}, {0: 1, 1: 1}), ('w_src_copy', {1: Sx}, {0: Sx, 1: Sx}, {0: 1, 1: 1}),
         ('w_tok_move', {1: T}, {0: T, 1: T}, {0: 1}), ('w_src_move', {1: Sx}, {0: Sx, 1: Sx}, {0: 1}),
         ('w_tok_drop', {0: T}, {}, None), ('w_src_drop', {0: Sx}, {}, None),
         ('w_tok_cassign', {0: T, 1: T}, {0: T, 1: T}, {0: 1, 1: 1}), ('w_src_cassign', {0: Sx, 1: Sx}, {0: Sx, 1: Sx}, {0: 1, 1: 1}),
         ('w_tok_massign', {0: T, 1: T}, {0: T, 1: T}, {0: 1}), ('w_src_massign', {0: Sx, 1: Sx}, {0: Sx, 1: Sx}, {0: 1}),
         ('w_tok_cself', {0: T}, {0: T}, {0: 0}), ('w_src_cself', {0: Sx}, {0: Sx}, {0: 0}), ('w_tok_mself', {0: T}, {0: T}, {0: 0}), ('w_src_mself', {0: Sx}, {0: Sx}, {0: 0}),
         ('w_tok_swap', {0: T, 1: T}, {0: T, 1: T}, {0: 1, 1: 0}),
         ('w_tok_possible', {0: T}, {0: T}, {0: 0}), ('w_tok_requested', {0: T}, {0: T}, {0: 0}), ('w_tok_throw', {0: T}, {0: T}, {0: 0}),
         ('w_src_possible', {0: Sx}, {0: Sx}, {0: 0}), ('w_src_requested', {0: Sx}, {0: Sx}, {0: 0}), ('w_src_request', {0: Sx}, {0: Sx}, {0: 0}), ('w_src_token', {1: Sx}, {0: T, 1: Sx}, {0: 1, 1: 1}),
         ('w_cb_new', {1: T}, {0: T, 1: T}, None), ('w_cb_drop', {0: T}, {}, None)]
    for n, b, a, want in J:
        r = Bal(b, a); r.want = want
        if n == 'w_cb_new': r.unwind = {1: T}
        if n == 'w_src_def': r.unwind = {}
        ck.flow(f2[n], r, cfg)
        if not ck.viol: ck.count('%s: ends' % n, r.n, 1)
    # queries through tokens and sources say what the state says
    for n, q in (('w_tok_possible', 'possible'), ('w_tok_requested', 'requested'), ('w_src_requested', 'requested'), ('w_src_possible', None)):
        for k, r, st, evs in paths(f2[n]):
            c = [e for e in evs if op(e, q)] if q else []
            e0 = next((strip(e.res) for e in evs if e.kind == 'load' and (e.root, e.off) == (('arg', 0), 0)), None)
            null = st.ev(mk_cmp('eq', e0, C(0))) if e0 is not None else None
            if q is None: ok = e0 is not None and r == mk_cmp('ne', e0, C(0)) or null is not None and st.ev(r) is (not null)
            elif null is True: ok = st.ev(r) is False
            else: ok = len(c) == 1 and strip(c[0].args[0]) == e0 and (r == c[0].res or mk_cmp('ne', r, C(0)) == mk_cmp('ne', c[0].res, C(0)) or st.ev(r) is not None and st.ev(r) == st.ev(c[0].res))
            ck.obligation('%s says what the shared state says, and no without one [%s]' % (n[2:], cfg), ok, str(r))
    for k, r, st, evs in paths(f2['w_tok_throw']):
        if k == 'abort': continue
        c = [e for e in evs if op(e, 'requested')]; t = any(e.callee == '__cxa_throw' and 'operation_cancelled' in str(e.args[1]) for e in evs if e.kind in ('call', 'unwind'))
        b = st.ev(c[0].res) if c else False
        ck.obligation('throws operation_cancelled exactly when stop was requested [%s]' % cfg, (k == 'unwind') == t and b is t, '%s %s' % (k, b))
    for k, r, st, evs in paths(f2['w_src_request']):
        c = [e for e in evs if op(e, 'request')]; e0 = next((strip(e.res) for e in evs if e.kind == 'load' and (e.root, e.off) == (('arg', 0), 0)), None)
        ck.obligation('requesting stop of a source reaches the shared state [%s]' % cfg, e0 is not None and (st.ev(mk_cmp('eq', e0, C(0))) is True and not c or len(c) == 1 and strip(c[0].args[0]) == e0), '')
    ck.assumptions = ['fewer than 2^24 sources and 2^24 tokens and callbacks share one state at a time', 'the standard library\'s own stop tokens, used in the other configuration, are correct', 'each object is used by one thread at a time, as documented; different objects sharing a state may be used by any threads']
    ck.finish('the meaning of the atomic word derived from the primitives (two flags, two counts) and every test of it decided for all words by classes 0, 1, more; reference balance over every special member and query of stop_token, stop_source and stop_callback (self assignment separately), typestate with loop coverage over the destructor of the shared state; configuration with the library\'s own stop tokens',
              'adding and dropping change one count by one; the drop that leaves no reference frees, no other does, with acquire and release; references added minus dropped equal what the objects hold after minus before, on every path; nothing is used after the last reference known to be held was dropped; queries answer exactly from the word; only the first request acts; the destructor frees the table, every list and every chunk once')
def nexts(ck, f):
    """offsets of the link to the next chunk: in a chunk and, through the first chunk, in a list"""
    e = [e for e in probe(f['w_st_drop'], slim=True, unroll=0).of('load') if e.ord is not None and e.size == 8 and e.root[0] in ('s', 'p') and e.root != ('arg', 0)]
    return sorted({x.off for x in e})
if __name__ == '__main__': main(run, 'M14')
