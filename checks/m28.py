from body import *
V = r'std::vector<std::source_location, std::allocator<std::source_location> ?>::'
KEEP = [r'rename vf.push	^(void )?(std::source_location& )?' + V + r'(push_back|emplace_back)', r'keep	^' + V + r'(vector|~vector|operator=)']
TR = [r'rename vf.tr	^macoro::trace::trace\(std::source_location']
push = lambda ev: prim(ev, 'vf.push')
def prim(ev, n): return bool(re.match(re.escape(n) + r'(\.\d+)?$', ev.callee or ''))
class L: pass
def layout(ck, f, cfg):
    o = L(); p = probe(f['w_set'])
    o.par = one({e.off for e in p.of('store') if e.root == ('arg', 0) and e.val == ARG(1)}, 'link of a traced object'); o.loc = one({e.off for e in p.of('store') if e.root == ('arg', 0) and e.val == ARG(2)}, 'place of a traced object')
    got = [fields(st, ('arg', 0)) for k, r, st in p.exits if k == 'ret']
    ck.obligation('linking sets both the link and the place [%s]' % cfg, got and all(g.get(o.par) == ARG(1) and g.get(o.loc) == ARG(2) for g in got), str(got)[:200])
    return o
class Linked(Rule):
    """before the awaited operation goes on, it is linked to the awaiting coroutine and to the place of the await"""
    caught = True
    def __init__(self, o, mine, base, exp, expload, expcall, own=None):
        self.o, self.mine, self.base, self.exp, self.expload, self.expcall, self.own = o, mine, base, exp, expload, expcall, own; self.n = 0
    def pure_call(self, dem, cal): return cal.startswith('vf.') and not cal.startswith('vf.resume')
    def init(self, fn, flow): return (frozenset(), None, None, None, False, None)
    def event(self, st, ev, cx):
        objs, par, loc, got, gone, up = st.ts
        if gone: return st.ts
        if ev.kind == 'load':
            if ev.root == ('arg', 0) and ev.res is not None: objs = objs | {strip(ev.res)}
            if self.expload and (ev.root, ev.off) == self.expload: got = strip(ev.res)
        elif ev.kind == 'call' and self.expcall and ev.dem == self.expcall[0] and ev.args[0] == self.expcall[1]: got = strip(ev.res)
        elif ev.kind == 'store':
            r = ev.root; x = r[1] if self.mine == 'promise' and r[0] == 'promise' else r if self.mine == 'object' else None
            if x is not None and strip(x) in objs:
                if ev.off == self.base + self.o.par: par = (strip(ev.val),)
                if ev.off == self.base + self.o.loc: loc = strip(ev.val)
            if self.own is not None and r[0] == 'promise' and ev.off == self.own: up = norm_ptr(ev.val)
        elif ev.kind == 'call' and is_resume(ev):
            self.check(st, (objs, par, loc, got, gone, up), cx, ev)
            return (objs, par, loc, got, True, up)
        return (objs, par, loc, got, gone, up)
    def check(self, st, ts, cx, ev):
        objs, par, loc, got, gone, up = ts; self.n += 1
        exp = got if self.expload or self.expcall else self.exp
        if par is None: cx.violate(st, 'goes on without a link to the coroutine that awaits it', ev)
        elif exp is None or par[0] != strip(exp): cx.violate(st, 'is linked to something other than the coroutine that awaits it', ev)
        if loc != ARG(2): cx.violate(st, 'does not keep the place where it is awaited', ev)
        if self.own is not None and (up is None or up[1] != 0 or up[0] not in objs): cx.violate(st, 'the operation is started without a link to the awaitable', ev)
    def exit(self, st, kind, ret, cx):
        if kind == 'ret' and not st.ts[4]: self.check(st, st.ts, cx, cx._ev)
class Walk(Rule):
    """own place first, then whoever awaits, if anybody"""
    def __init__(self, o): self.o = o; self.n = 0
    def init(self, fn, flow): return (0, None)
    def event(self, st, ev, cx):
        k, par = st.ts
        if ev.kind == 'load' and ev.root == ('arg', 0) and ev.off == self.o.par: return (k, strip(ev.res))
        if ev.kind == 'call' and push(ev):
            if k: cx.violate(st, 'lists a place twice or after the outer ones', ev)
            if ev.args[0] != ARG(1): cx.violate(st, 'lists the place elsewhere', ev)
            a = norm_ptr(ev.args[1])
            if a != (('arg', 0), self.o.loc): 
                c = st.mem.get(a)
                if not c or strip(c[1])[:2] != ('s', 'ld'): cx.violate(st, 'lists a place other than its own', ev)
            return (1, par)
        if ev.kind in ('icall', 'call') and ev.args and len(ev.args) >= 2 and ev.args[1] == ARG(1):
            if k != 1: cx.violate(st, 'asks whoever awaits before listing its own place, or twice', ev)
            if par is None or strip(ev.args[0]) != par: cx.violate(st, 'follows something other than its link', ev)
            elif st.ev(mk_cmp('eq', par, C(0))) is not False: cx.violate(st, 'follows a link that may be empty', ev)
            return (2, par)
        return st.ts
    def exit(self, st, kind, ret, cx):
        if kind != 'ret': return
        k, par = st.ts; self.n += 1
        if k == 0: cx.violate(st, 'does not list its place', cx._ev)
        if k == 1 and (par is None or st.ev(mk_cmp('eq', par, C(0))) is not True): cx.violate(st, 'stops although somebody awaits', cx._ev)
class Taken(Rule):
    """trace(place, taker): the place first, then what the taker lists"""
    def pure_call(self, dem, cal): return bool(re.match(V + r'(~?vector)\(', dem or ''))
    def init(self, fn, flow): self.n = 0; return 0
    def event(self, st, ev, cx):
        k = st.ts
        if ev.kind == 'call' and push(ev):
            if k: cx.violate(st, 'lists the place of the trace too late', ev)
            if norm_ptr(ev.args[0])[0] != ('arg', 0): cx.violate(st, 'lists the place elsewhere', ev)
            a = norm_ptr(ev.args[1]); c = st.mem.get(a)
            if not c or strip(c[1]) != ARG(1): cx.violate(st, 'lists something other than the place of the trace', ev)
            return 1
        if ev.kind == 'icall' and strip(ev.args[0]) == ARG(2):
            if k != 1: cx.violate(st, 'asks the taker before listing the place of the trace, or twice', ev)
            if len(ev.args) < 2 or norm_ptr(ev.args[1])[0] != ('arg', 0): cx.violate(st, 'lists the stack elsewhere', ev)
            return 2
        return k
    def exit(self, st, kind, ret, cx):
        if kind != 'ret': return
        self.n += 1
        if st.ts != 2: cx.violate(st, 'leaves out the place or the stack', cx._ev)
class Get(Rule):
    """co_await get_trace: the trace is taken for this very coroutine and handed on"""
    def __init__(self, o): self.o = o; self.n = 0; self.base = set()
    def init(self, fn, flow): return (None, None, False)
    def pure_call(self, dem, cal): return False
    def event(self, st, ev, cx):
        w, at, done = st.ts
        if ev.kind == 'load' and ev.root == ('arg', 2): w = strip(ev.res)
        if ev.kind == 'call' and prim(ev, 'vf.tr'):
            if at: cx.violate(st, 'takes the trace twice', ev)
            if w is None or strip(ev.args[1]) != w: cx.violate(st, 'takes the trace for another place', ev)
            a = norm_ptr(ev.args[2])
            if a[0] != ('arg', 1): cx.violate(st, 'takes the trace of something other than the awaiting coroutine', ev)
            else: self.base.add(a[1])
            at = norm_ptr(ev.args[0]); done = at[0] == ('arg', 0)
        if ev.kind == 'call' and re.match(V + r'vector\(std::vector<.*&', ev.dem or '') and norm_ptr(ev.args[0])[0] == ('arg', 0) and norm_ptr(ev.args[1]) == at: done = True
        if ev.kind == 'load' and at and ev.root == at[0] and ev.off == at[1]: self.first = strip(ev.res)
        if ev.kind == 'store' and ev.root == ('arg', 0) and ev.off == 0 and at and strip(ev.val) == getattr(self, 'first', None): done = True
        return (w, at, done)
    def exit(self, st, kind, ret, cx):
        if kind != 'ret': return
        self.n += 1
        if not st.ts[2]: cx.violate(st, 'the trace is not handed on', cx._ev)
class Handed(Rule):
    def init(self, fn, flow): self.n = 0; return False
    def event(self, st, ev, cx):
        if ev.kind == 'call' and re.match(V + r'vector\(std::vector<.*&', ev.dem or '') and norm_ptr(ev.args[0]) == (('arg', 0), 0) and norm_ptr(ev.args[1])[0] == ('arg', 1): return True
        if ev.kind == 'store' and ev.root == ('arg', 0):
            if strip(ev.val)[:2] != ('s', 'ld'): cx.violate(st, 'the trace is changed before it is handed on', ev)
            return True
        return st.ts
    def exit(self, st, kind, ret, cx):
        if kind != 'ret': return
        self.n += 1
        if not st.ts: cx.violate(st, 'the trace is not handed on', cx._ev)
class Begun(Rule):
    """a coroutine of the library links itself when it is made: before its body goes on"""
    caught = True
    def __init__(self, o, base, par, loc): self.o, self.base, self.par, self.loc = o, base, par, loc; self.n = 0
    def pure_call(self, dem, cal): return cal.startswith('vf.') and not cal.startswith('vf.resume')
    def init(self, fn, flow): return (None, None, None, ())
    def event(self, st, ev, cx):
        pr, par, loc, lds = st.ts
        if ev.kind == 'call' and ev.callee == 'llvm.coro.id': pr = norm_ptr(ev.args[1])[0]
        if ev.kind == 'store' and pr is not None and ev.root == pr:
            if ev.off == self.base + self.o.par: par = strip(ev.val)
            if ev.off == self.base + self.o.loc: loc = strip(ev.val)
        m = AWAIT.match(ev.dem or '')
        if ev.kind in ('call', 'unwind') and (m and m.group(1).startswith('Aw') or ev.callee == 'llvm.coro.suspend') or ev.kind in ('rmw', 'cas') and ev.root == ('arg', 1):
            self.n += 1
            if par != self.par: cx.violate(st, 'begins without a link to where it belongs', ev)
            if loc != self.loc: cx.violate(st, 'begins without the place where it was started', ev)
            return DEAD
        return (pr, par, loc, lds)
class Place(Rule):
    """the given place is passed on to the coroutine behind it"""
    def __init__(self, coros, loc, obj=None): self.coros, self.loc, self.obj = coros, loc, obj
    def init(self, fn, flow): self.n = 0; return ()
    def event(self, st, ev, cx):
        if ev.kind == 'call' and ev.callee in self.coros:
            self.n += 1
            if ARG(self.loc) not in ev.args: cx.violate(st, 'passes on another place than the given one', ev)
        return st.ts
def run(ck):
    irs = ck.ir('m28.cpp', HANDLE_PRIMS + KEEP + TR, entries=['^w_'])
    raw = ck.ir('m28.cpp', HANDLE_PRIMS + KEEP, entries=['^w_trace$'])
    cor = ck.ir('m28.cpp', HANDLE_PRIMS + KEEP, entries=['^w_(add|addr|block)$', '^coro:.*(add_value|add_ref|make_blocking)<', '^w_up_'])
    for cfg, f in irs.items():
        o = layout(ck, f, cfg)
        # taking a trace
        bases = {}
        for n in ('w_get_i', 'w_get_v', 'w_get_r', 'w_get_e'):
            r = Get(o); ck.flow(f[n], r, cfg); bases[n] = one(r.base, 'traced part of a promise') if not ck.viol else 0
            if not ck.viol: ck.count('%s [%s]' % (n, cfg), r.n, 1)
        r = Taken(); ck.flow(raw[cfg]['w_trace'], r, cfg)
        if not ck.viol: ck.count('w_trace [%s]' % cfg, r.n, 1)
        r = Handed(); ck.flow(f['w_got'], r, cfg)
        ck.obligation('a trace is there at once [%s]' % cfg, all(r == C(1) or st.ev(r) is True for k, r, st in probe(f['w_got_ready']).exits if k == 'ret'), '')
        ck.obligation('a trace is for the place it is asked at [%s]' % cfg, all(fields(st, ('arg', 0)).get(0) == ARG(1) for k, r, st in probe(f['w_where']).exits if k == 'ret'), '')
        for n in ('w_walk', 'w_walkb', 'w_walks', 'w_walkw'):
            r = Walk(o); ck.flow(f[n], r, cfg)
            if not ck.viol: ck.count('%s [%s]' % (n, cfg), r.n, 2)
        # links start empty
        for n, b in (('w_new_t', 'w_get_i'), ('w_new_e', 'w_get_e')):
            got = [fields(st, ('arg', 0)) for k, r, st in probe(f[n]).exits if k == 'ret']
            ck.obligation('%s: no link before anybody awaits [%s]' % (n, cfg), got and all(g.get(bases[b] + o.par) == C(0) for g in got), str(got)[:200])
        # awaiting links
        wa = up(f['w_up_wa'], 0)
        po = up(f['w_own_scope'], 0)
        ow = one({e.off for e in probe(f['w_own_when']).of('load') if e.root == ('arg', 0)}, 'awaitable of an operation')
        k = 0
        for n in f:
            m = re.match(r'w_susp_(lt|rt|lv|lr|la|ra|sa)_(\w+)_([sm])$', n)
            if not m: continue
            a, P, h = m.groups(); exp = C(0); ld = call = None
            if P not in ('PN', 'void'):
                q = probe(f['w_link_%s_%s' % (P, h)]); exp = one({r for kk, r, st in q.exits if kk == 'ret'}, 'link')
                for e in q.of('load'):
                    if strip(e.res) == strip(exp): ld = (e.root, e.off)
                for e in q.of('call'):
                    if e.res is not None and strip(e.res) == strip(exp) and not e.callee.startswith('vf.'): call = (e.dem, e.args[0])
            mine, base, own = ('object', wa, ow) if a in ('la', 'ra') else ('promise', po, None) if a == 'sa' else ('promise', bases[{'lv': 'w_get_v', 'lr': 'w_get_r'}.get(a, 'w_get_i')], None)
            r = Linked(o, mine, base, exp, ld, call, own); ck.flow(f[n], r, cfg); k += 1
            if not ck.viol: ck.count('%s [%s]' % (n, cfg), r.n, 1)
        ck.count('kinds of awaiting coroutine and awaited operation [%s]' % cfg, k, 110)
        # coroutines of the library
        g = cor[cfg]; cs = {n: x for n, x in g.items() if not n.startswith('w_')}
        ck.count('coroutines that link themselves [%s]' % cfg, len(cs), 3)
        for n, x in cs.items():
            if 'make_blocking' in x.dem: r = Begun(o, 0, C(0), ARG(2))
            else: r = Begun(o, up(g['w_up_ps'], 0), ('p', ('arg', 1), up(g['w_up_scope'], 0)), ARG(3))
            ck.flow(x, r, cfg)
            if not ck.viol: ck.count('%s [%s]' % (n[-40:], cfg), r.n, 1)
        for n, i in (('w_add', 3), ('w_addr', 3), ('w_block', 1)):
            r = Place(cs, i); ck.flow(g[n], r, cfg)
            if not ck.viol: ck.count('%s [%s]' % (n, cfg), r.n, 1)
    ck.assumptions = ['std::vector and std::source_location do what the standard says', 'the compiler gives the place of the co_await for a defaulted source_location']
    ck.finish('typestate over every awaiter that links, for each kind of awaiting promise (that is traced, has a trace, points to one, computes one, has none) and both kinds of handle, and over taking and walking a trace',
              'before the awaited side goes on, its link is what the awaiting promise is traced by (or none) and its place the place of the await; a trace lists the place, then each own place before following the link, which is followed iff there is one')
def up(fn, i):
    r = one({norm_ptr(r) for k, r, st in probe(fn).exits if k == 'ret'}, fn.name)
    if r[0] != ('arg', i): raise Missing(fn.name)
    return r[1]
if __name__ == '__main__': main(run, 'M28')
