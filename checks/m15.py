from stopst import *
import m22
D = r'^macoro::detail::stop_callback_'
ALLOC = ['rename vf.al.list	' + D + r'list::allocate\(\)$', 'rename vf.al.chunk	' + D + r'list_chunk::allocate\(unsigned int\)$', 'rename vf.al.tab	' + D + r'state::allocate\(\)$']
ADD = ['rename vf.ss.add	' + D + r'state::add_registration\(.*\)$']
def prim(ev, n): return (ev.callee or '') == n or (ev.callee or '').startswith(n + '.')
def isfree(ev): return ev.kind == 'call' and (ev.callee == 'free' or ev.callee.startswith('_ZdlPv'))
def alloc(ev): return ev.kind == 'call' and (prim(ev, 'vf.al.list') or prim(ev, 'vf.al.chunk') or prim(ev, 'vf.al.tab') or ev.callee == 'malloc' or ev.callee.startswith('_Znwm'))
def D2(d): return tuple(sorted(d.items()))
def un(t):
    while t[0] in ('ze', 'se', 'zx'): t = t[2] if t[0] != 'zx' else t[1]
    return t
def slot_of(p, scale=8):
    """(base root, offset of element 0, index term) of an element of an array behind a pointer"""
    r, o = norm_ptr(p)
    if r[0] == 'gep':
        if len(r[3]) != 1 or r[3][0][1] != scale: return None
        return r[1], o + r[2], un(r[3][0][0])
    return r, o, None                                      # a constant index: the caller knows where element 0 is
def offset(ev): return slot_of(ev.ptr)[1]
def index(p, base, off0):
    s = slot_of(p)
    if s is None: return None
    r, o, i = s
    if r != base: return None
    if i is None: return C((o - off0) // 8) if o >= off0 and (o - off0) % 8 == 0 else None
    k = (o - off0) // 8
    return None if (o - off0) % 8 else lin(i, k, 32) if k else i
def phi_of(cx, ins):
    """the loop-carried value an address is indexed by"""
    a = ins['a'][1] if ins['op'] == 'store' else ins['a'][0]
    d = cx.fn.defs.get(a.get('n')) if a.get('k') == 'v' else None
    if d is None or d['op'] != 'getelementptr' or len(d.get('var') or ()) != 1: return None
    a = d['var'][0][0]
    while a.get('k') == 'v':
        d = cx.fn.defs.get(a['n'])
        if d is None: return None
        if d['op'] == 'phi': return d['id']
        if d['op'] not in ('zext', 'sext', 'trunc', 'freeze'): return None
        a = d['a'][0]
def after(cx, ins, i):
    """the index expected after i; a constant is kept with the loop-carried value it is an instance of"""
    return lin(i, 1, 32) if i[0] != 'c' else ('k', i[1] + 1, phi_of(cx, ins))
def plain(t): return C(t[1]) if t is not None and t[0] == 'k' else t
def same(st, i, t): return i == plain(t) or st.ev(mk_cmp('eq', i, plain(t))) is True or st.ev(mk_cmp('eq', i, plain(t), 32)) is True
class Indexed(Rule):
    slim = True; unroll = 0; gens = 4
    IX = ()
    def edge(self, st, src, dst, phis, cx):
        if (src, dst) not in cx.fn.back: return st.ts
        d = dict(st.ts)
        for k in self.IX:
            t = d[k]
            if t is not None and t[0] == 'k' and phis.get(t[2]) == C(t[1]): d[k] = ('adv', t[2])
        return D2(d)
def atend(st, nxt, bound):
    """is index nxt known to be at the bound"""
    return st.ev(mk_cmp('ult', nxt, bound, 32)) is False or st.ev(mk_cmp('eq', nxt, bound, 32)) is True or st.ev(mk_cmp('ult', nxt, bound)) is False or st.ev(mk_cmp('eq', nxt, bound)) is True
class Shape:
    """where things are, from what the functions that make and use them do"""
    def __init__(self, ck, f, cfg):
        self.W, self.off = word(ck, f, cfg)
        o = ck.obligation
        m = probe(f['w_st_create']); self.TAB = one([e.off for e in m.of('store') if e.val == C(0) and e.size == 8 and e.off != self.off], 'table of registrations')
        mk = probe(f['w_chunk'], slim=True, unroll=0)
        self.CNT = one([e.off for e in mk.of('store') if e.val == ('argv', 0) and e.size == 4], 'number of entries of a chunk')
        self.EO = one([slot_of(e.ptr)[1] for e in mk.of('store') if e.root[0] == 'gep'], 'entries of a chunk')
        ml = probe(f['w_list'], slim=True, unroll=0)
        h = [(e.off, norm_ptr(e.val)[1]) for e in ml.of('store') if e.val[0] == 'p' and norm_ptr(e.val)[0] == e.root]
        self.TAIL, self.HC = one(h, 'cached last chunk of a list')
        mt = probe(f['w_lists'], slim=True, unroll=0)
        self.LO = one([slot_of(e.ptr)[1] for e in mt.of('store') if e.root[0] == 'gep'], 'lists of a table')
        self.LCNT = one([e.off for e in mt.of('store') if e.size == 4 and e.root[0] != 'gep' and e.root[0] != 'al'], 'number of lists')
        r = probe(f['w_st_deregister'])
        ld = [e for e in r.of('load') if e.root == ('arg', 1)]
        used = {strip(e.root) for k in ('load', 'store', 'rmw', 'cas') for e in r.of(k)}; used |= {strip(norm_ptr(e.ptr)[0][1]) for k in ('load', 'store', 'rmw', 'cas') for e in r.of(k) if norm_ptr(e.ptr)[0][0] == 'gep'}
        self.RC = one([e.off for e in ld if e.size == 8 and strip(e.res) in used], 'chunk of a registration'); self.RI = one([e.off for e in ld if e.size == 4], 'index of a registration')
        tid = [e for e in r.of('load') if e.size == 8 and e.ord is None and e.root != ('arg', 1)]
        self.TID = one([e.off for e in tid], 'notifying thread')
        d = probe(f['w_st_drop'], slim=True, unroll=0); tabs = {strip(e.res) for e in d.of('load') if (e.root, e.off) == (('arg', 0), self.TAB)}
        at = {e.off for e in d.of('load') if e.ord is not None and e.size == 8 and e.root[0] != 'gep' and e.root != ('arg', 0) and e.root not in tabs}
        nul = sorted({e.off for e in mk.of('store') if e.val == C(0) and e.size == 8 and e.root[0] != 'gep' and e.off < self.EO})
        self.NX = one([o for o in nul if o in at and o + self.HC in at], 'next chunk')
        self.PREV = one([o for o in nul if o != self.NX], 'previous chunk')
class Made(Indexed):
    """a new chunk, list or table: every slot empty, the count says how many, and the memory is large enough"""
    IX = ('nxt',)
    def __init__(self, S, kind): self.S, self.k = S, kind
    def init(self, fn, flow): self.n = 0; return D2(dict(al=None, got=False, size=None, cnt=None, nxt=C(0), full=False))
    def event(self, st, ev, cx):
        d = dict(st.ts); S = self.S; base = {'chunk': 0, 'list': S.HC, 'tab': 0}[self.k]; e0 = {'chunk': S.EO, 'list': S.HC + S.EO, 'tab': S.LO}[self.k]; co = {'chunk': S.CNT, 'list': S.HC + S.CNT, 'tab': S.LCNT}[self.k]
        if alloc(ev): d['al'] = strip(ev.res); d['got'] = ev.callee != 'malloc'; d['size'] = ('k', ev.args[0][1]) if ev.args[0][0] == 'c' else ev.args[0]; return D2(d)
        if d['al'] is not None and ev.kind in ('store', 'load', 'rmw', 'cas') and not d['got'] and (ev.root == d['al'] or ev.root[0] == 'gep' and strip(ev.root[1]) == d['al']):
            if st.ev(mk_cmp('eq', d['al'], C(0))) is not False: cx.violate(st, 'uses memory it may not have got', ev)
        if ev.kind == 'store' and d['al'] is not None:
            r, o = ev.root, ev.off
            if r == d['al'] and o == co and ev.size == 4: d['cnt'] = ('k', strip(ev.val)[1]) if strip(ev.val)[0] == 'c' else strip(ev.val); d['full'] = False; return D2(d)
            i = index(ev.ptr, d['al'], e0) if ev.size == 8 else None
            if r == d['al'] and o < e0: return st.ts
            if i is not None and ev.val == C(0) and same(st, i, d['nxt']): d['nxt'] = after(cx, ev.ins, i); return D2(d)
        return st.ts
    def branch(self, st, c, v, cx):
        d = dict(st.ts)
        b = plain(d['cnt'])
        if b is not None and atend(st, plain(d['nxt']), b): d['full'] = True; return D2(d)
        return st.ts
    def exit(self, st, kind, ret, cx):
        if kind != 'ret': return
        d = dict(st.ts); S = self.S; self.n += 1
        V = lambda m: cx.violate(st, m, cx._ev)
        if d['al'] is None or strip(ret) != d['al']: V('does not return what it allocated'); return
        if not d['got'] and st.ev(mk_cmp('eq', d['al'], C(0))) is not False: V('may give no memory without an exception')
        if d['cnt'] is None: V('does not say how many slots there are'); return
        if not d['full'] and not (d['cnt'][0] == 'k' and plain(d['nxt']) == plain(d['cnt'])): V('leaves slots that are not empty')
        m = fields(st, d['al'])
        if self.k == 'tab':
            need = (S.LO, 8)
            if d['cnt'][0] != 'k' and st.ev(mk_cmp('eq', d['cnt'], C(0))) is not False or d['cnt'] == ('k', 0): V('the table may have no list at all: there is nowhere to register')
        else:
            b = S.HC if self.k == 'list' else 0; need = (b + S.EO, 8)
            if m.get(b + S.NX) != C(0): V('a new chunk has a successor')
            if m.get(b + S.PREV) != C(0): V('a new chunk has a predecessor already')
            if d['cnt'][0] == 'k' and d['cnt'][1] & (d['cnt'][1] - 1): V('the number of slots is not a power of two')
        # size >= need + 8 count
        sz = plain(d['size']); n = plain(d['cnt'])
        if n[0] == 'c': ok = sz[0] == 'c' and sz[1] >= need[0] + 8 * n[1]
        else:
            ok = False
            s, k = (strip(sz[1]), sz[2]) if sz[0] == 'lin' else (strip(sz), 0)
            # s = 8 * (zero-extended) (n + j)
            if s[0] == 'op' and s[1] in ('shl', 'mul'):
                m = 8 if s[1] == 'shl' and s[3] == C(3) or C(8) in s[2:] else 0
                x = un(s[2] if s[2][0] != 'c' else s[3])
                j = x[2] if x[0] == 'lin' else 0; x = un(x[1]) if x[0] == 'lin' else x
                j = wrap(j, 32)
                ok = m == 8 and x == n and k + 8 * j >= need[0]
        if not ok: V('allocates less memory than the slots need')
class Notify(Indexed):
    """the requester takes every registration out of its slot, once, and calls it"""
    IX = ('ln', 'en')
    def __init__(self, S): self.S = S
    def init(self, fn, flow):
        self.n = dict(calls=0, ends=0); self.tidoff = set()
        return D2(dict(tab=None, old=None, tid=False, lb=None, ln=C(0), ldone=False, lst=None, ch=None, cdone=True, eb=None, en=None, edone=True, slot=None, seen=None, reg=None, gone=(), fin=0))
    def private_roots(self, st): return ()
    def settle(self, st, d, V):
        """nothing seen or taken is left behind"""
        for k, m in (('reg', 'takes a registration without calling it'), ('seen', 'passes over a registration')):
            if d[k] is not None and st.ev(mk_cmp('eq', d[k], C(0))) is not True: V(m)
            d[k] = None
        d['slot'] = None
    def event(self, st, ev, cx):
        S = self.S; d = dict(st.ts); V = lambda m: cx.violate(st, m, ev)
        if ev.kind == 'rmw' and (ev.root, ev.off) == (('arg', 0), S.off):
            if d['old'] is None: d['old'] = strip(ev.old); return D2(d)
            if ev.op in ('add', 'or') and ev.val == C(S.W.C):
                self.settle(st, d, V)
                if ev.ord not in REL: V('announces the end of the notification without releasing it (ordering %s)' % ev.ord)
                if not d['ldone'] or not d['cdone']: V('announces the end of the notification before every list was gone through')
                if d['fin']: V('announces the end of the notification twice')
                d['fin'] = 1; return D2(d)
        if ev.kind == 'load' and (ev.root, ev.off) == (('arg', 0), S.TAB):
            if d['old'] is None: V('looks for registrations before the request is marked')
            if ev.ord != 'seq_cst': V('the look for the table of registrations does not take part in the total order (ordering %s): a registration is missed' % ev.ord)
            d['tab'] = strip(ev.res); return D2(d)
        t = d['tab']
        if t is None: return st.ts
        if ev.kind == 'store' and ev.root == t and ev.size == 8 and ev.off < S.LO:
            if ev.off != S.TID: V('stores the notifying thread where nobody looks for it'); return st.ts
            v = ev.val
            d['tid'] = v[0] == 's' and v[1] == 'call' or v[0] == 'pc'
            ins = cx.fn.defs.get(v[2]) if v[0] == 's' else None
            if not d['tid'] or ins is None or ins.get('callee') != 'pthread_self': V('does not record which thread notifies')
            return D2(d)
        if ev.kind == 'load' and ev.root == t and ev.size == 4 and ev.off == S.LCNT: d['lb'] = strip(ev.res); return D2(d)
        if ev.kind == 'load' and ev.size == 8 and slot_of(ev.ptr) and slot_of(ev.ptr)[0] == t and offset(ev) >= S.LO:
            self.settle(st, d, V)
            i = index(ev.ptr, t, S.LO)
            if ev.ord != 'seq_cst': V('the look at a list does not take part in the total order (ordering %s): a registration is missed' % ev.ord)
            if not d['cdone']: V('leaves a list before its last chunk')
            if i is None or not same(st, i, d['ln']): V('the lists are not gone through one after the other')
            else: d['ln'] = after(cx, ev.ins, i)
            d.update(lst=strip(ev.res), cdone=False, ch=None, eb=None, en=None, edone=False)
            d['lnull'] = strip(ev.res); return D2(d)
        L = d['lst']
        chs = [x for x in ((L, S.HC) if L is not None and d['ch'] is None else None, d['ch']) if x]
        for r0, o0 in chs:
            if ev.kind == 'load' and ev.root == r0 and ev.off == o0 + S.CNT and ev.size == 4:
                d.update(ch=(r0, o0), eb=strip(ev.res), en=C(0) if d['en'] is None else d['en']); return D2(d)
            if ev.kind in ('load', 'rmw', 'cmpxchg') and ev.size == 8 and slot_of(ev.ptr) and slot_of(ev.ptr)[0] == r0 and offset(ev) >= o0 + S.EO:
                i = index(ev.ptr, r0, o0 + S.EO)
                if d['slot'] != norm_ptr(ev.ptr):
                    self.settle(st, d, V)
                    if d['en'] is None: d['en'] = C(0)
                    if d['ch'] is None: d['ch'] = (r0, o0)
                    if i is None or not same(st, i, d['en']): V('the entries are not gone through one after the other')
                    else: d['en'] = after(cx, ev.ins, i)
                    d['slot'] = norm_ptr(ev.ptr)
                if ev.kind == 'load':
                    if ev.ord != 'seq_cst': V('the look at an entry does not take part in the total order (ordering %s): a registration is missed' % ev.ord)
                    d['seen'] = strip(ev.res); return D2(d)
                if not d['tid']: V('takes a registration before it recorded which thread notifies')
                if ev.val != C(0): V('does not empty the entry')
                if ev.ord not in ACQ or ev.ord not in REL: V('takes a registration without acquire and release (ordering %s)' % ev.ord)
                if ev.kind == 'rmw' and ev.op == 'xchg': d.update(seen=None, reg=strip(ev.old))
                elif ev.kind == 'cmpxchg':
                    if ev.ok: d.update(seen=None, reg=strip(ev.exp))
                    elif ev.ins['weak']: d['seen'] = strip(ev.exp)      # may fail for no reason
                    else: d['seen'] = None                   # somebody else changed the entry
                else: V('does not empty the entry')
                return D2(d)
            if ev.kind == 'store' and slot_of(ev.ptr) and slot_of(ev.ptr)[0] == r0: V('overwrites an entry that somebody else may use'); return st.ts
            if ev.kind == 'load' and ev.root == r0 and ev.off == o0 + S.NX and ev.size == 8:
                self.settle(st, d, V)
                if ev.ord != 'seq_cst': V('the look for the next chunk does not take part in the total order (ordering %s): a registration is missed' % ev.ord)
                if not d['edone']: V('leaves a chunk before its last entry')
                x = strip(ev.res); d.update(lst=None, ch=(x, 0), eb=None, en=None, edone=False); return D2(d)
        if ev.kind in ('call', 'unwind') and prim(ev, 'vf.fn.call'):
            if ev.kind == 'unwind': return st.ts
            r, o = norm_ptr(ev.args[0])
            if d['reg'] is None or r != d['reg']: V('calls a callback that was not taken out of its entry by this thread'); return st.ts
            if st.ev(mk_cmp('eq', r, C(0))) is not False: V('calls a callback that may not be there')
            self.n['calls'] += 1; d['gone'] = tuple(sorted(set(d['gone']) | {r}, key=repr)); d['reg'] = None; return D2(d)
        if ev.kind in ('load', 'store', 'rmw', 'cmpxchg') and ev.root in d['gone']: V('touches a registration after its callback ran')
        return st.ts
    def branch(self, st, c, v, cx):
        d = dict(st.ts)
        if d['lb'] is not None and atend(st, plain(d['ln']), d['lb']): d['ldone'] = True
        if d['en'] is not None and d['eb'] is not None and atend(st, plain(d['en']), d['eb']): d['edone'] = True
        # the end of a list: no list, or no next chunk
        if not d['cdone']:
            x = d['lst'] if d['ch'] is None else d['ch'][0] if d['ch'][1] == 0 and d['lst'] is None else None
            if x is not None and st.ev(mk_cmp('eq', x, C(0))) is True: d.update(cdone=True, lst=None, ch=None, eb=None, en=None, edone=True)
        d.pop('lnull', None)
        return D2(d)
    def prune(self, st, live):
        d = dict(st.ts)
        d['gone'] = tuple(x for x in d['gone'] if x in live)
        return D2(d)
    def exit(self, st, kind, ret, cx):
        if kind == 'abort': return
        d = dict(st.ts); V = lambda m: cx.violate(st, m, cx._ev); W = self.S.W
        if kind == 'unwind': V('lets an exception of a callback out'); return
        if d['old'] is None: V('does not mark that stop was requested'); return
        if not any(W.possible(st, d['old'], w) for w in W.words if not w & W.F): return
        self.n['ends'] += 1
        if d['tab'] is None: V('the first request does not look for registrations'); return
        if st.ev(mk_cmp('eq', d['tab'], C(0))) is True: return
        if not d['fin']: V('the end of the notification is never announced: whoever destroys a callback waits forever')
class Add(Rule):
    """a registration is put into one empty slot and knows which"""
    slim = True; unroll = 0; gens = 4
    REG = ('arg', 1)
    def __init__(self, S): self.S = S
    def local_call(self, dem, cal): return cal.startswith('vf.al.') or cal == 'free' or 'Hash_bytes' in cal or cal.startswith('_ZdlPv')
    def local_size(self, dem): return 0
    def init(self, fn, flow): self.n = dict(entry=0, list=0, chunk=0); return D2(dict(own=(), pub=None, known=(), cnt=(), tab=None, at=None))
    def event(self, st, ev, cx):
        S = self.S; d = dict(st.ts); V = lambda m: cx.violate(st, m, ev)
        known = dict(d['known']); cnt = dict(d['cnt'])
        def done(): d['known'] = tuple(sorted(known.items(), key=repr)); d['cnt'] = tuple(sorted(cnt.items(), key=repr)); return D2(d)
        if alloc(ev):
            k = 'list' if prim(ev, 'vf.al.list') else 'chunk' if prim(ev, 'vf.al.chunk') else None
            if k is None: V('allocates something that is neither a list nor a chunk'); return st.ts
            if d['pub'] is not None: V('allocates although the registration has its slot')
            d['own'] += ((strip(ev.res), k, st.ts and None),); return done()
        if isfree(ev):
            x = strip(ev.args[0])
            if x not in [o[0] for o in d['own']]: V('frees something that others can reach'); return st.ts
            d['own'] = tuple(o for o in d['own'] if o[0] != x); known.pop(x, None); d['dead'] = x; return done()
        r, o = ev.root, ev.off
        if ev.kind in ('load', 'store', 'rmw', 'cmpxchg') and d.get('dead') is not None and (r == d['dead'] or r[0] == 'gep' and r[1] == d['dead']): V('uses a list or chunk that was freed')
        if ev.kind == 'store' and r == self.REG:
            if d['pub'] is not None: V('writes to the registration after others can see it')
            return st.ts
        if ev.kind == 'load' and r == ('arg', 0) and ev.size == 4 and o == S.LCNT: cnt[('arg', 0)] = strip(ev.res); return done()
        if ev.kind == 'load' and ev.size == 8 and slot_of(ev.ptr) and slot_of(ev.ptr)[0] == ('arg', 0) and o >= S.LO:
            if ev.ord not in ACQ: V('looks at a list without acquire (ordering %s)' % ev.ord)
            self.range(st, index(ev.ptr, ('arg', 0), S.LO), cnt.get(('arg', 0)), V, 'list')
            known[strip(ev.res)] = 'list'; return done()
        base = r[1] if r is not None and r[0] == 'gep' else r
        if base is not None and base in known:
            ch = known[base]
            if ev.kind == 'load' and ch == 'list' and r[0] != 'gep' and o == S.TAIL and ev.size == 8:
                if ev.ord not in ACQ: V('looks for the last chunk without acquire (ordering %s)' % ev.ord)
                known[strip(ev.res)] = ('chunk', base); return done()
            if ch != 'list' and r[0] != 'gep':
                if ev.kind == 'load' and ev.size == 8 and o == S.NX:
                    if ev.ord not in ACQ: V('looks for the next chunk without acquire (ordering %s)' % ev.ord)
                    known[strip(ev.res)] = ch; return done()
                if ev.kind == 'load' and ev.size == 8 and o == S.PREV: known[strip(ev.res)] = ch; return done()
                if ev.kind == 'load' and ev.size == 4 and o == S.CNT: cnt[base] = strip(ev.res); return done()
            if ev.kind == 'load' and ev.size == 8 and ch != 'list': d['val'] = strip(ev.res); return done()
            if ev.kind == 'store' and ch == 'list' and r[0] != 'gep' and o == S.TAIL and ev.size == 8:
                x = strip(ev.val)
                if known.get(x) != ('chunk', base) and not (x == d['at'] if d['at'] is not None else False): V('the cached last chunk is not a chunk of the list')
                if ev.ord not in REL: V('passes on a chunk without release (ordering %s)' % ev.ord)
                return st.ts
            if ev.kind == 'store' and ev.size == 8 and (r[0] == 'gep' or o in (S.NX, S.PREV) or o >= S.EO): V('overwrites what other threads use')
            if ev.kind == 'store' and ev.size == 4 and o == S.CNT: V('changes the number of slots')
        if ev.kind in ('cmpxchg', 'rmw'):
            if ev.kind == 'rmw': V('takes a slot without looking whether it is empty'); return st.ts
            if base == ('arg', 0) or base in known:
                if not ev.ok:
                    if base == ('arg', 0):
                        if ev.ford not in ACQ: V('looks at a list without acquire (ordering %s)' % ev.ford)
                        known[strip(ev.old)] = 'list'; return done()
                    if r[0] != 'gep' and o == S.NX and known.get(base) != 'list': known[strip(ev.old)] = known[base]; return done()
                    return st.ts
                if d['pub'] is not None: V('puts the registration into two slots')
                if st.ev(mk_cmp('eq', strip(ev.exp), C(0))) is not True: V('takes something that is in use')
                if ev.ord != 'seq_cst': V('the registration does not take part in the total order (ordering %s): a request misses it' % ev.ord)
                x = strip(ev.val); reg = fields(st, self.REG)
                nr = norm_ptr(ev.val)
                if nr == (self.REG, 0):
                    if known.get(base) in (None, 'list'): V('puts the registration where the notification does not look'); return st.ts
                    i = index(ev.ptr, base, S.EO); self.range(st, i, cnt.get(base), V, 'entry')
                    if reg.get(S.RC) is None or norm_ptr(reg[S.RC]) != (base, 0) and strip(reg[S.RC]) != base: V('the registration does not know its chunk')
                    if reg.get(S.RI) is None or un(reg[S.RI]) != i: V('the registration does not know its entry')
                    d['pub'] = norm_ptr(ev.ptr); self.n['entry'] += 1; d['ret'] = (base, 0, i); return done()
                own = next((w for w in d['own'] if w[0] == x), None)
                if own is None: V('publishes something it did not make'); return st.ts
                hc = S.HC if own[1] == 'list' else 0
                m = fields(st, x)
                if own[1] == 'list':
                    if base != ('arg', 0): V('a list is not published in the table'); return st.ts
                    self.range(st, index(ev.ptr, base, S.LO), cnt.get(('arg', 0)), V, 'list')
                else:
                    if r[0] == 'gep' or o != S.NX or known.get(base) in (None, 'list'): V('a chunk is not published behind another one'); return st.ts
                    if m.get(S.PREV) != base and norm_ptr(m.get(S.PREV, C(0))) != (base, 0): V('a new chunk does not know its predecessor')
                if norm_ptr(m.get(hc + S.EO, C(0))) != (self.REG, 0): V('the registration is not in what was published')
                if reg.get(S.RC) is None or norm_ptr(reg[S.RC]) != norm_ptr(padd(x, hc)): V('the registration does not know its chunk')
                if reg.get(S.RI) != C(0): V('the registration does not know its entry')
                d['own'] = tuple(w for w in d['own'] if w[0] != x); self.n[own[1]] += 1
                d['pub'] = norm_ptr(padd(x, hc + S.EO)); d['at'] = x; d['ret'] = (x, hc, C(0)); return done()
        return st.ts
    def range(self, st, i, n, V, what):
        """is the index below the number of slots"""
        if i is not None and n is not None:
            if i[0] == 'c': ok = i[1] == 0
            elif i[0] == 'op' and i[1] == 'and': ok = any(un(x) in (lin(n, -1, 32), lin(n, 0xffffffff, 32)) for x in i[2:])
            elif i[0] == 'op' and i[1] in ('urem',): ok = un(i[3]) == n
            else: ok = st.ev(mk_cmp('ult', i, n)) is True
            if ok: return
        V('the index of the %s may be out of range' % what)
    def prune(self, st, live):
        d = dict(st.ts)
        d['known'] = tuple(x for x in d['known'] if x[0] in live); d['cnt'] = tuple(x for x in d['cnt'] if x[0] in live or x[0] == ('arg', 0))
        if d.get('val') not in live: d.pop('val', None)
        # how many slots are thought to be free decides nothing here
        near = {x[0] for x in d['known']} | {d.get('val')} | {o[0] for o in d['own']}
        def about(t): return t in near or t[0] == 'cmp' and t[3][0] != 'c' or t[0] == 'cmp' and t[2] in near
        st.rng = {}; st.tr = {}
        for k in ('eq', 'ne'): setattr(st, k, {t: v for t, v in getattr(st, k).items() if about(t)})
        lost = [o for o in d['own'] if o[0] not in live]
        if lost: d['leak'] = True; d['own'] = tuple(o for o in d['own'] if o[0] in live)
        if d.get('dead') is not None and d['dead'] not in live: d.pop('dead')
        if d['at'] is not None and d['at'] not in live: d['at'] = None
        return D2(d)
    def exit(self, st, kind, ret, cx):
        if kind == 'abort': return
        d = dict(st.ts); V = lambda m: cx.violate(st, m, cx._ev)
        if d['own'] or d.get('leak'): V('a list or chunk that nobody can reach is never freed')
        if kind == 'unwind':
            if d['pub'] is not None: V('throws although the registration is in place')
            return
        if d['pub'] is None: V('returns without having registered'); return
        s = norm_ptr(ret)
        if s != d['pub']: V('returns another slot than the one it took')
class Register(Rule):
    """looks for a request before and after, and takes the registration back if it comes too late"""
    slim = True; unroll = 0; gens = 4
    def __init__(self, S): self.S = S
    def local_call(self, dem, cal): return cal.startswith('vf.') or cal == 'free'
    def local_size(self, dem): return 0
    def init(self, fn, flow): self.n = dict(yes=0, no=0, back=0); return D2(dict(look=None, tab=None, own=None, add=None, look2=None, cas=None))
    def event(self, st, ev, cx):
        S = self.S; d = dict(st.ts); V = lambda m: cx.violate(st, m, ev)
        if ev.kind == 'load' and (ev.root, ev.off) == (('arg', 0), S.off):
            if d['add'] is None: d['look'] = (strip(ev.res), ev.ord)
            else: d['look2'] = (strip(ev.res), ev.ord)
            return D2(d)
        if ev.kind == 'load' and (ev.root, ev.off) == (('arg', 0), S.TAB):
            if ev.ord not in ACQ: V('looks for the table without acquire (ordering %s)' % ev.ord)
            d['tab'] = strip(ev.res); return D2(d)
        if alloc(ev): d['own'] = strip(ev.res); return D2(d)
        if isfree(ev):
            if strip(ev.args[0]) != d['own']: V('frees a table that others can reach')
            d['own'] = None; return D2(d)
        if ev.kind == 'cmpxchg' and (ev.root, ev.off) == (('arg', 0), S.TAB):
            if ev.ok:
                if strip(ev.val) != d['own'] or st.ev(mk_cmp('eq', strip(ev.exp), C(0))) is not True: V('replaces the table others may use')
                if ev.ord != 'seq_cst': V('the new table does not take part in the total order (ordering %s): a request misses it' % ev.ord)
                d['tab'] = d['own']; d['own'] = None
            else:
                if ev.ford not in ACQ: V('looks for the table without acquire (ordering %s)' % ev.ford)
                d['tab'] = strip(ev.old)
                if ev.ins['weak']: d['tab'] = ('maybe', d['tab'])
            return D2(d)
        if ev.kind in ('store', 'rmw') and (ev.root, ev.off) == (('arg', 0), S.TAB): V('replaces the table others may use'); return st.ts
        if prim(ev, 'vf.ss.add'):
            if ev.kind == 'unwind': return st.ts
            if d['tab'] is None or strip(ev.args[0]) != d['tab'] or st.ev(mk_cmp('eq', d['tab'], C(0))) is True: V('registers in a table that is not the one the notification looks at')
            if norm_ptr(ev.args[1]) != (('arg', 1), 0): V('registers something else')
            if d['add'] is not None: V('registers twice')
            d['add'] = strip(ev.res); return D2(d)
        if ev.kind in ('cmpxchg', 'rmw', 'store') and d['add'] is not None and ev.root[0] != 'al':
            r = ev.root; a = d['add']
            ok = ev.kind == 'cmpxchg' and r[0] == 'gep' and r[1] == ('xv', a, (0,)) and offset(ev) == S.EO and len(r[3]) == 1 and r[3][0][1] == 8 and un(r[3][0][0]) == ('xv', a, (1,))
            if not ok: V('takes back something else than the registration'); return st.ts
            if norm_ptr(ev.exp) != (('arg', 1), 0) or ev.val != C(0): V('takes a registration out of its slot that is not its own')
            if ev.ins['weak']: V('taking the registration back may fail for no reason: the callback never runs')
            d['cas'] = ev.ok; return D2(d)
        return st.ts
    def says(self, st, look):
        W = self.S.W; return {bool(w & W.F) for w in W.words if W.possible(st, look[0], w)}
    def exit(self, st, kind, ret, cx):
        if kind == 'abort': return
        d = dict(st.ts); V = lambda m: cx.violate(st, m, cx._ev)
        if d['own'] is not None: V('a table that nobody can reach is never freed')
        if kind == 'unwind':
            if d['add'] is not None: V('throws although the registration is in place')
            return
        r = st.ev(ret)
        if d['add'] is None:
            if r is not False: V('says it registered but did not'); return
            if d['look'] is None or self.says(st, d['look']) != {True}: V('gives up registering although stop was not requested: the callback runs without a request'); return
            if d['look'][1] not in ACQ: V('runs the callback without acquiring what the requester did before (ordering %s)' % d['look'][1])
            self.n['no'] += 1; return
        if d['look2'] is None: V('does not look whether stop was requested while registering: the request may have missed the registration'); return
        if d['look2'][1] != 'seq_cst': V('the look after registering does not take part in the total order (ordering %s): the request may have missed the registration' % d['look2'][1])
        s = self.says(st, d['look2'])
        if s == {False}:
            if d['cas'] is not None: V('takes the registration back although stop was not requested')
            if r is not True: V('says it did not register: the callback runs without a request')
            self.n['yes'] += 1; return
        if d['cas'] is None:
            V('the request may have missed the registration and nobody runs the callback'); return
        if s != {True}: V('takes the registration back although stop may not be requested')
        self.n['back'] += 1
        if r is d['cas']: V('the callback never runs: says it registered after it took the registration back' if d['cas'] else 'the callback runs twice: the notification took the registration')
class Dereg(Rule):
    """empties the slot or waits for the notification that did"""
    slim = True; unroll = 0; gens = 4
    def __init__(self, S): self.S = S
    def local_call(self, dem, cal): return cal in ('sched_yield', 'pthread_self', 'nanosleep')
    def init(self, fn, flow): self.n = dict(out=0, same=0, wait=0); return D2(dict(c=None, i=None, cas=None, self=None, tid=None, done=False, look=None, spun=False))
    def event(self, st, ev, cx):
        S = self.S; d = dict(st.ts); V = lambda m: cx.violate(st, m, ev)
        if ev.kind == 'load' and (ev.root, ev.off) == (('arg', 1), S.RC): d['c'] = strip(ev.res); return D2(d)
        if ev.kind == 'load' and (ev.root, ev.off) == (('arg', 1), S.RI): d['i'] = strip(ev.res); return D2(d)
        if ev.kind in ('cmpxchg', 'rmw') and ev.size == 8 and ev.root != ('arg', 0) or ev.kind == 'store' and ev.root[0] == 'gep':
            r = ev.root
            ok = ev.kind == 'cmpxchg' and r[0] == 'gep' and r[1] == d['c'] and offset(ev) == S.EO and len(r[3]) == 1 and un(r[3][0][0]) == d['i'] and norm_ptr(ev.exp) == (('arg', 1), 0) and ev.val == C(0)
            if not ok: V('does not take exactly this registration out of its slot'); return st.ts
            if ev.ins['weak']: V('taking the registration out may fail for no reason: waits for a notification that does not come')
            if not ev.ok and ev.ford not in ACQ: V('does not acquire what the notifying thread wrote (ordering %s)' % ev.ford)
            d['cas'] = ev.ok; return D2(d)
        if ev.kind == 'call' and ev.callee == 'pthread_self': d['self'] = strip(ev.res); return D2(d)
        if ev.kind == 'load' and ev.size == 8 and ev.ord is None and ev.off == S.TID and ev.root not in (('arg', 0), ('arg', 1)) and d['cas'] is False: d['tid'] = strip(ev.res); return D2(d)
        if ev.kind == 'load' and (ev.root, ev.off) == (('arg', 0), S.off):
            if d['cas'] is False and self.mine(st, d) is not False: V('may wait inside the callback that the thread itself runs: deadlock')
            d['look'] = (strip(ev.res), ev.ord); return D2(d)
        if ev.kind == 'store' and ev.root == ('arg', 1): return st.ts
        if ev.kind in ('store',) and ev.root[0] != 'al' and ev.size != 4: V('writes to what others use')
        return st.ts
    def mine(self, st, d):
        if d['self'] is None or d['tid'] is None: return None
        return st.ev(mk_cmp('eq', d['self'], d['tid']))
    def exit(self, st, kind, ret, cx):
        if kind == 'abort': return
        d = dict(st.ts); V = lambda m: cx.violate(st, m, cx._ev)
        if kind == 'unwind': V('taking a registration out throws'); return
        if d['cas'] is None: V('leaves the registration in place'); return
        if d['cas']: self.n['out'] += 1; return
        if self.mine(st, d) is True: self.n['same'] += 1; return
        W = self.S.W
        ok = d['look'] is not None and not any(W.possible(st, d['look'][0], w) for w in W.words if not w & W.C)
        if not ok: V('returns while the callback may still run on another thread'); return
        if d['look'][1] not in ACQ: V('returns without acquiring what the callback did (ordering %s)' % d['look'][1])
        self.n['wait'] += 1
def callback(ck, f, cfg):
    seen = set()
    for k, r, st, evs in paths(f['w_cb_new']):
        if k == 'abort': continue
        pos = lambda g: [i for i, e in enumerate(evs) if g(e)]
        reg = pos(lambda e: op(e, 'register') and e.kind == 'call'); call = pos(lambda e: e.kind == 'call' and prim(e, 'vf.fn.call')); ct = pos(lambda e: e.kind == 'call' and prim(e, 'vf.fn.ctor'))
        threw = any(prim(e, 'vf.fn.ctor') or op(e, 'register') for e in evs if e.kind == 'unwind')
        o = ck.obligation
        fn = norm_ptr(evs[ct[0]].args[0]) if ct else None
        o('the function exists before the callback is registered or run [%s]' % cfg, len(ct) == 1 and all(i > ct[0] for i in reg + call) or not ct and not reg and not call, '%s %s %s' % (ct, reg, call))
        if threw: o('a callback that could not be made is not run [%s]' % cfg, not call and k == 'unwind', str(call)); continue
        ran = bool(call) or any(prim(e, 'vf.fn.call') for e in evs if e.kind == 'unwind')
        b = st.ev(evs[reg[0]].res) if reg else None
        t = next((strip(e.res) for e in evs if e.kind == 'load' and (e.root, e.off) == (('arg', 1), 0)), None)
        poss = [st.ev(e.res) for e in evs if op(e, 'possible')]
        o('a callback is registered, once, exactly when stop is possible [%s]' % cfg, len(reg) == (1 if poss == [True] else 0) and (poss or t is not None and st.ev(mk_cmp('eq', t, C(0))) is True), '%s %s' % (poss, reg))
        o('the constructor runs the callback exactly when registering came too late [%s]' % cfg, (len(call) <= 1) and ran == (b is False) and (not reg or b is not None), 'registered %s, ran %s' % (b, ran))
        if reg: o('what is registered is this callback [%s]' % cfg, norm_ptr(evs[reg[0]].args[1]) == (('arg', 0), 0), str(evs[reg[0]].args))
        if call: o('what is run is this callback\'s function, after registering was tried [%s]' % cfg, norm_ptr(evs[call[0]].args[0]) == fn and call[0] > reg[0], str(evs[call[0]].args))
        held = next((strip(e.val) for e in reversed(evs) if e.kind == 'store' and (e.root, e.off) == (('arg', 0), 0)), None)
        if k == 'ret': o('the callback refers to the state exactly when it is registered [%s]' % cfg, held is not None and (held == t if b is True else st.ev(mk_cmp('eq', held, C(0))) is True), str(held))
        # from the moment it is registered the notification may run it and it may be destroyed only by its owner: the object is complete
        if reg and b is True:
            late = [e for e in evs[reg[0] + 1:] if e.kind == 'store' and e.root == ('arg', 0)]
            o('nothing of a registered callback is written afterwards [%s]' % cfg, not late, str([e.off for e in late]))
            st0 = [e for e in evs[:reg[0]] if e.kind == 'store' and (e.root, e.off) == (('arg', 0), 0)]
            o('a callback knows its state before it can be run [%s]' % cfg, bool(st0) and strip(st0[-1].val) == t, '')
        seen.add((bool(reg), b, k))
    ck.obligation('a callback may be registered, run at once, or neither [%s]' % cfg, {(True, True, 'ret'), (True, False, 'ret'), (False, None, 'ret')} <= seen, str(seen))
    seen = set()
    for k, r, st, evs in paths(f['w_cb_drop']):
        if k == 'abort': continue
        pos = lambda g: [i for i, e in enumerate(evs) if g(e)]
        t = next((strip(e.res) for e in evs if e.kind == 'load' and (e.root, e.off) == (('arg', 0), 0)), None)
        null = t is not None and st.ev(mk_cmp('eq', t, C(0))) is True
        de = pos(lambda e: op(e, 'deregister')); rel = pos(lambda e: op(e, 'relt')); dt = pos(lambda e: prim(e, 'vf.fn.dtor') or e.kind == 'icall')
        ck.obligation('a registered callback is taken out before its function and its reference go [%s]' % cfg, k == 'ret' and (null and not de or len(de) == 1 and norm_ptr(evs[de[0]].args[1]) == (('arg', 0), 0) and strip(evs[de[0]].args[0]) == t and all(i > de[0] for i in rel + dt)), '%s %s %s %s' % (k, de, rel, dt))
        ck.obligation('destroying a callback does not run it [%s]' % cfg, not any(prim(e, 'vf.fn.call') for e in evs), '')
        seen.add(null)
    ck.obligation('a callback may or may not be registered when it is destroyed [%s]' % cfg, seen == {True, False}, str(seen))
def awaiter(ck, f, cfg):
    o = ck.obligation
    names = sorted(n for n in f if 'lambda' in f[n].dem)
    shapes = {}
    for n in names:
        fl = set(); seen = set()
        for k, r, st, evs in paths(f[n]):
            if k == 'abort': continue
            x = [i for i, e in enumerate(evs) if e.kind == 'rmw' and e.op == 'xchg' or e.kind == 'cmpxchg']
            if not o('the callback takes the hand-over once [%s]' % cfg, len(x) == 1, str(len(x))): continue
            e = evs[x[0]]
            o('the callback takes the hand-over with acquire and release [%s]' % cfg, e.ord in ACQ and e.ord in REL, str(e.ord))
            src = next((q for q in evs[:x[0]] if q.kind == 'load' and strip(q.res) == e.root), None)
            o('the hand-over is the awaiter\'s [%s]' % cfg, src is not None and src.root == ('arg', 0), str(e.root))
            fl.add((e.off, src.off if src else None))
            was = flagged(st, e)
            rs = [(q, i) for i, q in enumerate(evs) if is_resume(q) or q.kind == 'unwind' and prim(q, 'vf.resume')]
            o('the callback resumes exactly when the coroutine was suspended for good before [%s]' % cfg, was is not None and len(rs) == (1 if was else 0), '%s %s' % (was, len(rs)))
            for q, i in rs:
                h = next((z for z in evs[:i] if z.kind == 'load' and strip(z.res) == strip(q.args[0])), None)
                o('the callback resumes the coroutine that awaits [%s]' % cfg, h is not None and h.root == ('arg', 0) and i > x[0], '')
                if h: shapes.setdefault(n, {})['h'] = h.off
                late = [z for z in evs[i + 1:] if z.kind in ('load', 'store', 'rmw', 'cmpxchg') and z.root[0] != 'al' or z.kind in ('call', 'icall') and not z.callee.startswith('llvm')]
                o('the callback touches nothing after resuming [%s]' % cfg, not late, str([z.kind for z in late]))
            if was is False:
                late = [z for z in evs[x[0] + 1:] if z.kind in ('load', 'store', 'rmw', 'cmpxchg') and z.root[0] != 'al']
                o('the callback touches nothing after handing over [%s]' % cfg, not late, str([z.kind for z in late]))
            seen.add(was)
        o('the callback may come before or after the coroutine is suspended [%s]' % cfg, seen == {True, False}, str(seen))
        shapes.setdefault(n, {})['fl'] = one(sorted(fl), 'hand-over flag')
    o('one callback per kind of handle or one for both [%s]' % cfg, len(names) >= 1, str(len(names)))
    offs = {s['fl'] for s in shapes.values()} ; hs = {s.get('h') for s in shapes.values()}
    if not o('the callbacks agree on the hand-over and the handle [%s]' % cfg, len(offs) == 1 and len(hs) == 1, '%s %s' % (offs, hs)): return
    (foff, toff), hoff = offs.pop(), hs.pop()
    for n in ('w_susp_s', 'w_susp_m'):
        seen = set()
        for k, r, st, evs in paths(f[n]):
            if k == 'abort' or any(e.kind == 'unwind' and prim(e, 'vf.std_cast') for e in evs): continue      # converting a handle does not throw (M19)
            reg = [i for i, e in enumerate(evs) if e.kind == 'call' and prim(e, 'vf.cb.ctor')]
            if k == 'unwind':
                o('awaiting throws only when the callback could not be registered [%s %s]' % (n, cfg), not reg and any(prim(e, 'vf.cb.ctor') for e in evs if e.kind == 'unwind'), ''); continue
            h = strip(('p', ('arg', 1), 0)); rr = strip(r)
            back = norm_ptr(r) == (('arg', 1), 0); noop = not back and (rr == NOOP or rr == C(43) or is_noop(rr))
            if not reg:
                p = next((st.ev(e.res) for e in evs if prim(e, 'vf.st.possible')), None); q = next((st.ev(e.res) for e in evs if prim(e, 'vf.st.requested')), None)
                o('goes on without registering only when stop is requested or impossible [%s %s]' % (n, cfg), back and (p is False or q is True), '%s %s %s' % (rr, p, q))
                seen.add('on'); continue
            o('registers one callback [%s %s]' % (n, cfg), len(reg) == 1, str(reg))
            e = evs[reg[0]]; lam = norm_ptr(e.args[2])
            before = {x.off - lam[1]: x.val for x in evs[:reg[0]] if x.kind == 'store' and x.root == lam[0]}
            o('the callback knows the awaiter and the coroutine [%s %s]' % (n, cfg), norm_ptr(before.get(toff, C(0))) == (('arg', 0), 0) and norm_ptr(before.get(hoff, C(0))) == (('arg', 1), 0), str(before))
            o('the callback is registered with the awaited token [%s %s]' % (n, cfg), tok(evs[:reg[0]], e.args[1]), str(e.args[1]))
            x = [i for i, z in enumerate(evs) if (z.kind == 'rmw' and z.op == 'xchg' or z.kind == 'cmpxchg') and (z.root, z.off) == (('arg', 0), foff)]
            if not o('hands over once, after registering [%s %s]' % (n, cfg), len(x) == 1 and x[0] > reg[0], str(x)): continue
            z = evs[x[0]]; was = flagged(st, z)
            o('hands over with acquire and release [%s %s]' % (n, cfg), z.ord in ACQ and z.ord in REL, str(z.ord))
            o('goes on exactly when the callback ran already [%s %s]' % (n, cfg), was is not None and (back if was else noop), '%s -> %s' % (was, rr))
            if was is False:
                late = [y for y in evs[x[0] + 1:] if y.kind in ('load', 'store', 'rmw', 'cmpxchg') and y.root == ('arg', 0) or y.kind == 'call' and any(norm_ptr(a)[0] == ('arg', 0) for a in y.args)]
                o('touches nothing of the awaiter after handing over [%s %s]' % (n, cfg), not late, str([y.kind for y in late]))
            seen.add(was)
        o('the callback may run before or after the hand-over, or not be needed [%s %s]' % (n, cfg), seen == {'on', True, False}, str(seen))
    for k, r, st in probe(f['w_ctor']).exits:
        if k == 'ret': o('the hand-over starts open [%s]' % cfg, fields(st, ('arg', 0)).get(foff) == C(0), str(fields(st, ('arg', 0)).get(foff)))
    for k, r, st in probe(f['w_ready']).exits:
        if k == 'ret': o('awaiting a stop token goes on only when stop is requested [%s]' % cfg, st.ev(r) is False or any(prim(e, 'vf.st.requested') and strip(e.res) == strip(r) for e, _ in probe(f['w_ready']).events if e.kind == 'call'), str(r))
def tok(evs, p):
    """does the object hold the awaiter's token"""
    p = norm_ptr(p)
    if p == (('arg', 0), 0): return True
    c = [e for e in evs if e.kind == 'call' and prim(e, 'vf.st.copy') and norm_ptr(e.args[0]) == p]
    return bool(c) and tok(evs[:evs.index(c[-1])], c[-1].args[1])
def is_noop(t): return 'noop' in str(t)
def flagged(st, e):
    """the flag before: True, False or unknown"""
    if e.val not in (C(1), TRUE): return None
    if e.kind == 'cmpxchg':
        if e.ins['weak'] or e.exp not in (C(0), FALSE): return None
        return not e.ok
    for t in (e.old, ('op', 'and', e.old, C(1)), ('op', 'and', C(1), e.old), mk_op('and', e.old, C(1), 8), mk_tr(e.old, 1)):
        v = st.ev(mk_cmp('eq', t, C(0)))
        if v is not None: return not v
        v = st.ev(t) if is_bool(t) or t[0] == 'tr' else None
        if v is not None: return bool(v)
    return None
def run(ck):
    own = ['own_stop']; cfg = 'own_stop'
    f = ck.ir('m14.cpp', FNP + ALLOC + ADD, configs=own)[cfg]; fa = ck.ir('m14.cpp', FNP + ALLOC, configs=own)[cfg]; f0 = ck.ir('m14.cpp', FNP, configs=own)[cfg]; fm = ck.ir('m14.cpp', FNP + METHODS, configs=own)[cfg]
    S = Shape(ck, f0, cfg)
    for n, k in (('w_chunk', 'chunk'), ('w_list', 'list'), ('w_lists', 'tab')):
        m = Made(S, k); ck.flow(f0[n], m, cfg)
        if not ck.viol: ck.count('%s made' % k, m.n, 1)
    def go(n, fn, r):
        ck.flow(fn, r, cfg, cap=4000)
        if not ck.viol:
            for k, v in r.n.items(): ck.count('%s: %s' % (n, k), v, 0 if k == 'no' else 1)
    go('notification', f0['w_st_request'], Notify(S))
    go('registering in a slot', fa['w_reg'], Add(S))
    go('registering', f['w_st_register'], Register(S))
    go('taking out', f0['w_st_deregister'], Dereg(S))
    callback(ck, fm, cfg)
    irs = ck.ir('m15.cpp', m22.PRIMS + [r'rename vf.st.requested	^(std|macoro)::stop_token::stop_requested\(\) const$'], entries=['w_susp_s', 'w_susp_m', 'w_ready', 'w_resume', 'w_ctor', 'stop_awaiter::await_suspend.*lambda.*operator'])
    for c, g in irs.items(): awaiter(ck, g, c)
    ck.assumptions = ['callbacks do not destroy the state they are run for; a callback is destroyed at most once, after its constructor returned', 'where the standard library has stop tokens these are used, and only awaiting one is decided']
    ck.finish('every path of notifying, registering, taking out, constructing and destroying, with loops over lists, chunks and entries decided for any number of them by the index each iteration expects',
              'the notification looks at every list, chunk and entry in the total order, takes what it calls out of its entry, calls it once and announces its end; a registration is in one slot, which it knows, before the second look for a request; what comes too late is taken back or left to the notification; taking out empties its own slot or waits for the notification of another thread; awaiting a token and its callback hand over by one exchange, so exactly one of them goes on')
if __name__ == '__main__': main(run, 'M15')
