"""channels: what every operation does with slots, positions and the state of the channel"""
import re
from common import *
VTP = [r'rename vf.vt.move	^VT::VT\(VT&&\)$', r'rename vf.vt.copy	^VT::VT\(VT const&\)$', r'rename vf.vt.def	^VT::VT\(\)$', r'rename vf.vt.dtor	^VT::~VT\(\)$',
       r'rename vf.vt.massign	^VT::operator=\(VT&&\)$', r'rename vf.vt.cassign	^VT::operator=\(VT const&\)$']
PR = HANDLE_PRIMS + VTP + [
    r'rename vf.seq.ctor	^VSeq::VSeq\(', r'rename vf.seq.dtor	^VSeq::~VSeq\(', r'rename vf.seq.claim	^VSeq::claim_one\(\)$', r'rename vf.seq.await	^VClaim::.*\(\)$', r'rename vf.seq.wait	^VSeq::wait_until_published\(', r'rename vf.seq.publish	^VSeq::publish\(',
    r'rename vf.op.move	^Op<.*>::Op\(', r'rename vf.op.dtor	^Op<.*>::~Op\(', r'rename vf.op.ready	^Op<.*>::await_ready\(', r'rename vf.op.suspend	^Op<.*>::await_suspend\(', r'rename vf.op.resume	^Op<.*>::await_resume\(',
    r"rename vf.vec.dtor	^std::vector<std::optional<VT>.*>::~vector\(\)",
    r'rename vf.shared.make	^std::shared_ptr<macoro::channel<.*std::make_shared<',
    r'rename vf.bar.publish	^macoro::sequence_barrier<.*>::publish\(', r'rename vf.vec	^std::vector<std::optional<VT>.*>::vector\(unsigned long']
class Channel(PathProbe):
    """what an item, the sequencer or the barrier does leaves the wrappers, awaitables and the receiver's position alone"""
    def pure_call(self, dem, cal): return cal.startswith('vf.') or 'shared' in dem
def paths11(ck, fn):
    p = Channel(); fl = Flow(fn, p, max_steps=20000); fl.run(); ck.stats['functions'] += 1
    for k in ('states', 'events', 'paths'): ck.stats[k] += fl.stats[k]
    return p.paths
class Path:
    """one path, with every value named after the place it was read from"""
    def __init__(self, ck, L, path):
        self.ck, self.L = ck, L; self.kind, self.ret, self.st, evs = path; self.org = {}; self.written = {}; self.act = []; self.odd = []; self.pops = []
        for e in evs: self.see(e)
    def name(self, t):
        """a term in terms of where its parts were read"""
        t = strip(t)
        if t in self.org: return self.org[t]
        if t[0] == 'p': return ('p', self.name(t[1]), t[2]) if t[2] or t[1][0] in ('arg', 'al', 'g', 'gep') else self.name(t[1])
        if t[0] == 'gep': return ('gep', self.name(t[1]), t[2], tuple((self.name(i), n) for i, n in t[3]))
        if t[0] == 'op': return ('op', t[1]) + tuple(sorted((self.name(x) if isinstance(x, tuple) else x for x in t[2:]), key=repr))
        if t[0] == 'lin': return ('lin', self.name(t[1]), t[2])
        return t
    def place(self, root, off):
        """(what, where) a memory access is about: a slot of a channel, or a field of an object"""
        L = self.L
        if root[0] == 'gep':
            b = self.name(root[1])
            if b[0] == 'at' and b[2] == L.DATA and len(root[3]) == 1 and root[3][0][1] == L.size:
                ix = self.name(root[3][0][0])
                if ix[0] == 'op' and ix[1] == 'and':
                    for m, i in ((ix[2], ix[3]), (ix[3], ix[2])):
                        if m == ('at', b[1], L.MASK): return ('slot', b[1], i), root[2] + off
            return ('?', self.name(root)), off
        return ('obj', self.name(root)), off
    def see(self, e):
        L = self.L
        if e.kind in ('load', 'store'):
            w, o = self.place(e.root, e.off)
            if e.root[0] in ('al', 'g'): return
            if e.kind == 'load':
                if e.res[0] == 's': self.org.setdefault(strip(e.res), ('at', w[1], o) if w[0] == 'obj' and (w[1], o) not in self.written else ('later', w, o, len(self.act)))
                if w[0] == 'slot' and o == L.has and not [1 for a in self.act if a[0] == 'flag' and a[1] == w]: self.act.append(('has', w, strip(e.res)))
                return
            v = self.name(e.val)
            if w[0] == 'obj': self.written[(w[1], o)] = v
            if w[0] == 'slot' and o == L.has: self.act.append(('flag', w, e.val)); return
            if w[0] != 'obj': self.odd.append('writes to %s' % (w,)); return
            self.act.append(('set', w[1], o, v)); return
        if e.kind not in ('call', 'icall', 'unwind'): return
        c = e.callee or '?'; ok = e.kind == 'call'
        args = [self.name(a) for a in e.args]
        if c.startswith('vf.vt.'):
            r, o = norm_ptr(e.args[0]); w, o = self.place(r, o)
            if w[0] == 'slot' and o == L.val: self.act.append(('item', c[6:].split('.')[0], w, args[1:], ok))
            else: self.act.append(('own', c[6:].split('.')[0], args, ok))
        elif c.startswith('vf.seq.') or c.startswith('vf.bar.') or c.startswith('vf.op.') or c.startswith('vf.vec'):
            self.act.append((re.sub(r'\.\d+$', '', c)[3:], args, strip(e.res) if e.res else None, ok))
            if c.startswith('vf.op.resume') and ok: self.org[strip(e.res)] = ('result',)
            if c.startswith(('vf.seq.claim',)) and ok: self.org[strip(e.res)] = ('claim',)
        elif c.startswith(('llvm.', '__cxa', '_ZNSt13runtime_error', '__clang_call', '_ZSt9terminate', 'vf_', '_ZSt27', '__assert', '_ZdlPv', '_ZSt26')):
            if c.startswith('llvm.ctpop') and strip(e.args[0]) == ('argv', 1): self.pops.append(strip(e.res))
            if c.startswith('__cxa_throw'): self.act.append(('throw', str(e.args[1])))
            if c == 'vf_suspended': self.act.append(('verdict', args, None, ok))
        else: self.odd.append('calls %s %s' % (c, e.kind))
    def of(self, *k): return [a for a in self.act if a[0] in k]
    def ix(self, a): return self.act.index(a)
    def slot(self, w, upto=None):
        """(was it there before, is it there now, from where it came, does the flag say so) after the first upto actions"""
        acts = self.act if upto is None else self.act[:upto]
        h = [a for a in self.act if a[0] == 'has' and a[1] == w]
        e0 = None
        for a in h:
            v = self.st.ev(mk_cmp('ne', a[2], C(0), 8))
            e0 = e0 if v is None else v
        alive, flag, frm, bad = e0, e0, 'old', None
        for a in acts:
            if a[0] == 'flag' and a[1] == w: flag = None if a[2][0] != 'c' else bool(a[2][1])
            if a[0] == 'item' and a[2] == w:
                if a[1] == 'dtor':
                    if alive is not True: bad = 'destroys an item that may not be there'
                    alive = False
                elif a[1] in ('move', 'copy', 'def'):
                    if alive is not False: bad = 'writes over an item that may still be there'
                    if a[4]: alive, frm = True, (a[3][0] if a[3] else 'default')
                else:
                    if alive is not True: bad = 'assigns to an item that may not be there'
                    if a[4]: frm = a[3][0]
        return e0, alive, frm, flag, bad
    def slots(self): return list(dict.fromkeys(w for a in self.act for w in ([a[1]] if a[0] in ('has', 'flag') else [a[2]] if a[0] == 'item' else [])))
class Layout: pass
def layout(ck, f):
    L = Layout(); L.val = 0; L.size = 0; L.has = L.MASK = L.DATA = None
    L.has = one([e.off for e in probe(f['w_has']).of('load')], 'flag of a slot'); r = probe(f['w_val']).exits[0][1]; L.val = norm_ptr(r)[1]; L.size = probe(f['w_size']).exits[0][1][1]
    return L
def run(ck):
    for cfg, f in ck.ir('m11.cpp', PR).items():
        if not ck.viol: channel(ck, f, cfg)
    ck.assumptions = ['one receiver, which holds one popped item at a time; pushes and waits are awaited to their end; the sequencer keeps its protocol (M08, M09, M10) and does not throw, as the library\'s do', 'items do not touch the channel they are in; a wrapper refers to a channel while it is assigned to or read']
    ck.finish('every path, thrown exceptions included, of the constructor, the five operations, their awaiters, both wrappers and the restricted ends, over a sequencer about which nothing is known',
              'each operation claims or waits with the right numbers; an item is written to its own slot completely before its number is announced, which happens once on every path that claimed; a popped slot is emptied before its number is given back and the receiver moves on by one; an empty slot is reported as closed, never made up or consumed; wrappers announce exactly what they hold, once')
def channel(ck, f, cfg):
    L = layout(ck, f); nm = lambda s: '%s [%s]' % (s, cfg)
    def P(n, keep=lambda p: True):
        out = [p for p in (Path(ck, L, x) for x in paths11(ck, f[n])) if p.kind != 'abort' and keep(p)]
        if not out: raise Missing('no path of %s' % n)
        for p in out:
            for o in (p.odd if n not in ('w_mpsc', 'w_spsc') else ()): ck.violation('[%s] %s: %s' % (cfg, n, o), f[n].loc() if hasattr(f[n], 'loc') else '')
        ck.count('paths of %s' % n, len(out), 1); return out
    def ob(s, ok, more=''): ck.obligation(nm(s), ok, more); return ok
    A0, A1, A2 = ('arg', 0), ('arg', 1), ('arg', 2); N = ('argv', 1)
    n0 = lambda t: t if t[0] != 'p' or t[2] else t[1]
    # where things are
    ps = P('w_ctor'); good = [p for p in ps if p.kind == 'ret']
    if not good: ob('a channel can be made', False); return
    g = good[0]; sc = g.of('seq.ctor'); vc = g.of('vec')
    if not (ob('a channel makes one sequencer and its slots', all(len(p.of('seq.ctor')) == 1 and len(p.of('vec')) == 1 for p in good), str(g.act)[:300])): return
    off = lambda t: t[2] if t[0] == 'p' else 0
    L.SEQ = off(sc[0][1][0]); L.BAR = off(sc[0][1][1]); L.DATA = off(vc[0][1][0])
    fin = {o: v for (r, o), v in g.written.items() if r == A0}
    L.MASK = one([o for o, v in fin.items() if v == ('lin', N, -1)], 'mask of a channel')
    fr = [a for p in P('w_front') for a in p.of('seq.wait')]
    if not ob('looking at the front waits once', len(fr) >= 1 and all(len(a[1]) == 4 and a[1][2][0] == a[1][3][0] == 'at' for a in fr), str(fr)[:300]): return
    L.FRONT, L.LAST = fr[0][1][2][2], fr[0][1][3][2]
    ob('a channel starts with nothing popped and nothing known', fin.get(L.FRONT) == C(0) and fin.get(L.LAST) == C(-1) and fin.get(L.BAR) == C(-1), str(fin))
    for p in ps:
        nz = p.st.ev(mk_cmp('eq', N, C(0), 64)); two = None
        for t, c in [(mk_op('and', N, lin(N, -1), 64), 0)]:
            two = p.st.ev(mk_cmp('eq', t, C(0), 64))
        for e in p.pops:
            for q in (mk_cmp('ult', e, C(2), 64), mk_cmp('eq', e, C(1), 64)):
                v = p.st.ev(q); two = v if v is not None else two
        made = p.of('seq.ctor', 'vec'); thr = p.of('throw')
        if p.kind == 'ret' or made: ob('nothing is made with a capacity that is not a power of two', nz is False and two is True, str(p.act)[:200])
        if p.kind == 'ret': ob('sequencer and slots are made with the capacity and the channel\'s barrier', sc[0][1] == [('p', A0, L.SEQ), ('p', A0, L.BAR), N] and vc[0][1][1] == N, str(p.act)[:300])
        elif thr: ob('a capacity is refused only if it is not a power of two', nz is True or two is False, str(p.act)[:200])
    at = lambda b, o: ('at', b, o); adr = lambda b, o: ('p', b, o)
    isat = lambda t, b, o: t == adr(b, o) or (o == 0 and t in (b, adr(b, 0)))
    # making the operations
    INN, CHL = {}, {}; TOFF = None
    for pre, chl in (('w_', A1), ('w_tx_', at(A1, 0)), ('w_rx_', at(A1, 0))):
        for n in ('push', 'claim', 'close', 'front', 'pop'):
            if pre + n not in f: continue
            for p in P(pre + n):
                what = {'push': 'pushing a value', 'claim': 'asking for a place', 'close': 'closing', 'front': 'looking at the front', 'pop': 'popping'}[n] + {'w_': '', 'w_tx_': ' through a sender', 'w_rx_': ' through a receiver'}[pre]
                cl = p.of('seq.claim'); aw = p.of('seq.await'); wt = p.of('seq.wait'); mv = [a for a in p.act if a[0] == 'own']
                if n in ('front', 'pop'):
                    if not ob(what + ' waits for the front of its own channel, from what it knows', len(wt) == 1 and not cl and isat(wt[0][1][1], chl, L.SEQ) and wt[0][1][2] == at(chl, L.FRONT) and wt[0][1][3] == at(chl, L.LAST), str(p.act)[:400]): return
                    src = wt[0][1][0]
                else:
                    if p.kind == 'unwind':
                        ob(what + ' claims nothing if the value cannot be moved', not cl, str(p.act)[:300]); continue
                    if not ob(what + ' claims one place of its own channel', len(cl) == len(aw) == 1 and not wt and isat(cl[0][1][0], chl, L.SEQ), str(p.act)[:400]): return
                    src = aw[0][1][0]
                if p.kind != 'ret': ob(what + ' does not throw', False, str(p.act)[:200]); continue
                om = p.of('op.move'); dst = src
                for a in om:
                    if a[1][1] == dst: dst = a[1][0]
                if not ob(what + ' keeps the operation', n0(dst) == A0 or dst[:2] == ('p', A0), str(p.act)[:400]): return
                INN.setdefault(n, off(dst)); c = [o for (r, o), v in p.written.items() if r == A0 and n0(v) == n0(chl)]
                if not ob(what + ' keeps its channel', len(c) == 1 and off(dst) == INN[n] and c[0] == CHL.setdefault(n, c[0]), str(p.written)[:300]): return
                if n == 'push':
                    tm = [a for a in mv if a[1] == 'move' and n0(a[2][1]) == A2]
                    if not ob(what + ' takes the value over', len(tm) == 1 and [a[1] for a in mv if a[1] != 'dtor'].count('copy') == 0, str(mv)[:300]): return
                    TOFF = off(tm[0][2][0])
                ob(what + ' touches no slot and announces nothing', not p.slots() and not p.of('seq.publish', 'bar.publish'))
    if ck.viol: return
    # suspending
    for n in ('push', 'claim', 'close', 'front', 'pop'):
        for p in P('w_%s_ready' % n):
            r = p.of('op.ready'); ob('%s is ready when its operation is' % n, p.kind == 'ret' and len(r) == 1 and isat(r[0][1][0], A0, INN[n]) and strip(p.ret) == r[0][2] and len(p.act) == 1, str(p.act)[:200])
        for h in 'ms':
            for p in P('w_%s_susp_%s' % (n, h)):
                s = p.of('op.suspend'); v = p.of('verdict')
                if not ob('%s suspends its operation with the awaiting coroutine' % n, len(s) == len(v) == 1 and isat(s[0][1][0], A0, INN[n]) and n0(s[0][1][1]) == A1 and not p.slots() and not p.of('seq.publish', 'bar.publish'), str(p.act)[:300]): continue
                r, w = s[0][2], n0(v[0][1][0]); b = p.st.ev(r) if is_bool(r) else p.st.tr.get(r)
                for q in (mk_cmp('ne', r, C(0), 8), mk_tr(r, 1)):
                    if b is None: b = p.st.ev(q)
                ob('%s stays suspended when its operation does' % n, w == r or (b is not None and (nobody(w) if b else w == A1)), '%s %s %s' % (r, w, b))
    # a wrapper
    def fields0(n, k):
        p = P(n)
        return [q.written for q in p if q.kind == 'ret']
    mk = {w: fields0('w_%s_make' % w, 0)[0] for w in ('pw', 'qw')}
    key = lambda m, v: one([o for (r, o), x in m.items() if r == A0 and x == v], 'field of a wrapper')
    WC = key(mk['pw'], A1) if A1 in mk['pw'].values() else key(mk['pw'], ('p', A1, 0)); WI = key(mk['pw'], ('argv', 2))
    rest = {o for (r, o) in mk['pw'] if r == A0} - {WC, WI}; WP = one(rest, 'kind of a wrapper')
    ob('the two wrappers differ', mk['pw'].get((A0, WP)) == C(0) and mk['qw'].get((A0, WP)) not in (None, C(0)) and set(mk['pw']) == set(mk['qw']), str(mk))
    POP = mk['qw'].get((A0, WP))
    def holds(p, chl, idx, pop, root=A0):
        g = lambda o: p.written.get((root, o)); return g(WC) is not None and n0(g(WC)) == n0(chl) and g(WI) == idx and g(WP) == (POP if pop else C(0))
    # what the operations yield
    for n, fn in (('push', 'w_push_r'), ('claim', 'w_claim_r'), ('close', 'w_close_r'), ('front', 'w_front_r'), ('pop', 'w_pop_r')):
        R = A1 if n in ('claim', 'pop') else A0; chl = at(R, CHL[n]); idx = ('result',); live = 0
        for p in P(fn, lambda p: p.st.ev(mk_cmp('eq', next((t for t, o in p.org.items() if o == chl), C(1)), C(0))) is not True):
            r = p.of('op.resume'); pub = p.of('seq.publish', 'bar.publish'); s = p.act
            what = {'push': 'a pushed value', 'claim': 'a place', 'close': 'closing', 'front': 'the front', 'pop': 'popping'}[n]
            if not ob(what + ': the operation is finished once', len(r) == 1 and isat(r[0][1][0], R, INN[n]), str(s)[:300]): continue
            mine = ('slot', chl, idx) if n in ('push', 'claim', 'close') else ('slot', chl, at(chl, L.FRONT))
            if not ob(what + ': only its own slot is looked at', all(w == mine for w in p.slots()) and all(p.ix(a) > p.ix(r[0]) for a in s if a[0] in ('has', 'flag', 'item')), str(p.slots())[:300]): continue
            e0, alive, frm, flag, bad = p.slot(mine)
            ob(what + ': items are made and destroyed in order', bad is None and alive == flag, '%s; %s' % (bad, str(s)[:300])); live += p.kind == 'ret'
            if n in ('push', 'close'):
                if not ob(what + ' announces the claimed number once, on every path', len(pub) == 1 and pub[0][0] == 'seq.publish' and isat(pub[0][1][0], chl, L.SEQ) and pub[0][1][1] == idx, '%s: %s' % (p.kind, str(s)[:400])): continue
                ob(what + ': nothing is done to the slot after it was announced', all(p.ix(a) < p.ix(pub[0]) for a in s if a[0] in ('flag', 'item', 'has')), str(s)[:300])
            if n == 'push':
                thrown = [a for a in s if a[0] == 'item' and not a[4]]
                ob('a pushed value is moved, not copied', not [a for a in s if a[0] == 'item' and a[1] in ('copy', 'cassign')], str(s)[:300])
                if p.kind == 'ret': ob('a pushed value is in its slot when it is announced', p.slot(mine, p.ix(pub[0]))[1] is True and frm == adr(R, TOFF) or frm == R and TOFF == 0, str(s)[:300])
                else: ob('a push fails only if the value cannot be moved', bool(thrown), str(s)[:300])
            elif n == 'claim': ob('a place is handed to the wrapper unannounced and untouched', p.kind == 'ret' and holds(p, chl, idx, False) and not pub and not p.slots(), str(s)[:300])
            elif n == 'close': ob('closing announces an empty slot', p.kind == 'ret' and not p.slots(), str(s)[:300])
            else:
                ob(what + ': what is published is remembered', p.written.get((chl, L.LAST)) == ('result',), str(p.written)[:300])
                ob(what + ': the receiver does not move and nothing is given back', (chl, L.FRONT) not in p.written and not pub and not [a for a in s if a[0] in ('flag', 'item')], str(s)[:300])
                if p.kind == 'ret':
                    ob(what + ' is an item that is there', e0 is True, str(s)[:300])
                    if n == 'front': q, o = norm_ptr(p.ret); ob('the front is the item of the slot', p.place(q, o) == (mine, L.val), str(p.ret)[:300])
                    else: ob('popping hands over the front', holds(p, chl, at(chl, L.FRONT), True), str(p.written)[:300])
                else: ob(what + ' fails only at the end, which is reported as closed', e0 is False and any('channel_closed' in a[1] for a in p.of('throw')), str(s)[:300])
        ob('%s succeeds' % n, live > 0)
    # wrappers
    def given_back(p, root, what):
        """a wrapper gives back or announces what it holds, once, unless it is empty"""
        t = lambda o: next((x for x, y in p.org.items() if y == at(root, o)), None)
        chl = at(root, WC); c = t(WC); s = p.act; pub = p.of('seq.publish', 'bar.publish')
        if c is None: ob(what + ' looks at what it holds', False, str(s)[:200]); return
        none = p.st.ev(mk_cmp('eq', c, C(0)))
        if none is True: ob(what + ' of an empty wrapper does nothing to a channel', not pub and not p.slots(), str(s)[:300]); return
        if none is None: ob(what + ' looks whether it holds anything', False, str(s)[:300]); return
        k = t(WP); pop = None if k is None else p.st.ev(mk_cmp('ne', k, C(0), 8))
        if pop is None and k is not None: pop = p.st.ev(mk_tr(k, 1))
        if pop is None: ob(what + ' tells popped items from places', False, str(s)[:300]); return
        ixs = (at(root, WI), at(chl, L.FRONT))
        if not pop:
            ob(what + ' of a place announces it once and leaves the item alone', len(pub) == 1 and pub[0][0] == 'seq.publish' and isat(pub[0][1][0], chl, L.SEQ) and pub[0][1][1] == ixs[0] and not p.slots() and (chl, L.FRONT) not in p.written, str(s)[:400]); return
        if not ob(what + ' of a popped item gives its number back once', len(pub) == 1 and pub[0][0] == 'bar.publish' and isat(pub[0][1][0], chl, L.BAR) and pub[0][1][1] in ixs, str(s)[:400]): return
        sl = p.slots()
        if not ob(what + ' of a popped item empties its own slot', len(sl) == 1 and sl[0][1] == chl and sl[0][2] in ixs, str(sl)[:300]): return
        e0, alive, frm, flag, bad = p.slot(sl[0], p.ix(pub[0]))
        ob(what + ' of a popped item empties the slot before its number is given back', alive is False and flag is False and bad is None and all(p.ix(a) < p.ix(pub[0]) for a in s if a[0] in ('flag', 'item')), '%s %s' % (bad, str(s)[:300]))
        ob(what + ' of a popped item moves the receiver on by one', p.written.get((chl, L.FRONT)) in [('lin', x, 1) for x in ixs], str(p.written)[:300])
        ob(what + ' of a popped item: the receiver moves on after the slot is done with', all(p.ix(a) < p.ix(b) for a in s if a[0] in ('flag', 'item') for b in s if b[:3] == ('set', chl, L.FRONT)), str(s)[:300])
    for w in ('pw', 'qw'):
        for p in P('w_%s_dtor' % w): given_back(p, A0, 'destroying (%s)' % w); ob('destroying a wrapper does not throw (%s)' % w, p.kind == 'ret')
        for p in P('w_%s_publish' % w):
            given_back(p, A0, 'publishing (%s)' % w); c = next((x for x, y in p.org.items() if y == at(A0, WC)), C(1))
            ob('a wrapper holds nothing once published (%s)' % w, p.written.get((A0, WC)) == C(0) or p.st.ev(mk_cmp('eq', c, C(0))) is True, str(p.written)[:200])
        reads = set()
        for n in ('move', 'assign'):
            for p in P('w_%s_%s' % (w, n)):
                reads |= {o for x in p.org.values() if x[0] == 'at' and x[1] == A1 for o in [x[2]]}
                tk = lambda v, o: v is not None and v[0] in ('at', 'later') and (v == at(A1, o) or v[1:3] == (('obj', A1), o))
                ob('%s of a wrapper takes over what the source holds (%s)' % (n, w), p.kind == 'ret' and all(tk(p.written.get((A0, o)), o) for o in (WC, WI, WP)), str(p.written)[:300])
                ob('%s of a wrapper leaves the source empty (%s)' % (n, w), p.written.get((A1, WC)) == C(0), str(p.written)[:300])
                if n == 'assign': given_back(p, A0, 'assigning (%s)' % w)
                else: ob('moving a wrapper does nothing to a channel (%s)' % w, not p.of('seq.publish', 'bar.publish') and not p.slots(), str(p.act)[:300])
        for p in P('w_%s_def' % w): ob('an empty wrapper is empty, and everything a move reads is set (%s)' % w, p.written.get((A0, WC)) == C(0) and all((A0, o) in p.written for o in reads), '%s reads %s' % (p.written, reads))
    # items through wrappers
    for n in ('w_pw_set', 'w_pw_copy', 'w_pw_get', 'w_qw_get', 'w_qw_star', 'w_qw_arrow'):
        mine = ('slot', at(A0, WC), at(A0, WI)); seen = set()
        for p in P(n):
            s = p.act; e0, alive, frm, flag, bad = p.slot(mine); seen.add((p.kind, e0))
            ob('%s: only the slot of the wrapper is used' % n, all(x == mine for x in p.slots()) and not p.of('seq.publish', 'bar.publish') and not [1 for (r, o) in p.written if r == A0], str(s)[:300])
            ob('%s: items are made and destroyed in order' % n, bad is None and alive == flag, '%s; %s' % (bad, str(s)[:300]))
            if p.kind == 'ret':
                q, o = norm_ptr(p.ret); ob('%s: yields the item of the slot' % n, p.place(q, o) == (mine, L.val), str(p.ret)[:300])
                if n.startswith('w_pw'): ob('%s: there is an item afterwards' % n, alive is True, str(s)[:300])
                if n in ('w_pw_set', 'w_pw_copy'): ob('%s: it is the one given' % n, frm != 'old' and n0(frm) == A1 and not [a for a in s if a[0] == 'item' and a[1] in (('copy', 'cassign') if n == 'w_pw_set' else ('move', 'massign'))], str(s)[:300])
                if n == 'w_pw_get': ob('%s: an item that is there is kept' % n, e0 is False or frm == 'old', str(s)[:300])
                if n.startswith('w_qw'): ob('%s: no item is made up' % n, e0 is not False and frm == 'old' and not [a for a in s if a[0] == 'item'], str(s)[:300])
            elif n.startswith('w_pw'): ob('%s fails only if the item does' % n, any(a[0] == 'item' and not a[4] for a in s), str(s)[:300])
        if n.startswith('w_pw'): ob('%s works on empty and on filled slots' % n, {('ret', True), ('ret', False)} <= seen or ('ret', None) in seen, str(seen))
    # both ends share one channel
    for n in ('w_mpsc', 'w_spsc'):
        for p in P(n):
            if p.kind != 'ret': continue
            a = [v for (r, o), v in p.written.items() if r == A0 and o in (0, 16)]
            ob('%s: both ends refer to the one channel made' % n[2:], len(a) == 2 and n0(a[0]) == n0(a[1]) and a[0] != C(0), str(p.written)[:300])
if __name__ == '__main__': main(run, 'M11')
