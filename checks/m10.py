from common import *
from waitlist import DIFF, PREC, before
from m08 import ReadyBy

PRIMS = HANDLE_PRIMS + [r'rename vf.barrier_suspend	^macoro::sequence_barrier_wait_operation_base<.*>::await_suspend\(macoro::coroutine_handle<void>\)$',
                        r'rename vf.barrier_publish	^(void )?macoro::sequence_barrier<.*>::publish\(']
class PW(Probe):
    widths = True
def pw(fn):
    p = PW(); Flow(fn, p).run(); return p
def rets(p): return [(r, s) for k, r, s in p.exits if k == 'ret']
def minus(a, b, w):
    x, y = linear(a, w), linear(b, w); M = (1 << w) - 1
    return {k: v for k in set(x) | set(y) if (v := (x.get(k, 0) - y.get(k, 0)) & M)}

def unpack(o, w):
    """two narrow numbers returned in one register"""
    t = o.get(0)
    if w < 64 and t is not None and t[0] == 'op' and t[1] == 'or':
        for a, b in ((t[2], t[3]), (t[3], t[2])):
            if a[0] == 'op' and a[1] == 'shl' and a[3] == C(w) and a[2][0] == 'ze' and b[0] == 'ze' and a[2][1] == b[1] == w: return {0: b[2], w // 8: a[2][2]}
    return o

def smaller(st, d, a, b, w, W):
    """d is the smaller of the number asked for (a, W bits) and the number available (given as the predicate b)"""
    if len(d) == 1 and None not in d:
        (t, k), = d.items()
        if t[0] in ('tr',): t = t[2]
        if k == 1 and t[0] == 'op' and t[1] == 'umin': return (t[2] == a and b(t[3])) or (t[3] == a and b(t[2]))
    return None

def sizes(ck, f, cfg, pre, w):
    """everything about claiming and publishing, numbers of w bits"""
    P = lambda n: pw(f[pre + n]); nm = lambda s: '%s (%d bit numbers) [%s]' % (s, w, cfg)
    bw = fields(rets(P('bwait'))[0][1], ('arg', 0))
    BB = one([o for o, v in bw.items() if v == strip(ARG(1))], 'barrier of a wait'); BT = one([o for o, v in bw.items() if v == ('argv', 2)], 'target of a wait')
    lo = [e for e in P('bwait').of('load') if e.root == ('arg', 1)]
    L = one([e.off for e in lo], 'published number')
    r, s = rets(P('bval'))[0]; K = one([o for o, v in fields(s, ('arg', 0)).items() if v == strip(r)], 'what a wait yields')
    ck.obligation(nm('a wait yields the number it saw published'), bw.get(K) == strip(lo[0].res), str(bw))
    bc = fields(rets(P('bctor'))[0][1], ('arg', 0))
    ck.obligation(nm('a barrier starts at its number'), bc.get(L) == ('argv', 1), str(bc))
    A = one([o for o, v in bc.items() if v == C(0)], 'waiters of a barrier')
    # publishing
    pub = [e for e in P('pub').of('call') if e.callee.startswith('vf.barrier_publish')]
    ck.obligation(nm('publishing publishes the number on the own barrier, once'), len(pub) == 1 and strip(pub[0].args[1]) == ('argv', 1) and norm_ptr(pub[0].args[0])[0] == ('arg', 0), str([e.args for e in pub]))
    if ck.viol: return
    PB = norm_ptr(pub[0].args[0])[1]
    p = P('pubr'); pub = [e for e in p.of('call') if e.callee.startswith('vf.barrier_publish')]
    src = {e.off: strip(e.res) for e in p.of('load') if e.root == ('arg', 1)}; W = w // 8
    ck.obligation(nm('publishing a range publishes its last number, once'), len(pub) == 1 and norm_ptr(pub[0].args[0]) == (('arg', 0), PB) and W in src and lineq(pub[0].args[1], lin(src[W], -1, w), w), str([e.args for e in pub]))
    # construction
    c = fields(rets(P('ctor'))[0][1], ('arg', 0))
    CB = one([o for o, v in c.items() if v == strip(ARG(1))], 'consumers\' barrier'); BS = one([o for o, v in c.items() if v == ('argv', 2)], 'buffer size')
    NX = one({e.off for e in P('v1').of('store') if e.root[0] == 's'}, 'next number to claim')
    ck.obligation(nm('claims begin right after the initial number, which counts as published'), c.get(NX) == lin(('argv', 3), 1, w) and c.get(PB + L) == ('argv', 3) and c.get(PB + A) == C(0), str(c))
    # waiting for room
    for n in ('a1', 'an'):
        p = P(n); r, s = rets(p)[0]; o = fields(s, ('arg', 0)); q = fields(s, ('arg', 1))
        nx, bs, cb = q.get(NX), q.get(BS), q.get(CB)
        ck.obligation(nm('%s waits on the consumers\' barrier' % n), cb is not None and o.get(BB) == cb, str(o))
        ck.obligation(nm('%s waits for the slot one buffer before' % n), nx is not None and bs is not None and BT in o and lineq(o[BT], mk_op('sub', nx, mk_tr(bs, w) if w < 64 else bs, w), w), str(o))
        k = [e for e in p.of('load') if e.off == L and strip(e.root) == strip(cb)]
        ck.obligation(nm('%s looks at what was released before deciding' % n), k and all(e.ord in ACQ for e in k) and o.get(K) == strip(k[-1].res), str(o))
        ck.obligation(nm('%s claims nothing yet' % n), not [e for e in p.of('store', 'rmw', 'cmpxchg') if e.root == ('arg', 1)], '')
        if ck.viol: return
        qo = one([x for x, v in o.items() if v == strip(ARG(1))], 'sequencer of a claim')
        if n == 'an': co = one([x for x, v in o.items() if v == ('argv', 2)], 'count of a claim')
        me = ('arg', 0 if n == 'a1' else 1)
        for kd, r, s, evs in paths(f[pre + ('v1' if n == 'a1' else 'vn')], widths=True):
            if kd != 'ret': continue
            q = s.mem.get((me, qo)); ld = [e for e in evs if e.kind == 'load' and e.off == NX and q is not None and strip(e.root) == strip(q[1])]
            if not ld: ck.obligation(nm('%s claims from where the last claim ended' % n), False, 'number not read'); return
            st = [e for e in evs if e.kind in ('store', 'rmw', 'cmpxchg') and e.root is not None and e.root == ld[0].root]
            ck.obligation(nm('%s moves nothing but the next number, once' % n), len(st) == 1 and st[0].off == NX and st[0].kind == 'store', str([(e.kind, e.off) for e in st]))
            if ck.viol: return
            b, e = strip(ld[0].res), st[0].val
            if n == 'a1':
                ck.obligation(nm('a claim yields the next number and moves on by one'), strip(r) == b and lineq(e, lin(b, 1, w), w), '%s %s' % (r, e))
                continue
            o = unpack(fields(s, ('arg', 0)), w); me_f = fields(s, me)
            ck.obligation(nm('a claim yields exactly the numbers it moved over'), o.get(0) == b and W in o and lineq(o[W], e, w), '%s %s' % (o, e))
            def avail(t):
                # released + size - begin + 1, decided in the number's own width
                if w == 64: return K in me_f and bs0 is not None and lineq(t, lin(mk_op('sub', mk_op('add', me_f[K], bs0, 64), b, 64), 1))
                x = minus(t, C(1), 64)
                if len(x) != 1: return False
                (y, k), = x.items()
                return k == 1 and y[0] == 'ze' and y[1] == w and lineq(y[2], mk_op('sub', mk_op('add', me_f[K], mk_tr(bs0, w), w), b, w), w)
            q0 = strip(q[1]); m = s.mem.get((q0, BS)); bs0 = strip(m[1]) if m else None
            d = minus(e, b, w); cnt = me_f.get(co)
            ok = smaller(s, d, cnt, avail, w, 64)
            if ok is None:
                # decided by a branch: one of the two, and known not to be above the other
                low = {k: v for k, v in (linear(mk_tr(cnt, w), w) if w < 64 else linear(cnt)).items()} if cnt is not None else None
                cmps = [(k, v) for k, v in s.tr.items() if k[0] == 'cmp' and k[1] == 'ult']
                le = lambda a, b: any((a(k[2]) and b(k[3]) and v) or (b(k[2]) and a(k[3]) and not v) for k, v in cmps)
                isc = lambda t: t == cnt
                ok = (d == low and le(isc, avail)) or (d != low and le(avail, isc) and any(avail(x) and minus(e, b, w) == (linear(mk_tr(x, w), w) if w < 64 else linear(x)) for k, v in cmps for x in (k[2], k[3])))
            ck.obligation(nm('a claim takes what was asked for, but no more than was released'), ok, str(d))
    return BB, BT, K, PB, L, CB, BS, NX

def run(ck):
    for cfg, f in ck.ir('m10.cpp', PRIMS).items():
        r = sizes(ck, f, cfg, 'w_', 64)
        if not r or ck.viol: continue
        BB, BT, K, PB, L, CB, BS, NX = r
        for n in ('w_r1', 'w_rn'): ck.flow(f[n], ReadyBy(K, BT), cfg)
        for sn in ('w_s1_e', 'w_s1_s', 'w_sn_e', 'w_sn_s'):
            ev = probe(f[sn]).of('call'); fw = [e for e in ev if e.callee.startswith('vf.barrier_suspend')]; nx = [e for e in ev if is_next(e)]
            ok = bool(fw) and all(norm_ptr(e.args[0]) == (('arg', 0), 0) and strip(e.args[1]) == strip(ARG(1)) for e in fw) and len(nx) == 2
            ck.obligation('%s: suspends exactly as the barrier says [%s]' % (sn, cfg), ok and {strip(e.args[0]) for e in nx} == {C(1), strip(ARG(1))}, '%s %s' % ([e.args for e in fw], [e.args for e in nx]))
        for n in ('w_wait', 'w_wait2'):
            p = probe(f[n]); o = fields(rets(p)[0][1], ('arg', 0)); k = [e for e in p.of('load') if e.root == ('arg', 1)]
            ck.obligation('%s: waits on the own barrier for the number given [%s]' % (n, cfg), o.get(BB) == padd(ARG(1), PB) and o.get(BT) == ('argv', 2), str(o))
            ck.obligation('%s: looks at what was published [%s]' % (n, cfg), k and all(e.off == PB + L and e.ord in ACQ for e in k) and o.get(K) == strip(k[-1].res), str(o))
        p = probe(f['w_last'])
        ck.obligation('the last published number is the own barrier\'s [%s]' % cfg, all(e.off == PB + L and e.ord in ACQ for e in p.of('load')) and [strip(r) for r, s in rets(p)] == [strip(e.res) for e in p.of('load')][-1:], str([e.off for e in p.of('load')]))
        for n in ('w_pub', 'w_pubr', 'w_last', 'w_wait', 'w_wait2', 'w_s1_e', 'w_sn_e'):
            bad = [e for e in probe(f[n]).of('store', 'rmw', 'cmpxchg') if e.off in (NX, BS, CB) and e.root == (('arg', 1) if n.startswith('w_wait') else ('arg', 0)) and n[2] != 's']
            ck.obligation('%s leaves the claims alone [%s]' % (n, cfg), not bad, str([(e.kind, e.off) for e in bad]))
        sizes(ck, f, cfg, 'w_8', 8)
    ck.assumptions = ['one producer, one claim in flight at a time, as documented', 'publishing and waiting on a barrier are decided under M08', 'at least one slot is asked for']
    ck.finish('symbolic value numbering of claiming, publishing and waiting on the single producer sequencer, for opaque 64 bit traits and for the library\'s traits over 8 bit numbers, both configurations',
              'target of a claim = next - buffer size; a claim moves the next number exactly by what it yields; yielded count is the smaller of count and (released + size - next + 1) evaluated in the number\'s own width; publishing and waiting act on the sequencer\'s own barrier')
if __name__ == '__main__': main(run, 'M10')
