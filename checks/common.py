"""Rule building blocks shared by the checks."""
import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'engine'))
from vlib import *
from flow import *

NOOP = C(43)
ARG = lambda i: ptr(('arg', i))
def is_resume(ev): return ev.kind == 'call' and ev.callee.startswith('vf.resume') or (ev.kind == 'call' and ev.callee == 'llvm.coro.resume')
def is_destroy(ev): return ev.kind == 'call' and (ev.callee.startswith('vf.destroy') or ev.callee == 'llvm.coro.destroy')
def is_done(ev): return ev.kind == 'call' and (ev.callee.startswith('vf.done') or ev.callee == 'llvm.coro.done')
def shared_access(ev, cx):
    """a memory access that is not to this function's own locals or constants"""
    return ev.kind in ('load', 'store', 'rmw', 'cmpxchg') and not cx.is_local(ev.root) and ev.root[0] not in ('g', 'al')
def is_rethrow(ev): return ev.callee is not None and 'rethrow_exception' in ev.callee
def is_curexc(ev): return ev.kind == 'call' and ev.callee.startswith('_ZSt17current_exception')

class Probe(Rule):
    """records every event and exit of a function (used to find anchors)"""
    def init(self, fn, flow): self.events = []; self.exits = []; return ()
    def event(self, st, ev, cx): self.events.append((ev, st)); return st.ts
    def exit(self, st, kind, ret, cx): self.exits.append((kind, ret, st.copy()))
    def of(self, *kinds): return [e for e, _ in self.events if e.kind in kinds]
def probe(fn, **k):
    p = Probe()
    for a, v in k.items(): setattr(p, a, v)
    Flow(fn, p).run(); return p
class PathProbe(Rule):
    """every path of a loop free function with its events"""
    def init(self, fn, flow): self.ev = []; self.paths = []; return ((), ())
    def event(self, st, ev, cx):
        self.ev.append(ev); t = tuple(x for x in (ev.res, ev.old) if x is not None and x[0] != 'c')      # facts about what was seen are kept
        return (st.ts[0] + (len(self.ev) - 1,), st.ts[1] + t)
    def exit(self, st, kind, ret, cx): self.paths.append((kind, ret, st.copy(), [self.ev[i] for i in st.ts[0]]))
def paths(fn, widths=False, **k):
    p = PathProbe(); p.widths = widths
    for a, v in k.items(): setattr(p, a, v)
    Flow(fn, p, max_steps=20000).run(); return p.paths
def one(xs, what):
    xs = list(dict.fromkeys(xs))
    if not xs: raise Missing('no %s' % what)
    if len(xs) != 1: raise Broken('anchor not unique: %s: %s' % (what, xs))
    return xs[0]

class Uncaught(Rule):
    """unhandled_exception(): the current exception is captured and stored in the promise on every path"""
    def init(self, fn, flow): self.slots = set(); self.n = 0; return (None, None, None)
    def event(self, st, ev, cx):
        src, val, slot = st.ts
        if is_curexc(ev): return (ev.root if ev.ptr else norm_ptr(ev.args[0]), None, None)
        if src is not None and ev.kind == 'load' and (ev.root, ev.off) == src: return (src, ev.res, slot)
        if ev.kind == 'store' and ev.root == ('arg', 0):
            if val is not None and ev.val == val: return (src, val, ev.off)
            if slot is not None and ev.off == slot: cx.violate(st, 'the captured exception is overwritten', ev); return (src, val, None)
        return st.ts
    def exit(self, st, kind, ret, cx):
        if kind == 'abort': return
        self.n += 1
        if kind == 'unwind': cx.violate(st, 'unhandled_exception lets an exception escape', cx._ev); return
        if st.ts[2] is None:
            # captured by constructing in place: current_exception wrote straight into the promise
            if st.ts[0] is not None and st.ts[0][0] == ('arg', 0): self.slots.add(st.ts[0][1]); return
            cx.violate(st, 'an escaping exception is not stored for the awaiting party', cx._ev); return
        self.slots.add(st.ts[2])

class DestroyOnce(Rule):
    """destructor of an owner: destroys the owned frame exactly once iff there is one"""
    def __init__(self, off=0, root=('arg', 0)): self.off, self.root = off, root; self.yes = self.no = 0
    def init(self, fn, flow): return (None, 0)
    def event(self, st, ev, cx):
        h, n = st.ts
        if ev.kind == 'load' and ev.root == self.root and ev.off == self.off and h is None: return (strip(ev.res), n)
        if is_destroy(ev):
            t = strip(ev.args[0])
            if h is not None and t != h: cx.violate(st, 'destroys a frame other than the one it owns', ev)
            if n: cx.violate(st, 'destroys its frame twice', ev)
            if h is None: cx.violate(st, 'destroys something without looking at what it owns', ev)
            return (h, n + 1)
        return st.ts
    def exit(self, st, kind, ret, cx):
        if kind == 'abort': return
        h, n = st.ts
        null = None if h is None else st.ev(mk_cmp('eq', h, C(0)))
        if n: self.yes += 1
        else: self.no += 1
        if n == 0 and null is not True: cx.violate(st, 'the owned frame is not destroyed on some path (leak)', cx._ev)
        if n and null is not False: cx.violate(st, 'may destroy a null frame', cx._ev)

class MoveCtor(Rule):
    """move construction: target takes exactly the source's frame, source is emptied"""
    def __init__(self, off=0, dst=('arg', 0), src=('arg', 1)): self.off, self.dst, self.src = off, dst, src
    def init(self, fn, flow): return None
    def event(self, st, ev, cx):
        if ev.kind == 'load' and ev.root == self.src and ev.off == self.off and st.ts is None: return strip(ev.res)
        if is_destroy(ev): cx.violate(st, 'move construction destroys a frame', ev)
        return st.ts
    def exit(self, st, kind, ret, cx):
        if kind != 'ret' or st.ev(mk_cmp('eq', ARG(0), ARG(1))) is True: return     # a new object is not its source
        d = st.mem.get((self.dst, self.off)); s = st.mem.get((self.src, self.off))
        if st.ts is None or d is None or strip(d[1]) != st.ts: cx.violate(st, 'the new object does not take over the frame', cx._ev)
        if s is None or s[1] != C(0): cx.violate(st, 'the moved-from object still owns the frame', cx._ev)

class MoveAssign(Rule):
    """move assignment: old frame destroyed exactly once (if any), source's frame taken, source emptied; self assignment harmless"""
    def __init__(self, off=0, allow_swap=True): self.off, self.allow_swap = off, allow_swap
    def pure_call(self, dem, cal): return cal.startswith('vf.destroy')       # destroying a frame does not change the owners
    def init(self, fn, flow): return (None, None, 0, False)
    def event(self, st, ev, cx):
        old, src, n, dirty = st.ts
        if ev.kind == 'load' and ev.off == self.off:
            if ev.root == ('arg', 0) and old is None and not dirty: return (strip(ev.res), src, n, dirty)
            if ev.root == ('arg', 1) and src is None: return (old, strip(ev.res), n, dirty)
        if ev.kind == 'store' and ev.root == ('arg', 0) and ev.off == self.off and not (old is not None and strip(ev.val) == old): return (old, src, n, True)
        if is_destroy(ev):
            t = strip(ev.args[0])
            if old is None or t != old: cx.violate(st, 'move assignment destroys a frame that is not its own old one', ev)
            if n: cx.violate(st, 'move assignment destroys its old frame twice', ev)
            # destroyed while still reachable through the source on self assignment
            return (old, src, n + 1, dirty)
        return st.ts
    def exit(self, st, kind, ret, cx):
        if kind != 'ret': return
        old, src, n, dirty = st.ts
        selfa = st.ev(mk_cmp('eq', ARG(0), ARG(1)))
        if selfa is True:
            if n: cx.violate(st, 'self move assignment destroys the frame', cx._ev)
            if dirty:
                d = st.mem.get((('arg', 0), self.off))
                if not (d and old is not None and strip(d[1]) == old): cx.violate(st, 'self move assignment loses the frame', cx._ev)
            return
        if not dirty and n == 0 and old is not None and src is not None and st.ev(mk_cmp('eq', old, src)) is True: return      # owners never share a frame: both are empty
        if not dirty and n == 0 and selfa is None: cx.violate(st, 'move assignment does nothing on some path', cx._ev); return
        d = st.mem.get((('arg', 0), self.off)); s = st.mem.get((('arg', 1), self.off))
        if src is None or d is None or strip(d[1]) != src: cx.violate(st, 'assigned object does not take over the frame', cx._ev)
        if s is None: cx.violate(st, 'state of the moved-from object unknown', cx._ev)
        elif s[1] == C(0):
            if n == 0 and (old is None or st.ev(mk_cmp('eq', old, C(0))) is not True): cx.violate(st, 'move assignment leaks the old frame', cx._ev)
        elif strip(s[1]) == old and self.allow_swap:
            if n: cx.violate(st, 'old frame destroyed and kept by the source', cx._ev)
        else: cx.violate(st, 'the moved-from object still owns the frame', cx._ev)
        if n and st.ev(mk_cmp('eq', old, C(0))) is not False: cx.violate(st, 'may destroy a null frame', cx._ev)

class SelfAssign(Rule):
    """a = std::move(a): the owner keeps its frame"""
    def __init__(self, off=0): self.off = off
    def init(self, fn, flow): return None
    def event(self, st, ev, cx):
        if is_destroy(ev): cx.violate(st, 'self move assignment destroys the frame', ev)
        if ev.kind == 'load' and ev.root == ('arg', 0) and ev.off == self.off and st.ts is None: return ('h', strip(ev.res))
        if ev.kind == 'store' and ev.root == ('arg', 0) and ev.off == self.off and st.ts is None: return ('lost',)
        return st.ts
    def exit(self, st, kind, ret, cx):
        if kind != 'ret' or st.ts is None: return
        c = st.mem.get((('arg', 0), self.off))
        if st.ts[0] == 'lost' or c is None or strip(c[1]) != st.ts[1]: cx.violate(st, 'self move assignment loses the frame', cx._ev)

class Outcome(Rule):
    """outcome accessor: with a stored exception it rethrows exactly that; otherwise never throws it"""
    def __init__(self, slot, obj): self.slot, self.obj = slot, obj; self.re = 0; self.ok = 0
    def init(self, fn, flow): return (None, None)
    def event(self, st, ev, cx):
        x, thrown = st.ts
        if ev.kind == 'load' and ev.off == self.slot and self.obj(ev.root) and x is None: return (strip(ev.res), thrown)
        if is_rethrow(ev) and ev.kind in ('call', 'unwind'):
            a = ev.args[0]
            c = st.mem.get(norm_ptr(a))
            v = strip(c[1]) if c else None
            if x is None or (v != x and strip(a) != x): cx.violate(st, 'rethrows something other than the captured exception', ev)
            if x is not None and st.ev(mk_cmp('eq', x, C(0))) is not False: cx.violate(st, 'rethrows although no exception was captured', ev)
            return (x, 'thrown')
        return st.ts
    def exit(self, st, kind, ret, cx):
        x, thrown = st.ts
        if kind == 'ret':
            self.ok += 1
            if x is None or st.ev(mk_cmp('eq', x, C(0))) is not True: cx.violate(st, 'returns an outcome although an exception may have been captured', cx._ev)
        if kind == 'unwind':
            self.re += 1
            if thrown is None and x is not None and st.ev(mk_cmp('eq', x, C(0))) is not True: cx.violate(st, 'leaves by another exception than the captured one', cx._ev)


# ------------------------------------------------------------------ await protocol
def is_next(ev): return ev.kind == 'call' and ev.callee == 'vf_suspended'
def nobody(t): t = strip(t); return t == C(1) or t == NOOP or (t[0] == 'pc' and 'noop' in str(t[1]))
def consts_at(st, root): return {k[1]: v[1][1] for k, v in st.mem.items() if k[0] == root and v[1][0] == 'c'}

class PromiseModel: pass

class Ret(Rule):
    """return_value: the value is in place before the promise says so"""
    def __init__(self, arg=None, ctor=None): self.arg, self.ctor = arg, ctor; self.consts = []; self.voff = set()
    def init(self, fn, flow): return ()
    def event(self, st, ev, cx):
        if self.ctor and ev.kind == 'call' and self.ctor in (ev.dem or '') and norm_ptr(ev.args[0])[0] == ('arg', 0):
            if strip(ev.args[1]) != strip(ARG(1)): cx.violate(st, 'constructs the result from something other than the returned value', ev)
            if st.ts: cx.violate(st, 'constructs the result twice', ev)
            self.voff.add(norm_ptr(ev.args[0])[1]); return ('in place',)
        if ev.kind == 'store' and ev.root == ('arg', 0) and self.arg is not None and (strip(ev.val) == strip(self.arg) or (ev.val[0] == 's' and ev.val[1] == 'ld')):
            self.voff.add(ev.off); return ('in place',)
        return st.ts
    def exit(self, st, kind, ret, cx):
        if kind == 'abort': return
        if kind == 'unwind':
            if st.ts: cx.violate(st, 'leaves by an exception after the result was stored', cx._ev)
            self.uw = getattr(self, 'uw', []) + [consts_at(st, ('arg', 0))]; return
        self.consts.append(consts_at(st, ('arg', 0)))
        if (self.arg is not None or self.ctor) and not st.ts: cx.violate(st, 'the returned value is not stored', cx._ev)

def promise_model(ck, cfg, f, N, ret=None, ctor=None, retarg=None, rets=()):
    """where the promise keeps its exception and how it tells the alternatives apart"""
    m = PromiseModel(); m.N = N
    u = Uncaught(); ck.flow(f['w_unh_' + N], u, cfg)
    if ck.viol: return None
    m.X = one(u.slots, 'exception slot of ' + N)
    pu = [consts_at(st, ('arg', 0)) for k, r, st in probe(f['w_unh_' + N]).exits if k == 'ret']
    pc = [consts_at(st, ('arg', 0)) for k, r, st in probe(f['w_ctor_' + N]).exits if k == 'ret']
    both = lambda ds: {o: c for o, c in ds[0].items() if all(d.get(o) == c for d in ds)} if ds else {}
    E, Z = both(pu), both(pc); m.V = None; m.voff = None; V = {}; uw = []
    for n in rets:
        r = Ret(retarg, ctor); ck.flow(f[n], r, cfg)
        if r.voff: m.voff = one(r.voff, 'value slot of ' + N) if m.voff is None else m.voff
        V = both(r.consts); uw += getattr(r, 'uw', [])
    if ck.viol: return None
    tags = [o for o in E if o != m.X and (o in Z and Z[o] != E[o] or o in V and V[o] != E[o])]
    m.tag = None
    if tags:
        o = tags[0]; m.tag = (o, E[o], V.get(o), Z.get(o))
        if not ck.obligation('%s: a promise starts without an exception [%s]' % (N, cfg), Z.get(o) is not None and Z[o] != E[o], 'tag starts at %s' % Z.get(o)): return None
        if rets and not ck.obligation('%s: returning a value marks it as a value [%s]' % (N, cfg), o in V and V[o] != E[o] and V[o] != Z.get(o), 'tag after return is %s' % V.get(o)): return None
        for d in uw: ck.obligation('%s: a throwing result constructor leaves no value marked [%s]' % (N, cfg), d.get(o) != V.get(o), 'tag says value although construction threw')
    else:
        if not ck.obligation('%s: a promise starts without an exception [%s]' % (N, cfg), Z.get(m.X) == 0, 'exception slot is not null initially'): return None
    return m

class Access(Rule):
    """outcome accessor against the promise model"""
    def __init__(self, m, obj, handle=None, value=None, dst=None, may_empty=True):
        self.m, self.obj, self.h, self.value = m, obj, handle, value; self.n = dict(ok=0, re=0, empty=0)
    def init(self, fn, flow): return (None, None, None, None)       # tag term, exception term, thrown, handle
    def exc(self, st, tag, x):
        if self.m.tag:
            o, E, V, Z = self.m.tag
            if tag is None: return None
            r = st.ev(mk_cmp('eq', tag, C(E), 32))
            if r is None and V is not None:
                v = st.ev(mk_cmp('eq', tag, C(V), 32))
                if v is False: return True
            return r
        if x is None: return None
        return st.ev(mk_cmp('ne', x, C(0)))
    def hnull(self, st):
        if self.h is None: return False
        return None if st.ts[3] is None else st.ev(mk_cmp('eq', st.ts[3], C(0)))
    def event(self, st, ev, cx):
        tag, x, thrown, h = st.ts
        if self.h is not None and h is None and ev.kind == 'load' and (ev.root, ev.off) == self.h: return (tag, x, thrown, strip(ev.res))
        if ev.kind in ('load', 'store') and self.obj(ev.root):
            if self.h is not None and self.hnull(st) is not False: cx.violate(st, 'reads the promise of a possibly empty owner', ev)
            if ev.kind == 'load':
                if self.m.tag and ev.off == self.m.tag[0] and tag is None: return (ev.res, x, thrown, h)
                if ev.off == self.m.X and x is None: return (tag, strip(ev.res), thrown, h)
        if is_rethrow(ev) and ev.kind in ('call', 'unwind'):
            a = ev.args[0]; c = st.mem.get(norm_ptr(a)); v = strip(c[1]) if c else None
            if not ((x is not None and (v == x or strip(a) == x)) or (self.obj(norm_ptr(a)[0]) and norm_ptr(a)[1] == self.m.X)): cx.violate(st, 'rethrows something other than the captured exception', ev)
            if self.exc(st, tag, x) is not True: cx.violate(st, 'rethrows although no exception was captured', ev)
            return (tag, x, 'rethrown', h)
        if ev.callee == '__cxa_throw' and ev.kind in ('call', 'unwind'):
            return (tag, x, 'broken' if 'broken_promise' in str(ev.args[1]) else 'other', h)
        if ev.kind == 'call' and 'VT::VT' in (ev.dem or ''):
            r, o = norm_ptr(ev.args[1])
            if self.obj(r):
                if self.exc(st, tag, x) is not False: cx.violate(st, 'reads the value although an exception may have been captured', ev)
                if o != self.m.voff: cx.violate(st, 'reads something other than the value', ev)
        return st.ts
    def exit(self, st, kind, ret, cx):
        tag, x, thrown, h = st.ts
        null = self.hnull(st)
        if kind == 'ret':
            self.n['ok'] += 1
            if null is not False: cx.violate(st, 'yields an outcome although there is no coroutine', cx._ev)
            elif self.exc(st, tag, x) is not False: cx.violate(st, 'returns an outcome although an exception may have been captured', cx._ev)
            if self.value: self.value(self, st, ret, cx)
        elif kind == 'unwind':
            if thrown == 'rethrown': self.n['re'] += 1
            elif null is True:
                self.n['empty'] += 1
                if thrown not in ('broken', None): cx.violate(st, 'an empty owner reports something other than a broken promise', cx._ev)
            elif self.exc(st, tag, x) is not False: cx.violate(st, 'leaves by another exception than the captured one', cx._ev)

class PromiseDtor(Rule):
    """promise destructor: the active alternative is destroyed exactly once"""
    def __init__(self, m, vdtor=None): self.m, self.vdtor = m, vdtor; self.nv = self.nx = 0
    def init(self, fn, flow): return (None, None, 0, 0)
    def event(self, st, ev, cx):
        tag, x, nv, nx = st.ts
        if ev.kind == 'load' and ev.root == ('arg', 0):
            if self.m.tag and ev.off == self.m.tag[0] and tag is None: return (ev.res, x, nv, nx)
            if ev.off == self.m.X and x is None: return (tag, strip(ev.res), nv, nx)
        if ev.kind == 'call' and ev.args and self.vdtor and self.vdtor in (ev.dem or '') and norm_ptr(ev.args[0]) == (('arg', 0), self.m.voff): return (tag, x, nv + 1, nx)
        if ev.kind == 'call' and '_M_release' in ev.callee and norm_ptr(ev.args[0]) == (('arg', 0), self.m.X): return (tag, x, nv, nx + 1)
        return st.ts
    def exit(self, st, kind, ret, cx):
        if kind != 'ret': return
        tag, x, nv, nx = st.ts
        if self.m.tag:
            o, E, V, Z = self.m.tag
            isE = None if tag is None else st.ev(mk_cmp('eq', tag, C(E), 32)); isV = None if tag is None or V is None else st.ev(mk_cmp('eq', tag, C(V), 32))
        else: isE = True; isV = None
        if nx > 1: cx.violate(st, 'the stored exception is released twice', cx._ev)
        if nx and isE is not True: cx.violate(st, 'releases an exception that was never stored', cx._ev)
        if not nx and isE is not False and not (x is not None and st.ev(mk_cmp('eq', x, C(0))) is True): cx.violate(st, 'the stored exception is never released', cx._ev)
        self.nx += nx
        if self.vdtor:
            self.nv += nv
            if nv > 1: cx.violate(st, 'the stored value is destroyed twice', cx._ev)
            if nv and isV is not True: cx.violate(st, 'destroys a value that was never produced', cx._ev)
            if not nv and isV is not False: cx.violate(st, 'the stored value is never destroyed', cx._ev)


# ------------------------------------------------------------------ linear forms
def linear(t, w=64):
    """term as (coefficient per opaque part, constant), modulo 2**w"""
    M = (1 << w) - 1
    def go(t, k, acc):
        t = strip(t)
        if t[0] == 'c': acc[None] = (acc.get(None, 0) + k * t[1]) & M
        elif t[0] == 'lin': go(t[1], k, acc); go(C(t[2]), k, acc)
        elif t[0] == 'p' and t[1][0] not in ('arg', 'al', 'g'): go(t[1], k, acc); go(C(t[2]), k, acc)
        elif t[0] == 'op' and t[1] == 'add': go(t[2], k, acc); go(t[3], k, acc)
        elif t[0] == 'op' and t[1] == 'sub': go(t[2], k, acc); go(t[3], -k, acc)
        elif t[0] == 'op' and t[1] == 'xor' and C(-1) in (t[2], t[3]): go(t[3] if t[2] == C(-1) else t[2], -k, acc); go(C(-1), k, acc)
        elif t[0] == 'op' and t[1] == 'mul' and t[3][0] == 'c': go(t[2], k * t[3][1], acc)
        elif t[0] == 'op' and t[1] == 'mul' and t[2][0] == 'c': go(t[3], k * t[2][1], acc)
        elif t[0] == 'op' and t[1] == 'shl' and t[3][0] == 'c': go(t[2], k << t[3][1], acc)
        else: acc[t] = (acc.get(t, 0) + k) & M
    acc = {}; go(t, 1, acc)
    return {k: v for k, v in acc.items() if v}
def lineq(a, b, w=64): return linear(a, w) == linear(b, w)
def fields(st, root): return {k[1]: strip(v[1]) for k, v in st.mem.items() if k[0] == root}
