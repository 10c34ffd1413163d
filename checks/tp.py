"""The thread pool: what every check about it shares."""
from common import *
Q = r'std::deque<macoro::coroutine_handle<void>, std::allocator<macoro::coroutine_handle<void> ?> ?>::'
H = r'std::vector<macoro::detail::thread_pool_delay_op, std::allocator<macoro::detail::thread_pool_delay_op> ?>::'
T = r'std::vector<std::thread, std::allocator<std::thread> ?>::'
M = r'((size|empty|front|back|begin|end|cbegin|cend|at|push_back|emplace_back|push_front|emplace_front|pop_front|pop_back|clear|erase|insert|emplace|swap|reserve|resize|data)\b.*|operator\[\]\(.*)'
TP_PRIMS = HANDLE_PRIMS + [
    r'rename vf.lock	^std::mutex::lock\(\)$', r'rename vf.unlock	^std::mutex::unlock\(\)$', r'rename vf.trylock	^std::mutex::try_lock\(\)$',
    r'rename vf.notify_one	^std::condition_variable::notify_one\(\)', r'rename vf.notify_all	^std::condition_variable::notify_all\(\)',
    r'rename vf.wait.timed	^std::cv_status std::condition_variable::wait_until<.*>\(std::unique_lock<std::mutex>&, std::chrono::time_point<.*> const&\)$',
    r'rename vf.wait.for	^std::cv_status std::condition_variable::wait_for<.*>\(std::unique_lock<std::mutex>&, std::chrono::duration<.*> const&\)$',
    r'rename vf.wait.plain	^std::condition_variable::wait\(std::unique_lock<std::mutex>&\)$',
    'rename vf.q	^(.* )?' + Q + M, 'rename vf.h	^(.* )?' + H + M, 'rename vf.t	^(.* )?' + T + M,
    'rename vf.t.take	^' + T + r'(vector\(std::vector<std::thread, .*&&\)|operator=\(std::vector<std::thread, .*&&\))',
    'rename vf.t.take	^' + T + r'operator=\(std::vector<std::thread',
    r'rename vf.t.dtor	^' + T + r'~vector\(\)$',
    r'rename vf.thread.ctor	^std::thread::thread<.*>\(', r'rename vf.thread.dtor	^std::thread::~thread\(\)$',
    r'rename vf.heap	^void std::(push_heap|pop_heap|make_heap|sort_heap)<.*>\(',
    r'rename vf.join	^std::thread::join\(\)$', r'rename vf.detach	^std::thread::detach\(\)$',
    r'rename vf.requested	^(std|macoro)::stop_token::stop_requested\(\) const$', r'rename vf.possible	^(std|macoro)::stop_token::stop_possible\(\) const$',
    r'rename vf.now	^std::chrono::_V2::steady_clock::now\(\)$',
    r'rename vf.callback	^.*std::optional<(std|macoro)::stop_callback.*>::emplace<.*',
    r'rename vf.state.dtor	^macoro::detail::thread_pool_state::~thread_pool_state\(\)$', r'rename vf.state.ctor	^macoro::detail::thread_pool_state::thread_pool_state\(\)$',
]
LAMBDAS = [r'^macoro::detail::thread_pool_(state|post_after)::.*lambda.*::operator\(\)\(\) const$', r'^std::thread::_Invoker<.*>::operator\(\)\(\)$']

SZS = (('s', 'sz', 'q', 0), ('s', 'sz', 'h', 0), ('s', 'ref', 'hfront', 0), ('s', 'ref', 'qfront', 0), ('s', 'ref', 'hback', 0), ('s', 'it', 'hb', 0), ('s', 'it', 'he', 0))
SZ = {'q': ('s', 'sz', 'q', 0), 'h': ('s', 'sz', 'h', 0)}
TLS = set()      # the thread's own variables that were looked at
NAMES = {'q': 'queue', 'h': 'timer heap', 't': 'thread list'}
CONST = ('size', 'empty', 'front', 'back', 'begin', 'end', 'cbegin', 'cend', 'operator[]', 'at', 'data')
def method(ev):
    m = re.search(r'>>::(~?\w+|operator\[\]|operator=)(<.*)?\(', ev.dem or ''); return m.group(1) if m else '?'
def which(ev):
    c = ev.callee or ''
    for k in 'qht':
        if c == 'vf.' + k or c.startswith('vf.%s.' % k): return k
def name(ev, n): return (ev.callee or '') == n or (ev.callee or '').startswith(n + '.')

class Lay: pass
class Pool(Rule):
    """the lock discipline of the pool's shared state, for every function that touches it"""
    want = None
    def __init__(self, L, direct, kind, h=None, priv=(('arg', 0), ('arg', 1), ('arg', 3), ('arg', 4))):
        self.L, self.direct, self.kind, self.h = L, direct, kind, h; self.priv = priv; self.n = dict(push=0, wait=0, take=0, resume=0, notify=0, lock=0, join=0, dead=0, started=0, cb=0, due=0, exit=0)
    # ---- opaque library calls
    def pure_call(self, dem, cal): return cal.startswith('vf.') and not cal.startswith('vf.resume') and not cal.startswith('vf.destroy') or cal.startswith('_ZTH')
    def private_roots(self, st): return {k[0] for k in st.mem if k[0][0] == 'al'} | set(self.priv)
    def local_call(self, dem, cal): return False
    def call_result(self, st, ev, cx):
        c = ev.callee
        if c.startswith('llvm.threadlocal.address'): TLS.add(str(ev.args[0])); return ev.args[0]
        if c in ('vf.now', 'vf.requested') or name(ev, 'vf.now') or name(ev, 'vf.requested') or name(ev, 'vf.possible'): return cx.fresh(st, 'call', ev.ins['id'])
        k = which(ev)
        if k in ('h', 'q') and method(ev) in ('operator[]', 'at') and ev.args[1] != C(0): return ('s', 'at', (k, strip(ev.args[1])), 0)
        if k in ('q', 'h') and ev.args and self.isS(st, norm_ptr(ev.args[0])[0]):
            m = method(ev)
            if m == 'size': return SZ[k]
            if m == 'empty': return mk_cmp('eq', SZ[k], C(0))
            if m in ('front', 'back'): return ('s', 'ref', k + m, 0)
            if m in ('begin', 'cbegin', 'data'): return ('s', 'it', k + 'b', 0)
            if m in ('end', 'cend'): return ('s', 'it', k + 'e', 0)
            if m in ('operator[]', 'at') and ev.args[1] == C(0): return ('s', 'ref', k + 'front', 0)
        return None
    def isS(self, st, root):
        if self.direct: return root == ('arg', 0)
        return root in dict(st.ts)['S']
    # ---- state
    def init(self, fn, flow):
        return dict2ts(dict(S=frozenset(), lk=0, push=0, out=0, need=None, heap='ok', els=frozenset(), cand=frozenset(), pend=None, nows=(), idle=0, reg=None, sr=None, sr0=None, idx=None, past=None, match=0, nxt=None, end=0, verdict=None, tls=None, took=None, work=0, dec=None, skip=0, dead=0, sz=SZS, told=None, ix=None))
    def prune(self, st, live):
        d = dict(st.ts)
        if not d['nows']: return st.ts
        dl = {v for k, v in d['cand'] if k == 'd'}
        used = set()
        for t in st.tr:
            if t[0] == 'cmp' and (t[2] in dl or t[3] in dl): used |= {t[2], t[3]}
        n = tuple(x for x in d['nows'] if x in live or x in used)
        if n == d['nows']: return st.ts
        d['nows'] = n; return dict2ts(d)
    def drop(self, st, cx, k):
        """what was known about container k no longer holds"""
        for s in (SZ[k], ('s', 'ref', k + 'front', 0), ('s', 'ref', k + 'back', 0), ('s', 'it', k + 'b', 0), ('s', 'it', k + 'e', 0)): cx.forget(st, s)
        t = dict(st.ts); t['sz'] = SZS; st.ts = dict2ts(t)
        for nme in ('eq', 'ne', 'rng', 'tr'):
            d = getattr(st, nme)
            for t in list(d):
                acc = set(); subterms(t, acc)
                if any(isinstance(x, tuple) and x[0:1] == ('stale',) for x in acc): del d[t]
    def elem(self, st, d, root):
        """container an element reference belongs to"""
        if root[0] == 's' and root[1] in ('ref', 'it'): return root[2][0]
        if root in d['els']: return 'h'
        if d['nxt'] and d['nxt'][0] == 'ptr' and norm_ptr(d['nxt'][1])[0] == root: return 'h'
        if root[0] == 'gep' and root[1][0] == 's' and root[1][1] == 'it': return root[1][2][0]
        return None
    def relock(self, st, d, cx):
        """leaving or (re)entering the critical section: everything read from the shared state is out of date"""
        for s in list(d['els']): cx.forget(st, s)
        ts = st.ts; st.ts = dict2ts(d)
        for k in 'qh': self.drop(st, cx, k)
        d.update(dict(st.ts)); st.ts = ts
        roots = {('arg', 0)} if self.direct else d['S']
        for r in roots: cx.mclobber(st, r)
        d['els'] = frozenset(); d['cand'] = frozenset(); d['skip'] = 0; d['match'] = 0; d['told'] = None; d['nxt'] = None
    def event(self, st, ev, cx):
        d = dict(st.ts); L = self.L
        def out(): return dict2ts(d)
        V = lambda m: cx.violate(st, m, ev)
        if ev.kind == 'unwind':
            if ev.callee and ev.callee.startswith('vf.') and not any(name(ev, 'vf.' + x) for x in ('lock', 'resume', 'destroy', 'callback', 'state.ctor', 'join')) and not (which(ev) and method(ev) in ('push_back', 'emplace_back', 'push_front', 'emplace_front', 'emplace', 'insert', 'reserve')): return DEAD
            if ev.callee and (name(ev, 'vf.unlock') or ev.callee.startswith('_ZTH')): return DEAD
            return st.ts
        if ev.kind == 'load' and not self.direct and ev.size == 8 and not ev.op:
            r = ev.root
            if r in self.owners and ev.ptr is not None:
                d['S'] = d['S'] | {strip(ev.res)}; return out()
        if ev.kind in ('load', 'store', 'rmw', 'cmpxchg'):
            if ev.root[0] == 'g': return self.tls(st, d, ev, cx)
            S = self.isS(st, ev.root); k = self.elem(st, d, ev.root)
            if d['out'] and (S or k or shared_access(ev, cx)): V('touches the pool or the awaiter after the operation was handed over and the lock released')
            if d['dead'] and S: V('touches the state after it was destroyed')
            if ev.root[0] == 'stale': V('uses a reference into the queues after they changed or the lock was released')
            if (S or k) and not d['lk'] and not cx.is_local(ev.root): V('%s shared state of the pool without holding its lock' % ('reads' if ev.kind == 'load' else 'writes')); return out()
            if S: return self.shared(st, d, ev, cx)
            if k: return self.element(st, d, ev, cx, k)
            return self.other(st, d, ev, cx)
        if ev.kind != 'call' and ev.kind != 'icall': return st.ts
        c = ev.callee or ''
        if ev.kind == 'icall' or c.startswith('vf.resume') or c.startswith('vf.destroy'):
            if d['lk']: V('runs other code while holding the lock')
            if is_resume(ev): return self.resume(st, d, ev, cx)
            return st.ts
        if name(ev, 'vf.now'): d['nows'] = (d['nows'] + (strip(ev.res),))[-2:]; return out()
        if name(ev, 'vf.requested'):
            d['sr'] = strip(ev.res)
            if d['sr0'] is None: d['sr0'] = d['sr']
            return out()
        if name(ev, 'vf.callback'): return self.callback(st, d, ev, cx)
        if name(ev, 'vf.cbdtor'):
            if d['lk']: V('waits for a stop callback while holding the lock')
            return st.ts
        if name(ev, 'vf.join'):
            self.n['join'] += 1
            if d['lk']: V('waits for a thread while holding the lock')
            return self.join(st, d, ev, cx)
        if name(ev, 'vf.detach'): V('a thread of the pool is detached'); return st.ts
        if is_next(ev): d['verdict'] = strip(ev.args[0]); return out()
        if name(ev, 'vf.state.dtor'): return self.statedtor(st, d, ev, cx)
        if name(ev, 'vf.state.ctor'): return st.ts
        if not c.startswith('vf.'): return self.foreign(st, d, ev, cx)
        if name(ev, 'vf.heap'): return self.heapop(st, d, ev, cx)
        if not ev.args: return st.ts
        r, o = norm_ptr(ev.args[0])
        mine = self.isS(st, r)
        if not mine:
            if which(ev) == 't' or name(ev, 'vf.t.take') or name(ev, 'vf.t.dtor'): return self.threads(st, d, ev, cx)
            if name(ev, 'vf.lock') or name(ev, 'vf.unlock'): V('locks a mutex other than the pool\'s')
            return st.ts
        if d['out']: V('touches the pool after the operation was handed over and the lock released')
        if d['dead']: V('touches the state after it was destroyed')
        if name(ev, 'vf.lock'):
            self.n['lock'] += 1
            if d['lk']: V('locks the mutex it already holds')
            self.relock(st, d, cx); d['lk'] = 1; d['idle'] = 0; d['sr'] = None; return out()
        if name(ev, 'vf.trylock'): V('takes the lock only if it is free: the access is skipped otherwise'); return st.ts
        if name(ev, 'vf.unlock'):
            if not d['lk']: V('releases a lock it does not hold')
            self.released(st, d, ev, cx)
            d['idle'] = self.isidle(st, d)
            self.relock(st, d, cx); d['lk'] = 0
            if d['push']: d['out'] = 1
            return out()
        if c.startswith('vf.notify'):
            if not d['lk']: V('notifies the pool after releasing its lock, when it may already be gone' )
            self.n['notify'] += 1
            if name(ev, 'vf.notify_all') or d['need'] == 'one': d['need'] = None
            if d['told'] != 'all': d['told'] = 'all' if name(ev, 'vf.notify_all') else 'one'
            return out()
        if not d['lk']: V('uses the %s of the pool without holding its lock' % NAMES.get(which(ev), 'condition variable')); return st.ts
        if c.startswith('vf.wait'): return self.wait(st, d, ev, cx)
        k = which(ev)
        if k == 't' or name(ev, 'vf.t.take'): return self.threads(st, d, ev, cx)
        m = method(ev)
        if m in CONST:
            if k == 'h' and m in ('operator[]', 'at') and strip(ev.res)[1] == 'at': return self.indexed(st, d, ev, cx)
            return st.ts
        if m in ('push_back', 'emplace_back', 'push_front', 'emplace_front'): return self.push(st, d, ev, cx, k, m)
        if m in ('pop_front', 'pop_back'): return self.pop(st, d, ev, cx, k, m)
        if m in ('reserve',): return st.ts
        V('%s() on the %s: queued operations may be lost' % (m, NAMES[k])); return st.ts
    # ---- parts, refined by the kinds of functions
    def tls(self, st, d, ev, cx):
        if str(('p', ev.root, 0)) not in TLS: return st.ts
        if ev.kind == 'load': d['tls'] = strip(ev.res)
        return dict2ts(d)
    def other(self, st, d, ev, cx): return st.ts
    def foreign(self, st, d, ev, cx): return st.ts
    def shared(self, st, d, ev, cx):
        L = self.L
        if ev.off == L.work and ev.kind == 'store': cx.violate(st, 'changes the number of outstanding work', ev)
        if ev.off == L.ctr and ev.kind == 'load': d['idx'] = ('seen', strip(ev.res))
        if ev.off == L.ctr and ev.kind == 'store':
            if d['idx'] is None or d['idx'][0] != 'seen' or ev.val != lin(d['idx'][1], 1): cx.violate(st, 'the number of a delayed operation is not taken by one increment: two operations may share it', ev)
            else: d['idx'] = ('mine', d['idx'][1])
        return dict2ts(d)
    def element(self, st, d, ev, cx, k):
        if ev.kind == 'store': cx.violate(st, 'changes a queued operation', ev)
        return self.loaded(st, d, ev, cx, k)
    def loaded(self, st, d, ev, cx, k):
        if ev.kind == 'load':
            r = ev.root
            front = r[0] == 's' and r[2] in (k + 'front', k + 'b') and d['heap'] != 'popped' or k == 'h' and r[0] == 's' and r[2] == 'hback' and d['heap'] == 'popped'
            if ev.off == (self.L.eh if k == 'h' else 0) and front: d['cand'] = d['cand'] | {(k, strip(ev.res))}
            if k == 'h' and ev.off == self.L.ed and front: d['cand'] = d['cand'] | {('d', strip(ev.res))}
        return dict2ts(d)
    def resume(self, st, d, ev, cx): cx.violate(st, 'resumes a coroutine here', ev); return st.ts
    def callback(self, st, d, ev, cx): cx.violate(st, 'registers a stop callback here', ev); return st.ts
    def join(self, st, d, ev, cx): cx.violate(st, 'waits for threads here', ev); return st.ts
    def statedtor(self, st, d, ev, cx): cx.violate(st, 'destroys the state of the pool here', ev); return st.ts
    def threads(self, st, d, ev, cx): cx.violate(st, 'changes the list of threads here', ev); return st.ts
    def wait(self, st, d, ev, cx): cx.violate(st, 'waits here', ev); return st.ts
    def indexed(self, st, d, ev, cx): d['els'] = d['els'] | {strip(ev.res)}; return dict2ts(d)
    def pop(self, st, d, ev, cx, k, m): cx.violate(st, 'removes a queued operation here', ev); return st.ts
    def push(self, st, d, ev, cx, k, m): cx.violate(st, 'queues an operation here', ev); return st.ts
    def cell(self, st, p, o=0):
        r, k = norm_ptr(p); c = st.mem.get((r, k + o)); return c and c[1]
    def heapop(self, st, d, ev, cx):
        f = re.match(r'void std::(\w+)<', ev.dem).group(1)
        if strip(ev.args[0]) != ('s', 'it', 'hb', 0) or strip(ev.args[1]) != ('s', 'it', 'he', 0): cx.violate(st, '%s over something other than the whole timer heap' % f, ev); return st.ts
        if not d['lk']: cx.violate(st, '%s without holding the lock' % f, ev)
        if f == 'make_heap': d['heap'] = 'ok'
        elif f == 'push_heap':
            if d['heap'] not in ('pushed', 'ok'): cx.violate(st, 'push_heap on something that is not a heap', ev)
            d['heap'] = 'ok'
        elif f == 'pop_heap':
            if d['heap'] != 'ok': cx.violate(st, 'pop_heap on something that is not a heap', ev)
            if st.ev(mk_cmp('eq', SZ['h'], C(0))) is not False: cx.violate(st, 'pop_heap on a heap that may be empty', ev)
            d['heap'] = 'popped'
        else: cx.violate(st, '%s destroys the heap' % f, ev)
        # the elements moved: what was read from them stays a copy, references do not
        keep = d['cand']; sz = {n: dict(getattr(st, n)) for n in ('eq', 'ne', 'rng', 'tr')}
        for s in list(d['els']) + [('s', 'ref', 'hfront', 0), ('s', 'ref', 'hback', 0), ('s', 'it', 'hb', 0), ('s', 'it', 'he', 0)]:
            ts = st.ts; st.ts = dict2ts(d); cx.forget(st, s); d.update(dict(st.ts)); st.ts = ts
        d['els'] = frozenset(); d['cand'] = keep; d['sz'] = SZS
        return dict2ts(d)
    def released(self, st, d, ev, cx):
        """obligations at the end of a critical section"""
        if d['need'] and d['told'] not in (d['need'], 'all'): cx.violate(st, 'releases the lock without waking a worker', ev)
        if d['heap'] != 'ok': cx.violate(st, 'releases the lock while the timers are not a heap', ev)
    def isidle(self, st, d):
        w = [v[1] for k, v in st.mem.items() if k[1] == self.L.work and self.isS(st, k[0])]
        return int(bool(w) and st.ev(mk_cmp('eq', w[0], C(0))) is True and all(st.ev(mk_cmp('eq', SZ[k], C(0))) is True for k in 'qh'))
    def exit(self, st, kind, ret, cx):
        if kind == 'abort': return
        d = dict(st.ts)
        if d['lk']: cx.violate(st, 'leaves without releasing the lock', cx._ev)
        self.left(st, d, kind, ret, cx)
    def left(self, st, d, kind, ret, cx): pass

class Post(Pool):
    """hands an operation over exactly once, or says that it did not"""
    # kinds: post, dispatch (bool), transfer (next coroutine), after
    def push(self, st, d, ev, cx, k, m):
        V = lambda x: cx.violate(st, x, ev)
        self.n['push'] += 1
        h = self.cell(st, ev.args[1])
        if k == 'h':
            if m != 'emplace_back' and m != 'push_back': V('%s on the timer heap' % m)
            a = ev.args[1:]
            L = self.L
            i, h, dl = (self.cell(st, a[0]), self.cell(st, a[1]), self.cell(st, a[2])) if len(a) == 3 else (self.cell(st, a[0], L.ei), self.cell(st, a[0], L.eh), self.cell(st, a[0], L.ed))
            d['heap'] = 'pushed'
            self.due(st, d, ev, cx, i, dl)
        elif m.endswith('_front'): V('queues the operation before those that were there first (they may never run)')
        elif self.kind == 'after' and not (any(d[x] is not None and st.ev(d[x]) is True for x in ('sr', 'sr0')) or self.expired(st, d)): V('a delayed operation is queued to run at once')
        if h is None or strip(h) != strip(self.h): V('queues something other than the given operation')
        if d['push']: V('queues the operation twice')
        d['push'] = 1; d['need'] = 'one'
        ts = st.ts; st.ts = dict2ts(d); self.drop(st, cx, k); d.update(dict(st.ts)); st.ts = ts
        return dict2ts(d)
    def expired(self, st, d): return any(st.ev(mk_cmp('sle', self.dl, n)) is True for n in d['nows']) if getattr(self, 'dl', None) else False
    def due(self, st, d, ev, cx, i, dl): cx.violate(st, 'queues the operation as a delayed one', ev)
    def left(self, st, d, kind, ret, cx):
        V = lambda m: cx.violate(st, m, cx._ev)
        if kind == 'unwind':
            if d['push']: V('leaves by an exception although the operation was queued')
            return
        if self.kind in ('post', 'after'):
            if d['push'] != 1: V('the operation is never queued')
            if d['verdict'] is not None and not nobody(d['verdict']): V('continues although the operation was queued')
            return
        here = any(st.ev(mk_cmp('eq', d['tls'], ptr(s) if s[0] == 'arg' else s)) for s in ([('arg', 0)] if self.direct else d['S'])) if d['tls'] is not None else False
        if self.kind == 'dispatch': r = st.ev(ret); said = None if r is None else r
        else:
            said = None
            if d['verdict'] is not None: said = True if strip(d['verdict']) == strip(self.h) else False if nobody(d['verdict']) else None
        self.n['exit'] += 1
        if said is None: V('does not say whether the operation was queued'); return
        if said and d['push']: V('runs the operation although it was queued: it runs twice')
        if not said and not d['push']: V('the operation is never queued')
        if said and not here: V('runs the operation on a thread that does not belong to the pool')

class After(Post):
    def __init__(self, *a, dl=None, tok=None, reg=None, **k): super().__init__(*a, **k); self.dl, self.tok, self.regp = dl, tok, reg; self.closure = None
    def callback(self, st, d, ev, cx):
        V = lambda m: cx.violate(st, m, ev)
        self.n['cb'] += 1
        if d['lk']: V('registers a stop callback while holding the lock: it deadlocks if stop was already requested')
        if d['push']: V('registers for cancellation after the operation was queued')
        if d['reg']: V('registers for cancellation twice')
        if norm_ptr(ev.args[0])[0] != self.regp or norm_ptr(ev.args[1])[0] != self.tok: V('registers something else than the operation\'s own callback and token')
        cl = ev.args[2]; cells = {k[1] - norm_ptr(cl)[1]: v[1] for k, v in st.mem.items() if k[0] == norm_ptr(cl)[0] and k[1] >= norm_ptr(cl)[1]}
        s = [o for o, v in cells.items() if (strip(v) in d['S']) or self.direct and strip(v) == strip(ARG(0))]
        i = [o for o, v in cells.items() if d['idx'] and d['idx'][0] == 'mine' and strip(v) == d['idx'][1]]
        if len(s) != 1: V('the callback does not refer to the state of the pool')
        if len(i) != 1: V('the callback does not know the number of its operation')
        m = re.search(r'stop_token&, (.*?\'lambda\w*\'\(.*?\))>', ev.dem)
        if s and i: self.closure = (m.group(1) if m else None, s[0], i[0])
        d['reg'] = d['idx'][1] if i else 'x'; d['sr'] = None
        return dict2ts(d)
    def due(self, st, d, ev, cx, i, dl):
        V = lambda m: cx.violate(st, m, ev)
        self.n['due'] += 1
        if d['idx'] is None or d['idx'][0] != 'mine' or i is None or strip(i) != d['idx'][1]: V('the operation is queued under a number that is not its own')
        if d['reg']:
            if d['sr'] is None: V('a stop request between registering and queueing is missed')
            else:
                r = st.ev(d['sr'])
                if r is not False and not (dl is not None and strip(dl) in d['nows']): V('a stop request between registering and queueing does not make the operation due')
                if r is not True and not (strip(dl or UNDEF) == self.dl or strip(dl or UNDEF) in d['nows'] and r is None): V('the operation is queued with another deadline than the given one')
        else:
            p = d['past']
            if p is None or st.ev(p) is not False: V('the operation is queued without registering for cancellation')
            if strip(dl or UNDEF) != self.dl and not (d['sr'] is not None and st.ev(d['sr']) is True and strip(dl or UNDEF) in d['nows']): V('the operation is queued with another deadline than the given one')
    def event(self, st, ev, cx):
        if ev.kind == 'call' and name(ev, 'vf.possible'):
            d = dict(st.ts); d['past'] = strip(ev.res); return dict2ts(d)
        return super().event(st, ev, cx)

class Cancel(Pool):
    """makes the operation with the given number due, wherever it is, and wakes everyone"""
    def __init__(self, *a, idx=None, **k): super().__init__(*a, **k); self.idx = idx
    slim = True
    def ident(self, st): return self.idx(st) if callable(self.idx) else self.idx
    def indexed(self, st, d, ev, cx):
        i = strip(ev.args[1])
        self.visit(st, d, i == (d['nxt'] or C(0)), lin(i, 1) == d['nxt'], lin(i, 1), ev, cx)
        d['els'] = d['els'] | {strip(ev.res)}; return dict2ts(d)
    def visit(self, st, d, now, again, nxt, ev, cx):
        """the operations are looked at one after the other, starting with the first"""
        if not now and not again: cx.violate(st, 'some of the delayed operations are skipped', ev)
        if not again: self.passed(st, d, ev, cx); d['match'] = 0
        d['nxt'] = nxt
    def passed(self, st, d, ev, cx):
        m = d['match']
        if not m or d['end'] == 2: return
        if st.ev(mk_cmp('eq', m, self.ident(st))) is not False: cx.violate(st, 'passes over a delayed operation that may be the cancelled one', ev)
    def element(self, st, d, ev, cx, k):
        L = self.L; r, o = norm_ptr(ev.ptr)
        if ev.kind == 'load':
            if k == 'h' and (o - L.ei) % L.es == 0:
                if r not in d['els']:
                    e = padd(('p', r, 0), o - L.ei) if o != L.ei else r; n = padd(e, L.es); first = r[0] == 's' and r[2] in ('hb', 'hfront') and o == L.ei
                    if r == ('s', 'ref', 'hfront', 0) and o == L.ei and d['nxt'] is None: d['nxt'] = C(1)
                    if d['nxt'] == C(1) and first: d['match'] = strip(ev.res); return dict2ts(d)
                    self.visit(st, d, first if d['nxt'] is None else d['nxt'][0] == 'ptr' and strip(d['nxt'][1]) == strip(e), d['nxt'] is not None and d['nxt'][0] == 'ptr' and strip(d['nxt'][1]) == strip(n), ('ptr', n), ev, cx)
                d['match'] = strip(ev.res)
            return dict2ts(d)
        if o % L.es != L.ed % L.es: cx.violate(st, 'changes a queued operation', ev); return st.ts
        base = o - L.ed; c = st.mem.get((r, base + L.ei))
        if c is None or st.ev(mk_cmp('eq', strip(c[1]), self.ident(st))) is not True: cx.violate(st, 'makes an operation due that may not be the cancelled one', ev)
        if strip(ev.val) not in d['nows']: cx.violate(st, 'the cancelled operation does not become due now', ev)
        d['match'] = 0; d['heap'] = 'dirty'; d['need'] = 'all'; d['end'] = 2; self.n['due'] += 1
        return dict2ts(d)
    def released(self, st, d, ev, cx):
        super().released(st, d, ev, cx)
        if d['end'] == 2: return
        # not found: every element was looked at
        n = SZ['h']; nx = d['nxt']; hb, he = ('s', 'it', 'hb', 0), ('s', 'it', 'he', 0)
        if nx is None: ok = st.ev(mk_cmp('eq', n, C(0))) is True or st.ev(mk_cmp('eq', hb, he)) is True
        elif nx[0] == 'ptr': ok = st.ev(mk_cmp('eq', nx[1], he)) is True
        else: ok = st.ev(mk_cmp('ult', nx, n)) is False or st.ev(mk_cmp('eq', nx, n)) is True
        if not ok: cx.violate(st, 'gives up before every delayed operation was looked at', ev)
        self.passed(st, d, ev, cx)
    def left(self, st, d, kind, ret, cx):
        if kind == 'ret' and not self.n['lock']: cx.violate(st, 'does nothing', cx._ev)

class Work(Pool):
    """outstanding work is counted once and ends once"""
    def __init__(self, *a, delta=0, **k): super().__init__(*a, **k); self.delta = delta
    def shared(self, st, d, ev, cx):
        L = self.L
        if ev.off != L.work: return st.ts
        if ev.kind == 'store':
            old = self.cell(st, ev.ptr)
            if old is None or strip(ev.val) != lin(strip(old), self.delta) or not self.delta: cx.violate(st, 'the amount of outstanding work changes by something else than one', ev)
            d['work'] += 1
            if d['work'] > 1: cx.violate(st, 'the same work is counted twice', ev)
            if self.delta < 0: d['dec'] = lin(strip(old), self.delta) if old is not None else None; d['need'] = 'all'
        return dict2ts(d)
    def released(self, st, d, ev, cx):
        if d['need'] and d['dec'] is not None and st.ev(mk_cmp('eq', d['dec'], C(0))) is False: d['need'] = None
        super().released(st, d, ev, cx)
    def left(self, st, d, kind, ret, cx):
        V = lambda m: cx.violate(st, m, cx._ev)
        if kind != 'ret': return
        L = self.L; own = ('arg', 0); c = self.cell(st, ptr(own, L.wx))
        n = d['work']; self.n['exit'] += n
        if self.kind == 'start':
            if n != 1: V('work begins without being counted')
            if c is None or strip(c) != strip(self.h): V('the work does not remember its pool')
        elif self.kind in ('end', 'assign'):
            had = [s for s in d['S'] if d['first'] == s]
            null = st.ev(mk_cmp('eq', d['first'], C(0))) if d['first'] is not None else None
            if null is None: V('does not look at whether there is work'); return
            if null is False and n != 1: V('work ends without being discounted')
            if null is True and n: V('ends work that was not there')
            if self.kind == 'end':
                if self.empties and (c is None or st.ev(mk_cmp('eq', strip(c), C(0))) is not True): V('ended work can end again')
            else:
                s = self.cell(st, ptr(('arg', 1), L.wx))
                if d['src'] is None or c is None or strip(c) != d['src']: V('the assigned work is not taken over')
                if s is None or s != C(0): V('the moved-from work ends again')
    def init(self, fn, flow): return dict2ts(dict(super().init(fn, flow), first=None, src=None))
    def event(self, st, ev, cx):
        r = super().event(st, ev, cx)
        if ev.kind == 'load' and ev.off == self.L.wx and r is not DEAD and not self.direct:
            d = dict(r)
            if ev.root == ('arg', 0) and d['first'] is None: d['first'] = strip(ev.res)
            if ev.root == ('arg', 1) and d['src'] is None: d['src'] = strip(ev.res)
            return dict2ts(d)
        return r

class Run(Pool):
    """a worker: takes what is due, resumes it once without the lock, sleeps and leaves only when it may"""
    slim = True
    def tls(self, st, d, ev, cx):
        if str(('p', ev.root, 0)) not in TLS: return st.ts
        if ev.kind == 'load': d['tls'] = ('was', strip(ev.res))
        else:
            v = strip(ev.val)
            if v == C(0):
                if d['tls'] != 'set': cx.violate(st, 'gives up a thread it does not control', ev)
                d['tls'] = 'clear'
            else:
                if v not in d['S']: cx.violate(st, 'claims the thread for something else than its pool', ev)
                if not (isinstance(d['tls'], tuple) and d['tls'][0] == 'was' and st.ev(mk_cmp('eq', d['tls'][1], C(0))) is True): cx.violate(st, 'takes over a thread that is already controlled by a pool', ev)
                d['tls'] = 'set'
        return dict2ts(d)
    def none(self, st, k): return st.ev(mk_cmp('eq', SZ[k], C(0)))
    def nowork(self, st, d):
        w = [v[1] for k, v in st.mem.items() if k[1] == self.L.work and self.isS(st, k[0])]
        return st.ev(mk_cmp('eq', w[0], C(0))) if w else None
    def isdue(self, st, d):
        return any(k == 'd' and st.ev(mk_cmp('sle', v, n)) is True for k, v in d['cand'] for n in d['nows'])
    def mayclear(self, st, d, ev, cx):
        p = d['pend']
        if p is not None and st.ev(mk_cmp('eq', p, C(0))) is not True: cx.violate(st, 'an operation taken from the queues is never resumed', ev)
        d['pend'] = None
    def pop(self, st, d, ev, cx, k, m):
        V = lambda x: cx.violate(st, x, ev)
        if k == 'q' and m != 'pop_front' or k == 'h' and m != 'pop_back': V('%s on the %s' % (m, NAMES[k]))
        if self.none(st, k) is not False: V('removes from a %s that may be empty' % NAMES[k])
        if k == 'h':
            if d['heap'] != 'popped': V('removes something other than the earliest timer')
            if not self.isdue(st, d): V('takes a delayed operation that may not be due')
            d['heap'] = 'ok'
        self.mayclear(st, d, ev, cx)
        c = [v for kk, v in d['cand'] if kk == k]
        if not c: V('removes an operation from the %s without taking it' % NAMES[k])
        else:
            d['pend'] = c[-1]
            if st.ev(mk_cmp('eq', c[-1], C(0))) is True: return DEAD
            st.assume(mk_cmp('ne', c[-1], C(0)), True)      # only proper coroutines are queued
        self.n['take'] += 1; d['took'] = 1
        ts = st.ts; st.ts = dict2ts(d); self.drop(st, cx, k); d.update(dict(st.ts)); st.ts = ts
        d['cand'] = frozenset(x for x in d['cand'] if x[0] != k and not (k == 'h' and x[0] == 'd'))
        return dict2ts(d)
    def resume(self, st, d, ev, cx):
        v = strip(ev.args[0]); self.n['resume'] += 1
        if d['tls'] != 'set': cx.violate(st, 'resumes an operation without claiming the thread for its pool', ev)
        if d['pend'] is None or v != d['pend']: cx.violate(st, 'resumes an operation that it did not take: it runs twice', ev)
        d['pend'] = None; return dict2ts(d)
    def wait(self, st, d, ev, cx):
        V = lambda m: cx.violate(st, m, ev)
        self.n['wait'] += 1
        self.mayclear(st, d, ev, cx)
        self.released(st, d, ev, cx)
        if self.none(st, 'q') is not True: V('sleeps although an operation may be queued')
        if name(ev, 'vf.wait.plain'):
            if self.none(st, 'h') is not True: V('sleeps without a time limit although an operation may be delayed')
            if self.nowork(st, d) is not False: V('sleeps although there may be nothing left to wait for')
        elif name(ev, 'vf.wait.timed'):
            if norm_ptr(ev.args[2])[0][0] != 'al': V('sleeps until a time that others may change or free meanwhile')
            t = self.cell(st, ev.args[2])
            if self.none(st, 'h') is not False or t is None or ('d', strip(t)) not in d['cand']: V('sleeps past the earliest deadline')
        else:
            t = self.cell(st, ev.args[2]); dl = [v for k, v in d['cand'] if k == 'd']
            if t is None or not any(strip(t) == mk_op('sub', x, n, 64) for x in dl for n in d['nows']): V('sleeps past the earliest deadline')
        self.relock(st, d, cx); d['idle'] = 0; d['sr'] = None
        return dict2ts(d)
    def event(self, st, ev, cx):
        if ev.kind == 'call' and name(ev, 'vf.lock') and ev.args and self.isS(st, norm_ptr(ev.args[0])[0]):
            d = dict(st.ts); self.mayclear(st, d, ev, cx); d['took'] = None; st.ts = dict2ts(d)
        return super().event(st, ev, cx)
    def left(self, st, d, kind, ret, cx):
        V = lambda m: cx.violate(st, m, cx._ev)
        if kind == 'unwind': return
        self.n['exit'] += 1
        if not d['idle']: V('leaves although work may remain or operations may be queued')
        if d['tls'] != 'clear': V('leaves without giving up the thread')
        p = d['pend']
        if p is not None and st.ev(mk_cmp('eq', p, C(0))) is not True: V('an operation taken from the queues is never resumed')

class Threads(Pool):
    """threads are started with the state itself, taken out under the lock and waited for without it"""
    def __init__(self, *a, **k): super().__init__(*a, **k); self.captured = set()
    def init(self, fn, flow): return dict2ts(dict(super().init(fn, flow), it=None, first=None, src=None))
    def threads(self, st, d, ev, cx):
        V = lambda m: cx.violate(st, m, ev)
        r, o = norm_ptr(ev.args[0]); mine = self.isS(st, r)
        if name(ev, 'vf.t.take') or method(ev) == 'swap':
            src = norm_ptr(ev.args[1])[0]
            if self.isS(st, src) and not d['lk']: V('takes the threads without holding the lock')
            if self.isS(st, src) and not mine or mine and not self.isS(st, src) and method(ev) == 'swap':
                if self.kind == 'start': V('takes the threads away')
                d['took'] = r if not mine else src; d['it'] = None
            elif mine: V('overwrites the list of threads')
            return dict2ts(d)
        m = method(ev)
        if not mine:
            if d['took'] is not None and r == d['took']:
                if m in ('operator[]', 'at'):
                    i = strip(ev.args[1])
                    if i != (d['ix'] or C(0)): V('waits for a thread out of turn')
                    d['ix'] = lin(i, 1); d['it'] = ('at', strip(ev.res), 0)
                if m == 'begin': d['it'] = ('at', strip(ev.res), 0)
                if m == 'end' : d['end'] = strip(ev.res)
                if m in ('clear', 'pop_back', 'erase'): V('drops a thread')
            if name(ev, 'vf.t.dtor') and d['took'] == r and not self.alldone(st, d) and d['took'] is not None and not cx_unwinding(st): V('drops threads that were not waited for')
            return dict2ts(d)
        if m in ('emplace_back', 'push_back'):
            if self.kind != 'start': V('starts a thread here')
            self.n['started'] += 1
            rr, oo = norm_ptr(ev.args[1])
            if d['match'] and (rr, oo) == d['match'][0]: d['match'] = 0; return dict2ts(d)
            cells = {k[1] - oo: strip(v[1]) for k, v in st.mem.items() if k[0] == rr and k[1] >= oo}
            s = [o for o, v in cells.items() if v in d['S']]
            if len(s) != 1 or any(v in (strip(ARG(0)), ('arg', 0)) for v in cells.values()): V('a thread refers to the pool object, which may move or go away, instead of to its state')
            self.captured |= set(s); return st.ts
        if m in CONST or m == 'reserve': return st.ts
        V('%s() on the list of threads' % m); return st.ts
    def foreign(self, st, d, ev, cx): return st.ts
    def call_result(self, st, ev, cx):
        if which(ev) == 't' and ev.args and dict(st.ts)['took'] == norm_ptr(ev.args[0])[0]:
            if method(ev) == 'size': return ('s', 'sz', 't', 0)
            if method(ev) == 'empty': return mk_cmp('eq', ('s', 'sz', 't', 0), C(0))
        return super().call_result(st, ev, cx)
    def alldone(self, st, d):
        it = d['it']; sz = ('s', 'sz', 't', 0)
        if it is not None and it[2] == 'end': return True
        if d['ix'] is not None and it[0] == 'joined' and (st.ev(mk_cmp('ult', d['ix'], sz)) is False or st.ev(mk_cmp('eq', d['ix'], sz)) is True): return True
        if d['took'] is not None and st.ev(mk_cmp('eq', sz, C(0))) is True: return True
        return d['ix'] is None and it is not None and it[2] == 'end' or it is not None and d['end'] and st.ev(mk_cmp('eq', it[1], d['end'])) is True
    def join(self, st, d, ev, cx):
        it = d['it']; t = strip(ev.args[0])
        if it is None or t != it[1]: cx.violate(st, 'waits for a thread out of turn', ev)
        else: d['it'] = ('joined', it[1], 0)
        return dict2ts(d)
    def edge(self, st, src, dst, phis, cx):
        d = dict(st.ts); it = d['it']
        if it is not None and it[0] == 'joined' and d['ix'] is None and (src, dst) in cx.fn.back:
            nx = [v for v in phis.values() if norm_ptr(v)[0] == norm_ptr(it[1])[0] and norm_ptr(v)[1] == norm_ptr(it[1])[1] + 8]
            if nx: d['it'] = ('at', strip(nx[0]), 0); return dict2ts(d)
        return st.ts
    slim = True
    def branch(self, st, cond, val, cx):
        d = dict(st.ts)
        if d['it'] is not None and d['it'][2] != 'end' and d['end'] and st.ev(mk_cmp('eq', d['it'][1], d['end'])) is True and d['it'][0] == 'at' and d['ix'] is None: d['it'] = d['it'][:2] + ('end',); return dict2ts(d)
        elif d['took'] is not None and not d['end'] and not (d['it'] and d['it'][2] == 'end') and self.alldone(st, d): d['it'] = ('none', C(0), 'end'); return dict2ts(d)
        return st.ts
    def statedtor(self, st, d, ev, cx):
        self.n['dead'] += 1
        s = strip(ev.args[0])
        if self.kind not in ('dtor', 'assign'): cx.violate(st, 'destroys the state of the pool', ev)
        if d['first'] is None or s != d['first']: cx.violate(st, 'destroys a state that is not its own', ev)
        if d['took'] is None or not (d['it'] is not None and (d['it'][2] == 'end')): cx.violate(st, 'destroys the state while its threads may still run', ev)
        if d['lk']: cx.violate(st, 'destroys the state while its mutex is locked', ev)
        d['dead'] += 1; return dict2ts(d)
    def event(self, st, ev, cx):
        if ev.kind == 'unwind' and name(ev, 'vf.join'): return DEAD
        if ev.kind == 'call' and name(ev, 'vf.thread.ctor'):
            d = dict(st.ts); rr, oo = norm_ptr(ev.args[1]); cells = {k[1] - oo: strip(v[1]) for k, v in st.mem.items() if k[0] == rr and k[1] >= oo}
            s = [o for o, v in cells.items() if v in d['S']]
            if len(s) != 1 or any(v in (strip(ARG(0)), ('arg', 0)) for v in cells.values()): cx.violate(st, 'a thread refers to the pool object, which may move or go away, instead of to its state', ev)
            self.captured |= set(s); d['match'] = (norm_ptr(ev.args[0]), 0); return dict2ts(d)
        r = super().event(st, ev, cx)
        if ev.kind == 'load' and r is not DEAD:
            d = dict(r)
            if ev.root == ('arg', 0) and ev.off == self.L.px and d['first'] is None: d['first'] = strip(ev.res)
            if ev.root == ('arg', 1) and ev.off == self.L.px and d['src'] is None and self.kind == 'assign': d['src'] = strip(ev.res)
            return dict2ts(d)
        return r
    def left(self, st, d, kind, ret, cx):
        V = lambda m: cx.violate(st, m, cx._ev)
        if kind != 'ret': return
        self.n['exit'] += 1
        if self.kind == 'start': return
        if self.kind == 'assign' and st.ev(mk_cmp('eq', ARG(0), ARG(1))) is True:
            if d['dead']: V('assigning a pool to itself destroys it')
            return
        null = st.ev(mk_cmp('eq', d['first'], C(0))) if d['first'] is not None else None
        if null is True: 
            if d['dead']: V('destroys a state that is not there')
        else:
            if d['took'] is None or d['it'] is None or d['it'][2] != 'end': V('does not wait for all of its threads')
            if self.kind in ('dtor', 'assign') and d['dead'] != 1: V('the state is not destroyed')
        if self.kind == 'assign':
            c, s = self.cell(st, ptr(('arg', 0), self.L.px)), self.cell(st, ptr(('arg', 1), self.L.px))
            if d['src'] is None or c is None or strip(c) != d['src'] or s != C(0): V('the assigned pool is not taken over')
def cx_unwinding(st): return False
from scope import dict2ts

class TProbe(Probe):
    def pure_call(self, dem, cal): return cal.startswith('vf.') or cal.startswith('_ZTH')
def tprobe(fn):
    p = TProbe(); Flow(fn, p).run(); return p
def layout(ck, f, cfg):
    """where the state keeps what, from what the functions do"""
    L = Lay()
    calls = [e for n in ('w_post', 'w_after', 'w_try') for e in tprobe(f[n]).of('call')]
    p = tprobe(f['w_wctor']); w = [e.off for e in p.of('store') if e.root == ('arg', 1)]
    L.work = one(w, 'count of outstanding work'); L.wx = one([e.off for e in p.of('store') if e.root == ('arg', 0) and strip(e.val) == strip(ARG(1))], 'pool of the work')
    L.mut = one([norm_ptr(e.args[0])[1] for e in calls if name(e, 'vf.lock')], 'mutex')
    L.cv = one([norm_ptr(e.args[0])[1] for e in calls if (e.callee or '').startswith('vf.notify')], 'condition variable')
    L.ctr = one([e.off for e in tprobe(f['w_after']).of('store') if e.root == ('arg', 0)], 'number of the next delayed operation')
    o = fields([st for k, r, st in tprobe(f['w_op']).exits if k == 'ret'][0], ('arg', 0))
    L.ei, L.eh, L.ed = (one([k for k, v in o.items() if strip(v) == x], 'field of a delayed operation') for x in (('argv', 1), strip(ARG(2)), ('argv', 3))); L.es = 24
    L.px = one([e.off for e in tprobe(f['w_run']).of('load') if e.root == ('arg', 0) and e.size == 8], 'state of the pool')
    # schedule_after stores pool, deadline and token
    o = {e.off: e.val for e in tprobe(f['w_aafter']).of('store') if e.root == ('arg', 0)}; now = [strip(e.res) for e in tprobe(f['w_aafter']).of('call') if name(e, 'vf.now')]
    L.ad = one([k for k, v in o.items() if any(strip(v) in (mk_op('add', ('argv', 2), n, 64), mk_op('add', n, ('argv', 2), 64)) for n in now)], 'deadline of the awaiter (now + delay)')
    class Less(Rule):
        def init(s, fn, fl): return (None, None)
        def event(s, st, ev, cx):
            if ev.kind == 'load' and ev.off == L.ed and ev.root in (('arg', 0), ('arg', 1)):
                t = list(st.ts); t[ev.root[1]] = strip(ev.res); return tuple(t)
            return st.ts
        def exit(s, st, kind, ret, cx):
            if kind != 'ret': return
            a, b = st.ts
            for v in (True, False):
                x = st.copy()
                if not x.assume(ret, v): continue
                if a is None or b is None or x.ev(mk_cmp('slt', b, a)) is not v: cx.violate(st, 'the timer that is due first is not the one the heap keeps in front', cx._ev)
    ck.flow(f['w_less'], Less(), cfg)
    return L

T13 = re.compile(r'cancel|delayed|deadline|callback|timer|heap|stop request|become due|earliest|registers')
class Only(Rule):
    """one rule, reporting only what belongs to a property"""
    def __init__(self, r, keep): object.__setattr__(self, 'r', r); object.__setattr__(self, 'keep', keep)
    def __getattribute__(self, k):
        if k in ('r', 'keep', 'event', 'exit', 'edge', 'branch', 'step', 'prune'): return object.__getattribute__(self, k)
        return getattr(object.__getattribute__(self, 'r'), k)
    def event(self, st, ev, cx): return self.r.event(st, ev, Mute(cx, self.keep))
    def exit(self, st, kind, ret, cx): self.r.exit(st, kind, ret, Mute(cx, self.keep))
    def prune(self, st, live): return self.r.prune(st, live)
    def edge(self, st, s, d, p, cx): return self.r.edge(st, s, d, p, Mute(cx, self.keep))
    def branch(self, st, c, v, cx): return self.r.branch(st, c, v, Mute(cx, self.keep))
    def step(self, st, i, n, cx): return self.r.step(st, i, n, Mute(cx, self.keep))
class Mute:
    def __init__(self, cx, keep): self._cx, self._k = cx, keep
    def __getattr__(self, k): return getattr(self._cx, k)
    def violate(self, st, msg, ev=None):
        if self._k(msg): self._cx.violate(st, msg, ev)

POOLFNS = dict(w_post=(True, 'post'), w_ppost=(False, 'post'), w_psched=(False, 'post'), w_spost_m=(False, 'post'), w_spost_s=(False, 'post'),
               w_try=(True, 'dispatch'), w_pdisp=(False, 'transfer'), w_sdisp_m=(False, 'transfer'), w_sdisp_s=(False, 'transfer'))
def analyse(ck, mine):
    irs = ck.ir('m12.cpp', TP_PRIMS, entries=['^w_'] + LAMBDAS)
    m12, m13 = mine == 'M12', mine == 'M13'
    keep = (lambda m: not T13.search(m)) if m12 else (lambda m: T13.search(m))
    for cfg, f in irs.items():
        L = layout(ck, f, cfg)
        def go(n, r, owners=(('arg', 0),)):
            r.owners = set(owners); ck.flow(f[n], Only(r, keep), cfg); return r
        if m12:
            for n, (direct, kind) in POOLFNS.items():
                r = go(n, Post(L, direct, kind, ARG(1), priv=(('arg', 0),) if not direct else ()))
                if not ck.viol: ck.count('%s: operations queued [%s]' % (n, cfg), r.n['push'], 1)
            for n, kind, dl, h, direct in (('w_wctor', 'start', 1, ARG(1), False), ('w_pwork', 'start', 1, None, False), ('w_wreset', 'end', -1, None, False), ('w_wdtor', 'end', -1, None, False), ('w_wassign', 'assign', -1, None, False)):
                r = Work(L, direct, kind, h, delta=dl); r.empties = n == 'w_wreset'
                if n == 'w_wctor': r.isS = lambda st, root: root == ('arg', 1)
                if n == 'w_pwork': r.kind = 'make'
                go(n, r, {'w_wctor': (), 'w_pwork': (('arg', 1),), 'w_wassign': (('arg', 0), ('arg', 1))}.get(n, (('arg', 0),)))
                if not ck.viol and n != 'w_pwork': ck.count('%s: counted [%s]' % (n, cfg), r.n['exit'], 1)
            o = [fields(st, ('arg', 0)) for k, r, st in tprobe(f['w_wmove']).exits if k == 'ret']; i = [fields(st, ('arg', 1)) for k, r, st in tprobe(f['w_wmove']).exits if k == 'ret']
            ck.obligation('moved work is counted once [%s]' % cfg, all(a.get(L.wx) is not None and b.get(L.wx) == C(0) for a, b in zip(o, i)), '%s %s' % (o, i))
            ck.obligation('no work until asked for [%s]' % cfg, all(fields(st, ('arg', 0)).get(L.wx) == C(0) for k, r, st in tprobe(f['w_wnew']).exits))
            for n, k in (('w_create', 'start'), ('w_join', 'join'), ('w_pdtor', 'dtor'), ('w_passign', 'assign')):
                r = go(n, Threads(L, False, k), (('arg', 0), ('arg', 1)) if k == 'assign' else (('arg', 0),))
                if ck.viol: continue
                if k == 'start': ck.count('threads started [%s]' % cfg, r.n['started'], 1); cap = r.captured
                else: ck.count('%s: threads joined [%s]' % (n, cfg), r.n['join'], 1)
                if k in ('dtor', 'assign'): ck.count('%s: states destroyed [%s]' % (n, cfg), r.n['dead'], 1)
        thr = [n for n, x in f.items() if '_Invoker<' in x.dem]
        if not thr: raise Missing('no body of a pool thread')
        for n in ['w_run'] + thr:
            r = go(n, Run(L, False, 'run'))
            if not ck.viol:
                for k in ('wait', 'take', 'resume'): ck.count('%s of %s [%s]' % (k, 'run' if n == 'w_run' else 'a thread', cfg), r.n[k], {'wait': 2, 'take': 2, 'resume': 1}[k])
        # delayed operations
        ev = tprobe(f['w_aafter']).of('load', 'store', 'call'); got = {strip(e.res) for e in ev if e.kind == 'load' and e.root == ('arg', 3)}; via = {('arg', 3)}
        ok = False
        for e in ev:
            if e.kind == 'store' and e.root == ('arg', 0) and strip(e.val) in got: ok = True
            if e.kind == 'call' and re.search(r'stop_token::(stop_token|operator=)\(', e.dem or '') and len(e.args) == 2 and norm_ptr(e.args[1])[0] in via:
                via.add(norm_ptr(e.args[0])[0]); ok = ok or norm_ptr(e.args[0])[0] == ('arg', 0)
        if m13: ck.obligation('the delayed operation keeps the given stop token [%s]' % cfg, ok, 'w_aafter')
        cl = []
        for n, direct in (('w_after', True), ('w_safter_m', False), ('w_safter_s', False)):
            if direct: a = After(L, True, 'after', ARG(1), dl=('argv', 2), tok=('arg', 3), reg=('arg', 4), priv=(('arg', 1),))
            else: a = AwaitAfter(L, False, 'after', ARG(1), dl=None, tok=('arg', 0), reg=('arg', 0), priv=(('arg', 0),))
            go(n, a); cl.append(a.closure)
            if not ck.viol: ck.count('%s: registrations, timers [%s]' % (n, cfg), min(a.n['cb'], a.n['due']), 1)
        go('w_cancel', Cancel(L, True, 'cancel', idx=('argv', 1)))
        c = cl[0]
        if c:
            body = [n for n, x in f.items() if c[0] and x.dem.startswith(c[0]) and 'operator()' in x.dem]
            if not body: raise Missing('no body of the cancellation callback')
            for n in body:
                a = Cancel(L, False, 'cancel', idx=lambda st: strip((st.mem.get((('arg', 0), c[2])) or (0, UNDEF))[1])); go(n, a)
                if not ck.viol: ck.count('cancelled operations made due [%s]' % cfg, a.n['due'], 1)
        if not ck.viol and not c: raise Missing('no registration for cancellation')
class AwaitAfter(After):
    """the same with deadline, token and callback inside the awaiter"""
    def event(self, st, ev, cx):
        if self.dl is None and ev.kind == 'load' and ev.root == ('arg', 0) and ev.size == 8 and ev.off == self.L.ad: self.dl = strip(ev.res)
        return super().event(st, ev, cx)
