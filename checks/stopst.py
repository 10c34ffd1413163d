"""The shared stop state: what its atomic word means."""
from common import *
M64 = (1 << 64) - 1
N = r'^macoro::detail::stop_state::'
FNP = [r'rename vf.fn.call	^std::function<void \(\)>::operator\(\)\(\) const$', r'rename vf.fn.dtor	^std::function<void \(\)>::~function\(\)$',
       r'rename vf.fn.ctor	^(std::function<void \(\)>::function(<.*>)?\(|std::function<void \(\)>::function<)']
DTOR = ['rename vf.ss.drop	' + N + r'~stop_state\(\)$']
OPS = [('addt', r'add_token_ref\(\)'), ('adds', r'add_source_ref\(\)'), ('relt', r'release_token_ref\(\)'), ('rels', r'release_source_ref\(\)'), ('create', r'create\(\)'),
       ('possible', r'stop_possible\(\) const'), ('requested', r'stop_requested\(\) const'), ('request', r'request_stop\(\)'), ('register', r'try_register_callback\('), ('deregister', r'deregister_callback\(')]
METHODS = ['rename vf.ss.%s	%s%s' % (n, N, r + ('$' if not r.endswith('(') else '')) for n, r in OPS]
def op(ev, n): return ev.kind in ('call', 'unwind') and (ev.callee == 'vf.ss.' + n or (ev.callee or '').startswith('vf.ss.%s.' % n))

class Word:
    """two flags and two counts in one word; a term over the word is decided for every word by the classes 0, 1, more of each count"""
    def __init__(self, F, C_, S, T):
        self.F, self.C, self.S, self.T = F, C_, S, T
        self.fields = [F, C_, (T - 1) & ~(S - 1), M64 & ~(T - 1)]
        self.words = [f * F | c * C_ | (s * S) | (t * T) & M64 for f in (0, 1) for c in (0, 1) if f or not c for s in range(4) for t in range(4)]
    def whole(self, m):
        m &= M64
        return all(m & x in (0, x) for x in self.fields)
    def aligned(self, k): return (1 << k) in [x & -x for x in self.fields]
    def ev(self, t, sym, w):
        """value of a term when the word is w; None when the term is not about whole fields"""
        t = strip(t)
        if t == sym: return w
        if t[0] == 'c': return t[1] & M64
        go = lambda x: self.ev(x, sym, w)
        if t[0] == 'lin':
            a = go(t[1]); return None if a is None or abs(wrap(t[2])) not in (self.F, self.C, self.S, self.T) and t[1] == sym else (a + t[2]) & M64
        if t[0] == 'op' and t[1] == 'and':
            m, x = (t[2], t[3]) if t[2][0] == 'c' else (t[3], t[2])
            a = go(x)
            return None if a is None or m[0] != 'c' or not self.whole(m[1]) else a & m[1] & M64
        if t[0] == 'op' and t[1] == 'or':
            a, b = go(t[2]), go(t[3]); return None if a is None or b is None else a | b
        if t[0] == 'op' and t[1] == 'lshr' and t[3][0] == 'c':
            a = go(t[2]); return None if a is None or not self.aligned(t[3][1]) else a >> t[3][1]
        if t[0] == 'tr' :
            a = go(t[2]); return None if a is None or not self.aligned(t[1]) else a & ((1 << t[1]) - 1)
        if t[0] in ('zx',): return go(t[1])
        if t[0] == 'ze': return go(t[2])
        if t[0] == 'not':
            a = go(t[1]); return None if a is None else 1 - a
        if t[0] in ('and1', 'or1'):
            a, b = go(t[1]), go(t[2]); return None if a is None or b is None else (a & b if t[0] == 'and1' else a | b)
        if t[0] == 'cmp':
            a, b = go(t[2]), go(t[3])
            if a is None or b is None: return None
            m = (1 << t[4]) - 1; a &= m; b &= m
            return int({'eq': a == b, 'ne': a != b, 'ult': a < b, 'slt': wrap(a, t[4]) < wrap(b, t[4])}[t[1]])
        return None
    def mentions(self, t, sym): s = set(); subterms(t, s); return sym in s
    def possible(self, st, sym, w):
        """may the word be w on this path"""
        for d, chk in ((st.eq, lambda a, v: a == v & M64), (st.ne, lambda a, v: a not in {x & M64 for x in v}), (st.rng, lambda a, v: v[0] <= a <= v[1]), (st.tr, lambda a, v: bool(a) == v)):
            for t, v in d.items():
                if not self.mentions(t, sym): continue
                a = self.ev(t, sym, w)
                if a is not None and not chk(a, v): return False
        return True
def word(ck, f, cfg):
    """the word from what the primitives do to it"""
    def rmw(n, ops):
        return [e for e in probe(f[n], slim=True, unroll=0).of('rmw') if norm_ptr(e.ptr)[0] == ('arg', 0) and e.op in ops]
    r = rmw('w_st_request', ('or', 'add'))
    off = one([e.off for e in r], 'state word')
    k = lambda n: one([e.val[1] for e in rmw(n, ('add', 'or')) if e.off == off and e.val[0] == 'c' and e.val[1] > 0], 'what %s adds' % n)
    F = one([e.val[1] for e in r if e.op == 'or'][:1], 'requested flag'); c = one([e.val[1] for e in r if e.val[1] != F], 'notification complete flag')
    S, T = k('w_st_adds'), k('w_st_addt')
    p2 = lambda x: x > 0 and x & (x - 1) == 0
    ck.obligation('flags and counts do not overlap, each count has room for 2^24 holders [%s]' % cfg, all(map(p2, (F, c, S, T))) and F != c and max(F, c) < S and S << 24 <= T and T << 24 <= 1 << 64, 'requested %#x complete %#x source %#x token %#x' % (F, c, S, T))
    return Word(F, c, S, T), off
