"""Interprocedural path analysis over known memory: calls of functions of the module, direct or
through pointers kept in memory, are followed; everything else stays opaque."""
from flow import *
def HEAP(n): return ('g', ('heap', n))
def is_heap(r): return r[0] == 'g' and isinstance(r[1], tuple) and r[1][0] == 'heap'
class Enough(Exception): pass
class ExecRule(Rule):
    concrete = True
    gens = 12
    enough = 10**9                              # violations after which to stop
    prog = {}                                   # name -> Fn
    def follow(self, name): return name in self.prog
    def even(self, t): return False             # a value whose lowest bit is clear
    def private_roots(self, st): return {k[0] for k in st.mem if k[0][0] == 'al' or is_heap(k[0])}
class Exec(Flow):
    depth = 0
    def __init__(self, fn, rule, args=None, parent=None, state=None, **k):
        k.setdefault('cap', 10**9)
        Flow.__init__(self, fn, rule, **k)
        self.args = args; self.exits = []; self.state = state
        if parent is not None:
            self.depth = parent.depth + 1; self.violations = parent.violations; self.seenv = parent.seenv; self.stats = parent.stats; self.top = parent.top
        else: self.top = self; self.total = 0
        if self.depth > 24: raise TooBig('calls nested too deeply in ' + fn.dem)
    def argterm(self, i): return self.args[i] if self.args is not None else Flow.argterm(self, i)
    def fresh(self, st, kind, iid): return Flow.fresh(self, st, (kind, self.fn.name), iid)
    def is_local(self, root): return root[0] == 'al'
    def run(self):
        self.seen = [set() for _ in self.fn.blocks]; self.atblock = [[] for _ in self.fn.blocks]
        self.wl = deque(); self.push(0, self.state.copy()); steps = 0
        while self.wl:
            bi, st = self.wl.pop()
            steps += 1; self.top.total += 1
            if len(self.violations) >= self.rule.enough: raise Enough()
            if self.top.total > self.max_steps: raise TooBig(self.fn.dem)
            self.cov.add(bi); self.block(bi, st)
        self.stats['states'] = self.stats.get('states', 0) + steps
        return self.exits
    def do_exit(self, st, kind, ret, ins):
        self.stats['paths'] += 1
        st.mem = {k: v for k, v in st.mem.items() if not (k[0][0] == 'al' and k[0][1][:1] == (self.fn.name,) and k[0][1][2] == self.depth)}
        self._ev = Ev('exit', ins)
        self.exits.append((kind, ret, st, self._ev))
    def prune(self, bi, st):
        live = self.fn.livein[bi]
        st.env = {k: v for k, v in st.env.items() if k in live}
        acc = set()
        for t in st.env.values(): subterms(t, acc)
        for k, v in st.mem.items(): subterms(k, acc); subterms(v, acc)
        subterms(st.ts, acc)
        for a in self.args or (): subterms(a, acc)
        def alive(t):
            if t in acc: return True
            if t[0] == 'cmp': return alive(t[2]) and (t[3][0] == 'c' or alive(t[3]))
            if t[0] in ('lin', 'zx', 'not'): return alive(t[1])
            if t[0] == 'op': return any(alive(x) for x in t[2:] if x[0] != 'c')
            return False
        for n in ('eq', 'ne', 'rng', 'tr'):
            d = getattr(st, n)
            if d: setattr(st, n, {k: v for k, v in d.items() if alive(k)})
    def i_alloca(self, bi, st, ins):
        st.env[ins['id']] = ptr(('al', (self.fn.name, ins['id'], self.depth))); return [st]
    def known(self, t):
        r, o = norm_ptr(t); return (r, o) if r[0] in ('al', 'g') else None
    def i_icmp(self, bi, st, ins):
        a, b = self.val(st, ins['a'][0]), self.val(st, ins['a'][1]); x, y = self.known(a), self.known(b); w = width(ins['st']); p = ins['pred']
        if x and y:
            if x[0] == y[0]: st.env[ins['id']] = mk_cmp(p, C(x[1]), C(y[1]), w); return [st]
            if p in ('eq', 'ne'): st.env[ins['id']] = TRUE if p == 'ne' else FALSE; return [st]
        for u, v in ((x, b), (y, a)):
            if u and v[0] == 'c' and p in ('eq', 'ne'): st.env[ins['id']] = TRUE if p == 'ne' else FALSE; return [st]
        return Flow.i_icmp(self, bi, st, ins)
    def binop(self, bi, st, ins):
        a, b = self.val(st, ins['a'][0]), self.val(st, ins['a'][1]); op = ins['op']
        for x, y in ((a, b), (b, a)):
            k = self.known(x)
            if k and y[0] == 'c' and op in ('and', 'or', 'xor'):             # memory is aligned to sixteen bytes
                o, m = k[1], y[1]
                if op == 'and' and 0 <= m < 16: st.env[ins['id']] = C(o & m); return [st]
                if op == 'and' and -16 <= m < 0: st.env[ins['id']] = ptr(k[0], o & m); return [st]
                if op in ('or', 'xor') and 0 <= m < 16: st.env[ins['id']] = ptr(k[0], o | m if op == 'or' else o ^ m); return [st]
        if op == 'and' and any(y == C(1) and self.rule.even(x) for x, y in ((a, b), (b, a))): st.env[ins['id']] = C(0); return [st]
        if op == 'add':
            for x, y in ((a, b), (b, a)):
                if self.known(x) and y[0] == 'c': st.env[ins['id']] = padd(x, y[1]); return [st]
        if op == 'sub':
            x, y = self.known(a), self.known(b)
            if x and y and x[0] == y[0]: st.env[ins['id']] = C(x[1] - y[1]); return [st]
            if x and b[0] == 'c': st.env[ins['id']] = padd(a, -b[1]); return [st]
        if op in ('sdiv', 'srem') and a[0] == 'c' and b[0] == 'c' and b[1]:
            q = abs(a[1]) // abs(b[1]) * (1 if (a[1] < 0) == (b[1] < 0) else -1)
            st.env[ins['id']] = C(q if op == 'sdiv' else a[1] - q * b[1]); return [st]
        return Flow.binop(self, bi, st, ins)
    i_add = i_sub = i_mul = i_and = i_or = i_xor = i_shl = i_lshr = i_ashr = i_udiv = i_urem = i_sdiv = i_srem = binop
    def callcommon(self, bi, st, ins):
        cal = ins['callee']
        if not cal:
            t = self.val(st, ins['target'])
            if t[0] == 'p' and t[1][0] == 'g' and t[2] == 0: cal = t[1][1]
            elif t == C(0): self.violate(st, 'calls a function that is not set', Ev('icall', ins)); return [], []
        if isinstance(cal, str) and self.rule.follow(cal): return self.into(self.rule.prog[cal], st, ins)
        return Flow.callcommon(self, bi, st, ins)
    def into(self, fn, st, ins):
        s0 = State(); s0.mem = dict(st.mem); s0.ts = st.ts; s0.trail = st.trail
        for n in ('eq', 'ne', 'rng', 'tr'): setattr(s0, n, dict(getattr(st, n)))
        ex = Exec(fn, self.rule, tuple(self.val(st, a) for a in ins['a']), self, s0, max_steps=self.max_steps)
        out, unw = [], []
        for kind, ret, s, ev in ex.run():
            n = st.copy(); n.mem = s.mem; n.ts = s.ts; n.trail = s.trail
            for d in ('eq', 'ne', 'rng', 'tr'): x = dict(getattr(st, d)); x.update(getattr(s, d)); setattr(n, d, x)
            if kind == 'ret':
                if 'id' in ins: n.env[ins['id']] = ret
                out.append(n)
            elif kind == 'unwind': unw.append(n)
            else: self.top.exits.append((kind, ret, n, ev))
        if self.fn.nounwind and ins['op'] == 'call': unw = []
        return out, unw
