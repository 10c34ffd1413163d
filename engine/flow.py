"""Path-sensitive typestate dataflow over normalised LLVM IR (dumped by irx).

The abstract state at a program point is
   env   SSA value -> term             (Herbrand value numbers)
   mem   (root, offset) -> (size, term) for the cells whose content is known
   facts branch facts about terms: equality/disequality with constants, unsigned
         ranges, truth of opaque conditions
   ts    the rule's own typestate (an immutable, hashable value)
and the analysis is the usual worklist iteration to a fixpoint over the control
flow graph with disjunctive states (two states are merged when they are equal after
dropping dead values; above a cap per block they are joined whenever their typestate
is equal, ESP style).  No solver is used: a branch is pruned only when the facts
contradict its condition directly.
"""
import sys, re
from collections import deque

sys.setrecursionlimit(10000)
M64 = (1 << 64) - 1

# ------------------------------------------------------------------ terms
def C(v): return ('c', v)
TRUE, FALSE, NULL = C(1), C(0), C(0)
UNDEF = ('undef',)
def is_c(t): return t[0] == 'c'

def ptr(root, off=0):
    return ('p', root, off)
def padd(t, k):
    if k == 0: return t if t[0] == 'p' else (t if t[0] in ('c', 'undef') else ('p', t, 0))
    if t[0] == 'p': return ('p', t[1], t[2] + k)
    if t[0] == 'c': return C(t[1] + k)
    return ('p', t, k)
def norm_ptr(t):
    """pointer-ish term -> (root, off)"""
    if t[0] == 'p': return t[1], t[2]
    if t[0] == 'lin': return t[1], t[2]
    return t, 0
def strip(t):
    """('p', X, 0) == X as a value"""
    if t[0] == 'p' and t[2] == 0 and t[1][0] not in ('al', 'arg', 'g'): return t[1]
    return t

def subterms(t, acc):
    if isinstance(t, frozenset):
        for x in t: subterms(x, acc)
        return
    if not isinstance(t, tuple): return
    acc.add(t)
    for x in t:
        if isinstance(x, (tuple, frozenset)): subterms(x, acc)

def wrap(v, w=64):
    v &= (1 << w) - 1
    if v >> (w - 1): v -= 1 << w
    return v

def lin(t, k, w=64):
    if t[0] == 'c': return C(wrap(t[1] + k, w))
    if t[0] == 'lin': b, k0 = t[1], t[2]
    elif t[0] == 'p': return padd(t, k)
    else: b, k0 = t, 0
    k = wrap(k0 + k, w)
    return b if k == 0 else ('lin', b, k)

NEG = {'eq': 'ne', 'ne': 'eq', 'ult': 'uge', 'uge': 'ult', 'ugt': 'ule', 'ule': 'ugt',
       'slt': 'sge', 'sge': 'slt', 'sgt': 'sle', 'sle': 'sgt'}
SWAP = {'eq': 'eq', 'ne': 'ne', 'ult': 'ugt', 'ugt': 'ult', 'ule': 'uge', 'uge': 'ule',
        'slt': 'sgt', 'sgt': 'slt', 'sle': 'sge', 'sge': 'sle'}

def mk_not(t):
    if t[0] == 'c': return C(0 if t[1] else 1)
    if t[0] == 'not': return t[1]
    if t[0] == 'cmp' and t[1] in ('eq', 'ne'): return ('cmp', NEG[t[1]], t[2], t[3], t[4])
    return ('not', t)

def is_bool(t): return t[0] in ('cmp', 'not', 'and1', 'or1')

def mk_cmp(pred, a, b, w=64):
    a, b = strip(a), strip(b)
    if a[0] == 'c' and b[0] == 'c':
        ua, ub = a[1] & ((1 << w) - 1), b[1] & ((1 << w) - 1)
        sa, sb = wrap(a[1], w), wrap(b[1], w)
        r = {'eq': ua == ub, 'ne': ua != ub, 'ult': ua < ub, 'ule': ua <= ub, 'ugt': ua > ub, 'uge': ua >= ub,
             'slt': sa < sb, 'sle': sa <= sb, 'sgt': sa > sb, 'sge': sa >= sb}[pred]
        return TRUE if r else FALSE
    if a == b and a != UNDEF:
        return TRUE if pred in ('eq', 'ule', 'uge', 'sle', 'sge') else FALSE
    if a[0] == 'c': return mk_cmp(SWAP[pred], b, a, w)
    if b[0] == 'c':
        if b[1] == 0 and pred in ("eq", "ne", "ugt") and a[:2] == ("op", "umin"):
            for x, y in ((a[2], a[3]), (a[3], a[2])):
                if y[0] == "c" and y[1] != 0: return mk_cmp(pred, x, b, w)
        # booleans compared with 0/1
        if is_bool(a) or (a[0] == 'zx' and is_bool(a[1])):
            x = a[1] if a[0] == 'zx' else a
            one = b[1] & 1
            if b[1] in (0, 1, -1):
                if pred == 'eq': return x if one else mk_not(x)
                if pred == 'ne': return mk_not(x) if one else x
        if pred in ('eq', 'ne'):
            if a[0] == 'lin': return mk_cmp(pred, a[1], C(wrap(b[1] - a[2], w)), w)
            if a[0] == 'p':
                if b[1] == 0 and (a[1][0] in ('al', 'g') or a[2] != 0): return TRUE if pred == 'ne' else FALSE
            if a[0] == 'zx': return mk_cmp(pred, a[1], b, w)
            if a[0] == 'op' and a[1] == 'sub' and b[1] == 0: return mk_cmp(pred, a[2], a[3], w)
            if a[0] == 'op' and a[1] == 'xor' and b[1] == 0: return mk_cmp(pred, a[2], a[3], w)
        ub = b[1] & ((1 << w) - 1)
        if pred == 'ult' and ub == 1: return mk_cmp('eq', a, C(0), w)
        if pred == 'ugt' and ub == 0: return mk_cmp('ne', a, C(0), w)
        if pred == 'uge' and ub == 1: return mk_cmp('ne', a, C(0), w)
        if pred == 'ule' and ub == 0: return mk_cmp('eq', a, C(0), w)
        if pred == 'uge' and ub == 0: return TRUE
        if pred == 'ult' and ub == 0: return FALSE
        # canonical: only ult / slt against constants
        if pred == 'ule' : return mk_cmp('ult', a, C(wrap(b[1] + 1, w)), w)
        if pred == 'ugt': return mk_not(mk_cmp('ule', a, b, w))
        if pred == 'uge': return mk_not(mk_cmp('ult', a, b, w))
        if pred == 'sle' and wrap(b[1], w) != (1 << (w - 1)) - 1: return mk_cmp('slt', a, C(wrap(b[1] + 1, w)), w)
        if pred == 'sgt': return mk_not(mk_cmp('sle', a, b, w))
        if pred == 'sge': return mk_not(mk_cmp('slt', a, b, w))
        return ('cmp', pred, a, b, w)
    # two symbolic sides: constant offsets to the right, canonical order
    if pred in ('eq', 'ne'):
        if a[0] == 'p' and b[0] == 'p' and (a[1][0] == 'al' or b[1][0] == 'al') and a[1] != b[1] and {a[1][0], b[1][0]} <= {'al', 'arg', 'g'}: return TRUE if pred == 'ne' else FALSE
        ka = a[2] if a[0] == 'lin' else 0
        kb = b[2] if b[0] == 'lin' else 0
        xa = a[1] if a[0] == 'lin' else a
        xb = b[1] if b[0] == 'lin' else b
        if a[0] == 'p' and b[0] == 'p' and a[1] == b[1]: return (TRUE if (a[2] == b[2]) == (pred == 'eq') else FALSE)
        if a[0] == 'p' and b[0] == 'p' and {a[1][0], b[1][0]} <= {'al', 'g'} and a[1] != b[1]: return TRUE if pred == 'ne' else FALSE
        if xa == xb: return TRUE if (ka == kb) == (pred == 'eq') else FALSE
        if repr(xa) > repr(xb): xa, xb, ka, kb = xb, xa, kb, ka
        return ('cmp', pred, xa, lin(xb, kb - ka, w), w)
    if pred in ('ule', 'sle'): return mk_not(mk_cmp({'ule': 'ult', 'sle': 'slt'}[pred], b, a, w))
    if pred in ('uge', 'sge'): return mk_not(mk_cmp({'uge': 'ult', 'sge': 'slt'}[pred], a, b, w))
    if pred in ('ugt', 'sgt'): return mk_cmp(SWAP[pred], b, a, w)
    return ('cmp', pred, a, b, w)

COMM = {'add', 'mul', 'and', 'or', 'xor'}
def width(tn):
    if tn == 'ptr': return 64
    m = re.match(r'i(\d+)$', tn)
    return int(m.group(1)) if m else 64

def mk_op(op, a, b, w):
    a, b = strip(a), strip(b)
    if a[0] == 'c' and b[0] == 'c':
        x, y = a[1], b[1]; ux, uy = x & ((1 << w) - 1), y & ((1 << w) - 1)
        try:
            r = {'add': lambda: x + y, 'sub': lambda: x - y, 'mul': lambda: x * y, 'and': lambda: x & y, 'or': lambda: x | y,
                 'xor': lambda: x ^ y, 'shl': lambda: ux << uy, 'lshr': lambda: ux >> uy, 'ashr': lambda: wrap(x, w) >> uy,
                 'udiv': lambda: ux // uy, 'urem': lambda: ux % uy}[op]()
            return C(r & 1) if w == 1 else C(wrap(r, w))
        except Exception: pass
    if w == 1:
        if op == 'xor' and b == TRUE: return mk_not(a)
        if op == 'xor' and a == TRUE: return mk_not(b)
        if op == 'and':
            if a == FALSE or b == FALSE: return FALSE
            if a == TRUE: return b
            if b == TRUE: return a
            return ('and1', a, b)
        if op == 'or':
            if a == TRUE or b == TRUE: return TRUE
            if a == FALSE: return b
            if b == FALSE: return a
            return ('or1', a, b)
    if op == 'add':
        if b[0] == 'c': return lin(a, b[1], w)
        if a[0] == 'c': return lin(b, a[1], w)
    if op == 'sub':
        if b[0] == 'c': return lin(a, -b[1], w)
        if a == b: return C(0)
        ka = a[2] if a[0] in ('lin', 'p') else 0; kb = b[2] if b[0] in ('lin', 'p') else 0
        xa = a[1] if a[0] in ('lin', 'p') else a; xb = b[1] if b[0] in ('lin', 'p') else b
        if xa == xb: return C(wrap(ka - kb, w))
        # (x + y) - y
        if a[0] == 'op' and a[1] == 'add':
            if a[2] == b: return a[3]
            if a[3] == b: return a[2]
        if (ka or kb): return lin(('op', 'sub', xa, xb), ka - kb, w)
    if op == 'or' and b == C(0): return a
    if op == 'or' and a == C(0): return b
    if op in ('and', 'mul') and (a == C(0) or b == C(0)): return C(0)
    if op in ('shl', 'lshr', 'ashr', 'xor') and b == C(0): return a
    if op in ('and', 'xor'):
        x, m = (b, a) if a[0] == 'c' else (a, b)
        if m[0] == 'c' and x[0] == 'op' and x[1] in ('or', 'xor') and 'c' in (x[2][0], x[3][0]):
            y, c = (x[3], x[2]) if x[2][0] == 'c' else (x[2], x[3])
            if op == 'and' and x[1] == 'xor': return mk_op('xor', mk_op('and', y, m, w), mk_op('and', c, m, w), w)
            if op == 'and' and m[1] & c[1] == m[1]: return m
            if op == 'and' and m[1] & c[1] == 0: return mk_op('and', y, m, w)
            if op == 'xor' and x[1] == 'xor': return mk_op('xor', y, mk_op('xor', c, m, w), w)
            if op == 'xor' and m == c: return mk_op('and', y, C(wrap(~m[1], w)), w)
    if op in COMM and repr(a) > repr(b): a, b = b, a
    if op == 'add':
        # x + (y - x)
        for x, y in ((a, b), (b, a)):
            if y[0] == 'op' and y[1] == 'sub' and y[3] == x: return y[2]
        # pull constants out
        ka = a[2] if a[0] == 'lin' else 0; kb = b[2] if b[0] == 'lin' else 0
        if ka or kb:
            xa = a[1] if a[0] == 'lin' else a; xb = b[1] if b[0] == 'lin' else b
            if repr(xa) > repr(xb): xa, xb = xb, xa
            return lin(('op', 'add', xa, xb), ka + kb, w)
    return ('op', op, a, b)

def mk_tr(t, w):
    """the low w bits"""
    if t[0] == 'c': return C(wrap(t[1], w))
    if t[0] in ('ze', 'se'): return t[2] if t[1] == w else mk_tr(t[2], w) if t[1] > w else t
    if t[0] == 'lin': return lin(mk_tr(t[1], w), t[2], w)
    if t[0] == 'op' and t[1] in ('add', 'sub', 'mul', 'and', 'or', 'xor'): return mk_op(t[1], mk_tr(t[2], w), mk_tr(t[3], w), w)
    if t[0] == 'tr': return ('tr', w, t[2])
    return ('tr', w, t)

# ------------------------------------------------------------------ functions
def promise_of(h):
    h = strip(h)
    if h[0] == 'hof': return h[1]
    return ptr(('promise', h))
def handle_of(p):
    if p[0] == 'p' and p[1][0] == 'promise' and p[2] == 0: return p[1][1]
    return ('hof', p)

class Fn:
    def __init__(self, j):
        self.j = j; self.name = j['name']; self.dem = j['dem']; self.blocks = j['blocks']; self.coro = j['coro']
        self.nounwind = j['nounwind']
        n = len(self.blocks)
        self.succ = [self._succ(b[-1]) for b in self.blocks]
        self.pred = [[] for _ in range(n)]
        for i, ss in enumerate(self.succ):
            for s in ss: self.pred[s].append(i)
        self._liveness(); self._loops(); self._escape()
    @staticmethod
    def _succ(t):
        op = t['op']
        if op == 'br': return list(t['s'])
        if op == 'switch': return [c[1] for c in t['cases']] + [t['default']]
        if op == 'invoke': return [t['normal'], t['unwind']]
        return []
    @staticmethod
    def uses(o, acc):
        if isinstance(o, dict):
            if o.get('k') == 'v': acc.add(o['n'])
            else:
                for x in o.values():
                    if isinstance(x, (dict, list)): Fn.uses(x, acc)
        elif isinstance(o, list):
            for x in o:
                if isinstance(x, (dict, list)): Fn.uses(x, acc)
    def _liveness(self):
        n = len(self.blocks); use = [set() for _ in range(n)]; de = [set() for _ in range(n)]
        phiuse = [dict() for _ in range(n)]; phidef = [set() for _ in range(n)]
        for i, b in enumerate(self.blocks):
            for ins in b:
                if ins['op'] == 'phi':
                    phidef[i].add(ins['id'])
                    for p, v in ins['a']:
                        s = set(); Fn.uses(v, s); phiuse[i].setdefault(p, set()).update(s)
                    de[i].add(ins['id']); continue
                s = set(); Fn.uses(ins.get('a', []), s)
                if 'target' in ins: Fn.uses(ins['target'], s)
                if 'var' in ins: Fn.uses(ins['var'], s)
                use[i] |= s - de[i]
                if 'id' in ins: de[i].add(ins['id'])
        livein = [set() for _ in range(n)]
        ch = True
        while ch:
            ch = False
            for i in range(n - 1, -1, -1):
                out = set()
                for s in self.succ[i]:
                    out |= (livein[s] - phidef[s]) | phiuse[s].get(i, set())
                # live at block start, before phis: (phis are evaluated on the edge)
                l = use[i] | (out - de[i]) | phidef[i] & (use[i] | out | phidef[i])
                if l != livein[i]: livein[i] = l; ch = True
        self.livein = livein
    def _loops(self):
        # back edges by DFS
        self.back = set(); color = {}
        st = [(0, iter(self.succ[0]))]; color[0] = 1
        while st:
            u, it = st[-1]
            for v in it:
                if color.get(v, 0) == 0:
                    color[v] = 1; st.append((v, iter(self.succ[v]))); break
                if color[v] == 1: self.back.add((u, v))
            else:
                color[u] = 2; st.pop()
        self.heads = {v for _, v in self.back}
    def _escape(self):
        """allocas whose address escapes (flow-insensitive)"""
        defs = {}
        for b in self.blocks:
            for ins in b:
                if 'id' in ins: defs[ins['id']] = ins
        self.defs = defs
        derived = {}
        for i, ins in defs.items():
            if ins['op'] == 'alloca': derived[i] = {i}
        ch = True
        while ch:
            ch = False
            for i, ins in defs.items():
                if ins['op'] in ('getelementptr', 'phi', 'select', 'bitcast', 'addrspacecast', 'ptrtoint', 'inttoptr'):
                    s = set(); Fn.uses(ins['a'], s)
                    r = set().union(*[derived.get(x, set()) for x in s]) if s else set()
                    if r and not r <= derived.get(i, set()):
                        derived[i] = derived.get(i, set()) | r; ch = True
        esc = set()
        for b in self.blocks:
            for ins in b:
                if ins['op'] == 'store':
                    s = set(); Fn.uses(ins['a'][0], s)
                    for x in s: esc |= derived.get(x, set())
                elif ins['op'] in ('call', 'invoke'):
                    c = ins['callee']
                    if c.startswith('llvm.lifetime') or c.startswith('llvm.memcpy') or c.startswith('llvm.memset') or c.startswith('llvm.memmove'): continue
                    s = set(); Fn.uses(ins['a'], s)
                    for x in s: esc |= derived.get(x, set())
                elif ins['op'] in ('cmpxchg', 'atomicrmw'):
                    s = set(); Fn.uses(ins['a'][1:], s)
                    for x in s: esc |= derived.get(x, set())
                elif ins['op'] in ('insertvalue', 'ret'):
                    s = set(); Fn.uses(ins['a'], s)
                    for x in s: esc |= derived.get(x, set())
        self.escaped = esc

class State:
    __slots__ = ('env', 'mem', 'eq', 'ne', 'rng', 'tr', 'ts', 'trail', 'dirty')
    def __init__(self):
        self.env = {}; self.mem = {}; self.eq = {}; self.ne = {}; self.rng = {}; self.tr = {}; self.ts = None; self.trail = ()
    def copy(self):
        s = State.__new__(State)
        s.env = dict(self.env); s.mem = dict(self.mem); s.eq = dict(self.eq); s.ne = dict(self.ne)
        s.rng = dict(self.rng); s.tr = dict(self.tr); s.ts = self.ts; s.trail = self.trail
        return s
    def key(self):
        return (self.ts, frozenset(self.env.items()), frozenset(self.mem.items()), frozenset(self.eq.items()),
                frozenset((k, v) for k, v in self.ne.items()), frozenset(self.rng.items()), frozenset(self.tr.items()))

    # ---- facts
    def canon(self, t):
        t = strip(t)
        if t in self.eq: return C(self.eq[t])
        return t
    def subst(self, t, depth=0):
        """replace sub-terms known to equal constants"""
        if not self.eq or depth > 6: return t
        t2 = strip(t)
        if t2 in self.eq: return C(self.eq[t2])
        if t[0] == 'lin':
            b = self.subst(t[1], depth + 1)
            return lin(b, t[2]) if b is not t[1] else t
        if t[0] == 'p':
            b = self.subst(t[1], depth + 1)
            return padd(b, t[2]) if b is not t[1] and b[0] == 'c' else t
        if t[0] == 'op' and len(t) == 4:
            a, b = self.subst(t[2], depth + 1), self.subst(t[3], depth + 1)
            return mk_op(t[1], a, b, 64) if (a is not t[2] or b is not t[3]) else t
        if t[0] == 'zx':
            b = self.subst(t[1], depth + 1)
            return b if b[0] == 'c' else t
        if t[0] == 'cmp':
            a, b = self.subst(t[2], depth + 1), self.subst(t[3], depth + 1)
            return mk_cmp(t[1], a, b, t[4]) if (a is not t[2] or b is not t[3]) else t
        if t[0] == 'not': return mk_not(self.subst(t[1], depth + 1))
        return t
    def ev(self, t):
        """truth of a boolean term: True / False / None"""
        if t[0] == 'c': return bool(t[1] & 1) if t[1] in (0, 1, -1) else bool(t[1])
        if t[0] == 'not':
            r = self.ev(t[1]); return None if r is None else not r
        if t[0] == 'and1':
            a, b = self.ev(t[1]), self.ev(t[2])
            if a is False or b is False: return False
            return True if a and b else None
        if t[0] == 'or1':
            a, b = self.ev(t[1]), self.ev(t[2])
            if a or b: return True
            return False if a is False and b is False else None
        if t[0] == 'cmp':
            r = self.tr.get(t)
            if r is not None: return r
            if t[1] == 'ne':
                r = self.tr.get(('cmp', 'eq') + t[2:])
                if r is not None: return not r
        t2 = self.subst(t)
        if t2[0] == 'c' : return bool(t2[1])
        if t2[0] == 'not': return (lambda r: None if r is None else not r)(self.ev1(t2[1]))
        if t2[0] in ('and1', 'or1'): return self.ev(t2)
        return self.ev1(t2)
    def ev1(self, t):
        if t[0] == 'cmp':
            pred, a, b = t[1], t[2], t[3]
            if b[0] == 'c':
                if pred in ('eq', 'ne'):
                    if a in self.ne and b[1] in self.ne[a]: return pred == 'ne'
                    if a in self.rng:
                        lo, hi = self.rng[a]; u = b[1] & ((1 << t[4]) - 1)
                        if u < lo or u > hi: return pred == 'ne'
                if pred == 'ult':
                    u = b[1] & ((1 << t[4]) - 1)
                    if a in self.rng:
                        lo, hi = self.rng[a]
                        if hi < u: return True
                        if lo >= u: return False
                    if a in self.ne and 0 < u <= 8 and all(i in self.ne[a] for i in range(u)): return False
            if pred == 'ne':
                r = self.tr.get(('cmp', 'eq', a, b, t[4])); return None if r is None else not r
            return self.tr.get(t)
        if t in self.eq: return bool(self.eq[t])
        if t in self.ne and 0 in self.ne[t]: return True
        return self.tr.get(t)
    def assume(self, t, val):
        """returns False if contradictory"""
        r = self.ev(t)
        if r is not None: return r == val
        if t[0] == 'not': return self.assume(t[1], not val)
        if t[0] == 'and1' and val: return self.assume(t[1], True) and self.assume(t[2], True)
        if t[0] == 'or1' and not val: return self.assume(t[1], False) and self.assume(t[2], False)
        if t[0] == 'and1' and not val:
            if self.ev(t[1]) is True: return self.assume(t[2], False)
            if self.ev(t[2]) is True: return self.assume(t[1], False)
        if t[0] == 'or1' and val:
            if self.ev(t[1]) is False: return self.assume(t[2], True)
            if self.ev(t[2]) is False: return self.assume(t[1], True)
        t = self.subst(t)
        if t[0] == 'not': return self.assume(t[1], not val)
        if t[0] == 'cmp':
            pred, a, b, w = t[1:]
            if pred == 'ne': pred, val = 'eq', not val
            if b[0] == 'c':
                u = b[1] & ((1 << w) - 1)
                if pred == 'eq':
                    if val: self.seteq(a, b[1])
                    else:
                        self.ne[a] = self.ne.get(a, frozenset()) | {b[1]}
                        if a in self.rng:
                            lo, hi = self.rng[a]
                            if u == lo: lo += 1
                            if u == hi: hi -= 1
                            if lo > hi: return False
                            self.rng[a] = (lo, hi)
                            if lo == hi: self.seteq(a, wrap(lo, w))
                    return True
                if pred == 'ult':
                    lo, hi = self.rng.get(a, (0, (1 << w) - 1))
                    if a in self.ne and 0 in self.ne[a] and lo == 0: lo = 1
                    if val: hi = min(hi, u - 1)
                    else: lo = max(lo, u)
                    if lo > hi: return False
                    self.rng[a] = (lo, hi)
                    if lo == hi: self.seteq(a, wrap(lo, w))
                    return True
            self.tr[('cmp', pred, a, b, w)] = val
            return True
        self.tr[t] = val
        if not is_bool(t): pass
        return True
    def seteq(self, a, c):
        a = strip(a)
        if a[0] == 'lin': a, c = a[1], wrap(c - a[2])
        if a[0] == 'zx': a = a[1]
        if is_bool(a): self.tr[a] = bool(c); return
        self.eq[a] = c
        self.ne.pop(a, None); self.rng.pop(a, None)
        # what equals a (or differs from it) now equals (differs from) the constant
        for k, v in list(self.tr.items()):
            if k[0] == 'cmp' and k[1] == 'eq' and (k[2] == a or k[3] == a):
                o = k[3] if k[2] == a else k[2]
                if o[0] == 'c' or o in self.eq: continue
                if v: self.seteq(o, c)
                elif o[0] != 'lin': self.ne[o] = self.ne.get(o, frozenset()) | {c}

class Ev:
    """One event of the analysed program."""
    __slots__ = ('kind', 'ins', 'ptr', 'val', 'old', 'ord', 'ford', 'op', 'callee', 'dem', 'args', 'size', 'loc', 'exp', 'ok', 'res', 'argroots', 'throws')
    def __init__(self, kind, ins, **kw):
        self.kind = kind; self.ins = ins; self.ptr = self.val = self.old = self.ord = self.ford = self.op = self.callee = self.dem = None
        self.args = (); self.size = 0; self.loc = ins.get('loc') or []; self.exp = self.ok = self.res = None; self.throws = False
        for k, v in kw.items(): setattr(self, k, v)
    @property
    def root(self): return norm_ptr(self.ptr)[0] if self.ptr is not None else None
    @property
    def off(self): return norm_ptr(self.ptr)[1] if self.ptr is not None else None

ACQ = {'acquire', 'acq_rel', 'seq_cst'}
REL = {'release', 'acq_rel', 'seq_cst'}

def locstr(loc):
    for f, l, fn in loc:
        if '/macoro/' in f or f.startswith('macoro/'): return '%s:%d' % (f.split('/repo/')[-1], l)
    if loc: return '%s:%d' % (loc[0][0], loc[0][1])
    return '?'
def locfull(loc):
    return ' < '.join('%s:%d' % (f.split('/repo/')[-1], l) for f, l, fn in loc if '/usr/' not in f) or locstr(loc)

class Rule:
    """Base: a rule sees every event on every feasible path."""
    gens = 3                                               # live instances told apart per instruction
    widths = False                                         # keep zero/sign extensions and truncations apart
    unroll = 64                                            # loop-carried constants kept apart up to this
    caught = False                                         # current_exception() is called while handling one
    concrete = False                                       # memory is known: loops are followed round by round
    slim = False                                           # forget memory behind pointers nobody holds, number instances canonically
    def prune(self, st, live): return st.ts                # live: terms the program can still refer to
    def edge(self, st, src, dst, phis, cx): return st.ts   # values phi nodes take on a control flow edge
    def init(self, fn, flow): return ()
    def starts(self, st, flow): return (st,)                # states the function is entered in
    def event(self, st, ev, cx): return st.ts           # may return list of typestates
    def exit(self, st, kind, ret, cx): pass               # kind: ret, unwind, suspend, abort
    def branch(self, st, cond, val, cx): return st.ts      # a branch was taken
    def step(self, st, ins, new, cx): pass                  # a loop-carried value advances (before widening)
    # -- hooks
    def local_call(self, dem, callee): return False        # touches only direct pointees
    def local_size(self, dem): return 16
    def pure_call(self, dem, callee): return False
    def call_result(self, st, ev, cx): return None          # term or None

NOCLOBBER = {'pthread_mutex_unlock', '_ZNSt15__exception_ptr13exception_ptr9_M_addrefEv', '_ZNSt15__exception_ptr13exception_ptr10_M_releaseEv', '_Znwm', '_Znam', '_ZdaPv', '_ZdaPvm', '_ZdlPv', '_ZdlPvm', '_ZnwmSt11align_val_t', '_ZdlPvmSt11align_val_t'}
class TooBig(Exception): pass
DEAD = ('dead-path',)      # returned by a rule to drop a path

class Flow:
    def __init__(self, fn, rule, cap=200, max_steps=400000, globals_=None):
        self.fn = fn; self.rule = rule; self.cap = cap; self.max_steps = max_steps
        self.violations = []; self.seenv = set()
        self.stats = dict(states=0, blocks=len(fn.blocks), instrs=sum(len(b) for b in fn.blocks), events=0, paths=0)
        self.cov = set()
    # ---- reporting
    def violate(self, st, msg, ev=None):
        loc = locstr(ev.loc) if ev is not None else '?'
        k = (msg, loc)
        if k in self.seenv: return
        self.seenv.add(k)
        tr = []
        t = st.trail
        while t: tr.append(t[1]); t = t[0]
        tr.reverse()
        self.violations.append(dict(msg=msg, loc=loc, where=locfull(ev.loc) if ev is not None else '', fn=self.fn.dem, path=tr))
    # ---- values
    def val(self, st, o):
        k = o['k']
        if k == 'v':
            t = st.env.get(o['n'])
            if t is None: t = ('s', 'v', o['n'], 0)
            return t
        if k == 'c':
            v = o['v']
            if o.get('w') == 1: v &= 1
            return C(v)
        if k == 'a': return self.argterm(o['i'])
        if k == 'g': return ptr(('g', o['n']))
        if k == 'cgep':
            return padd(self.val(st, o['b']), o['o'])
        if k == 'undef': return UNDEF
        if k == 'zero': return ('agg0',)
        if k == 'agg': return ('agg',) + tuple((i, self.val(st, x)) for i, x in enumerate(o['a']))
        if k == 'cexpr':
            if o['op'] in ('inttoptr', 'ptrtoint', 'bitcast'): return self.val(st, o['a'][0])
            return ('cx', o['op']) + tuple(self.val(st, x) for x in o['a'])
        if k == 'big': return ('big', o['v'])
        return ('other', o.get('s', k))
    def argterm(self, i):
        if self.fn.j['args'][i]['t'] == 'ptr': return ptr(('arg', i))
        return ('argv', i)
    def fresh(self, st, kind, iid):
        """a new symbol for this execution of instruction iid"""
        near = set(); far = set()
        for t in st.env.values(): subterms(t, near)
        subterms(st.ts, near)
        for k, v in st.mem.items(): subterms(k, far); subterms(v, far)
        for d in (st.eq, st.ne, st.rng, st.tr):
            for t in d: subterms(t, far)
        gens = [('s', kind, iid, g) for g in range(self.rule.gens)]
        for s in gens:
            if s not in near and s not in far: return s
        # every generation is taken: forget one that only memory or facts mention, else the first
        s = next((s for s in gens if s not in near), gens[0])
        self.forget(st, s)
        return s
    def forget(self, st, sym):
        stale = ('stale', sym[1], sym[2])
        def rep(t):
            if t == sym: return stale
            if isinstance(t, tuple): return tuple(rep(x) if isinstance(x, tuple) else x for x in t)
            return t
        def has(t):
            if t == sym: return True
            return isinstance(t, tuple) and any(isinstance(x, tuple) and has(x) for x in t)
        st.env = {k: (rep(v) if has(v) else v) for k, v in st.env.items()}
        st.mem = {k: v for k, v in st.mem.items() if not has(k) and not has(v)}
        for n in ('eq', 'ne', 'rng', 'tr'):
            d = getattr(st, n)
            setattr(st, n, {k: v for k, v in d.items() if not has(k)})
        def rept(t):
            if t == sym: return stale
            if isinstance(t, tuple): return tuple(rept(x) for x in t)
            if isinstance(t, frozenset): return frozenset(rept(x) for x in t)
            return t
        st.ts = rept(st.ts)
    # ---- memory
    def is_local(self, root):
        return root[0] == 'al' and root[1] not in self.fn.escaped
    def mread(self, st, p, size, ins, atomic=False):
        root, off = norm_ptr(p)
        c = st.mem.get((root, off))
        if c is not None and c[0] == size: return c[1]
        if c is not None and c[0] > size and c[1][0] == 'c': return C(wrap(c[1][1], size * 8)) if size < 8 else c[1]
        if root[0] == 'al':
            # zero/undef initial contents of a local
            pass
        t = self.fresh(st, 'ld', ins['id'])
        if not atomic: self.mwrite(st, p, size, t, kill=False)
        return t
    def mwrite(self, st, p, size, t, kill=True):
        root, off = norm_ptr(p)
        for (r, o) in [k for k in st.mem if k[0] == root]:
            s = st.mem[(r, o)][0]
            if o < off + size and off < o + s: del st.mem[(r, o)]
        st.mem[(root, off)] = (size, t)
    def mclobber(self, st, root=None, lo=None, hi=None, keep=()):
        if root is None:
            st.mem = {k: v for k, v in st.mem.items() if self.is_local(k[0]) or k[0] in keep}
        else:
            st.mem = {k: v for k, v in st.mem.items() if not (k[0] == root and (lo is None or (k[1] < hi and lo < k[1] + v[0])))}
    def mcopy(self, st, dst, src, n):
        dr, do = norm_ptr(dst); sr, so = norm_ptr(src)
        cells = [(k[1], v) for k, v in st.mem.items() if k[0] == sr and so <= k[1] and k[1] + v[0] <= so + n]
        self.mclobber(st, dr, do, do + n)
        for o, v in cells: st.mem[(dr, do + o - so)] = v
    # ---- run
    def run(self):
        fn = self.fn; rule = self.rule
        s0 = State(); s0.ts = rule.init(fn, self)
        self.seen = [set() for _ in fn.blocks]; self.atblock = [[] for _ in fn.blocks]
        self.wl = deque(); self.steps = 0
        for s1 in rule.starts(s0, self): self.push(0, s1)
        while self.wl:
            bi, st = self.wl.popleft()
            self.steps += 1
            if self.violations:
                self.after = getattr(self, 'after', 0) + 1
                if self.after > 4000: break                     # what was found is enough
            if self.steps > self.max_steps: raise TooBig(fn.dem)
            self.cov.add(bi)
            self.block(bi, st)
        self.stats['states'] = self.steps; self.stats['blocks_reached'] = len(self.cov)
        return self.violations
    def push(self, bi, st):
        self.prune(bi, st)
        k = st.key()
        if k in self.seen[bi]: return
        if len(self.seen[bi]) > self.cap:
            # join with what was seen under the same typestate
            tag = ('J', st.ts)
            j = self.atblock[bi]
            for i, (ts, old) in enumerate(j):
                if ts == st.ts:
                    n = self.join(old, st, bi)
                    nk = n.key()
                    if nk == old.key(): return
                    j[i] = (ts, n); self.seen[bi].add(nk); self.wl.append((bi, n)); return
            # join everything seen so far is not kept; start from this one weakened
            j.append((st.ts, st.copy()))
        self.seen[bi].add(k)
        self.wl.append((bi, st))
    def join(self, a, b, bi):
        n = State(); n.ts = a.ts; n.trail = b.trail
        for k in a.env:
            if k in b.env: n.env[k] = a.env[k] if a.env[k] == b.env[k] else ('s', 'j', k, bi)
        for k in b.env:
            if k not in n.env: n.env[k] = ('s', 'j', k, bi)
        n.mem = {k: v for k, v in a.mem.items() if b.mem.get(k) == v}
        n.eq = {k: v for k, v in a.eq.items() if b.eq.get(k) == v}
        n.tr = {k: v for k, v in a.tr.items() if b.tr.get(k) == v}
        n.ne = {}
        for k, v in a.ne.items():
            w = b.ne.get(k)
            if w is None and k in b.eq and b.eq[k] not in v: w = v
            if w and v & w: n.ne[k] = v & w
        for k, v in b.ne.items():
            if k not in n.ne and k in a.eq and a.eq[k] not in v: n.ne[k] = v
        for k, v in a.rng.items():
            w = b.rng.get(k)
            if w: n.rng[k] = (min(v[0], w[0]), max(v[1], w[1]))
        # join symbols carry no facts
        for nme in ('eq', 'ne', 'rng', 'tr'):
            d = getattr(n, nme)
            for k in list(d):
                acc = set(); subterms(k, acc)
                if any(x[0] == 's' and len(x) == 4 and x[1] == 'j' and x[3] == bi for x in acc if isinstance(x, tuple) and x): del d[k]
        return n
    def prune(self, bi, st):
        live = self.fn.livein[bi]
        st.env = {k: v for k, v in st.env.items() if k in live}
        if type(self.rule).prune is not Rule.prune:
            acc = set()
            for t in st.env.values(): subterms(t, acc)
            for k, v in st.mem.items():
                if k[0][0] in ('al', 'arg'): subterms(v, acc)
            st.ts = self.rule.prune(st, acc)
        if self.rule.slim: self.slim(st)
        if st.eq or st.ne or st.rng or st.tr:
            acc = set()
            for t in st.env.values(): subterms(t, acc)
            for k, v in st.mem.items(): subterms(k, acc); subterms(v, acc)
            subterms(st.ts, acc)
            def alive(t):
                if t in acc or t[0] in ('argv', 'arg') or (t[0] == 'p' and t[1][0] == 'arg'): return True
                if t[0] in ('cmp',): return alive(t[2]) and (t[3][0] == 'c' or alive(t[3]))
                if t[0] in ('lin', 'zx', 'not'): return alive(t[1])
                if t[0] in ('ze', 'se', 'tr'): return alive(t[2])
                if t[0] == 'pc': return all(x[0] == 'c' or alive(x) for x in t[2:])
                if t[0] == 'op': return any(alive(x) for x in t[2:] if x[0] != 'c')
                return False
            for nme in ('eq', 'ne', 'rng', 'tr'):
                d = getattr(st, nme)
                if d: setattr(st, nme, {k: v for k, v in d.items() if alive(k)})
    def grows(self, st, i, t):
        """a pointer that moves within one object from one iteration to the next"""
        if not self.rule.slim: return True
        c = self.fn.__dict__.setdefault('_grow', {})
        if i not in c:
            seen = set(); todo = [(v, False) for _, v in self.fn.defs[i]['a']]; c[i] = False
            while todo:
                v, g = todo.pop()
                if v.get('k') != 'v' or (v['n'], g) in seen: continue
                if v['n'] == i:
                    if g: c[i] = True; break
                    continue
                seen.add((v['n'], g)); d = self.fn.defs.get(v['n'])
                if d is None: continue
                if d['op'] == 'getelementptr': todo.append((d['a'][0], True))
                elif d['op'] in ('bitcast', 'zext', 'sext', 'trunc', 'freeze', 'inttoptr', 'ptrtoint'): todo.append((d['a'][0], g))
                elif d['op'] in ('add', 'sub', 'mul', 'shl', 'lshr', 'ashr', 'and', 'or', 'xor', 'udiv', 'urem', 'sdiv', 'srem'): todo.extend((x, True) for x in d['a'])
                elif d['op'] == 'phi': todo.extend((x, g) for _, x in d['a'])
                elif d['op'] == 'call' and d['callee'].startswith('llvm.'): todo.extend((x, True) for x in d['a'])
                elif d['op'] == 'select': todo.extend((x, g) for x in d['a'][1:])
        return c[i]
    @staticmethod
    def rename(x, a, b):
        def R(t):
            if t == a: return b
            if a[0] == 'lin' and isinstance(t, tuple) and len(t) == 3 and t[0] == 'lin' and t[1] == a[1] and 0 < t[2] - a[2] <= 3: return ('lin', b, t[2] - a[2])
            if isinstance(t, frozenset): return frozenset(R(y) for y in t)
            if isinstance(t, tuple): return tuple(R(y) for y in t)
            return t
        return R(x)
    def slim(self, st):
        near = set()
        for t in st.env.values(): subterms(t, near)
        subterms(st.ts, near)
        st.mem = {k: v for k, v in st.mem.items() if k[0][0] in ('al', 'arg', 'g', 'promise') or k[0] in near}
        order = []; seen = set()
        def visit(t):
            if isinstance(t, frozenset):
                for x in sorted(t, key=repr): visit(x)
                return
            if not isinstance(t, tuple): return
            if len(t) == 4 and t[0] == 's':
                if t not in seen: seen.add(t); order.append(t)
                return
            for x in t: visit(x)
        for k in sorted(st.env): visit(st.env[k])
        n = len(order)
        cells = sorted(st.mem, key=lambda k: (k[0][0] == 's', repr(k)))
        for k in cells:
            if k[0][0] != 's': visit(st.mem[k][1])
        visit(st.ts)
        for k in cells: visit(k[0]); visit(st.mem[k][1])
        cnt = {}; ren = {}
        for t in order:
            k = ('n', 0) if self.rule.slim == 'all' else t[1:3]
            i = cnt.get(k, 0); cnt[k] = i + 1
            if t[1:] != k + (i,): ren[t] = ('s',) + k + (i,)
        if not ren: return
        # symbols only facts mention move out of the way
        memo = {}
        def R(t):
            if isinstance(t, frozenset): return frozenset(R(x) for x in t)
            if not isinstance(t, tuple): return t
            r = memo.get(t)
            if r is None:
                if len(t) == 4 and t[0] == 's': r = ren.get(t, t) if t in seen else ('stale', t[1], t[2])
                else: r = tuple(R(x) if isinstance(x, (tuple, frozenset)) else x for x in t)
                if r[0:1] == ('cmp',) and len(r) == 5 and r[1] in ('eq', 'ne') and r[3][0] != 'c':
                    q = mk_cmp(r[1], r[2], r[3], r[4])
                    if q[0] == 'cmp': r = q
                elif r[0:1] == ('op',) and len(r) == 4 and r[1] in COMM and repr(r[2]) > repr(r[3]): r = ('op', r[1], r[3], r[2])
                memo[t] = r
            return r
        def known(t):
            acc = set(); subterms(t, acc)
            return all(x in seen for x in acc if isinstance(x, tuple) and len(x) == 4 and x[0] == 's')
        st.env = {k: R(v) for k, v in st.env.items()}
        st.mem = {R(k): R(v) for k, v in st.mem.items()}
        for nme in ('eq', 'ne', 'rng', 'tr'):
            d = getattr(st, nme)
            if d: setattr(st, nme, {R(k): v for k, v in d.items() if known(k)})
        st.ts = R(st.ts)
    def goto(self, st, src, dst):
        """evaluate phis on the edge and push"""
        blk = self.fn.blocks[dst]
        vals = []
        backedge = (src, dst) in self.fn.back
        for ins in blk:
            if ins['op'] != 'phi': break
            for p, v in ins['a']:
                if p == src:
                    t = self.val(st, v); break
            else: t = UNDEF
            if dst in self.fn.heads and backedge and not self.rule.concrete:
                # widen growing arithmetic
                if (t[0] in ('lin', 'op', 'zx') and self.grows(st, ins['id'], t)) or (t[0] == 'c' and not -4 <= t[1] <= self.rule.unroll) or (t[0] == 'p' and t[2] != 0 and self.grows(st, ins['id'], t)):
                    self.rule.step(st, ins, t, self)
                    vals.append((ins['id'], ('s', 'phi', ins['id'], 0), t)); continue
            vals.append((ins['id'], t, t))
        # values that advance together stay related
        lead = [(t, o) for i, t, o in vals if o is not t and o[0] == 'lin']
        if lead:
            t0, o0 = lead[0]
            for n, (i, t, o) in enumerate(vals):
                if t is t0: continue
                b, k = (o[1], o[2]) if o[0] == 'lin' else (strip(o), 0)
                if b == o0[1] and abs(k - o0[2]) <= 2: vals[n] = (i, lin(t0, k - o0[2]), o)
        if type(self.rule).edge is not Rule.edge: st.ts = self.rule.edge(st, src, dst, {i: o for i, t, o in vals}, self)
        if self.rule.slim:
            # the rule's own copies of an advancing value are renamed along with it
            for i, t, o in vals:
                if o is not t: st.ts = self.rename(st.ts, o, ('adv', i))
        for i, t, o in vals:
            if o is not t and t[0] == 's': self.forget(st, t)
        for i, t, o in vals:
            st.env[i] = t
            if o is not t and self.rule.slim: st.ts = self.rename(st.ts, ('adv', i), t)
        self.push(dst, st)
    def emit(self, st, ev):
        """give the event to the rule; returns list of states"""
        self.stats['events'] += 1
        self._ev = ev
        r = self.rule.event(st, ev, self)
        if r is DEAD: return []
        if isinstance(r, list):
            out = []
            for ts in r:
                s = st.copy(); s.ts = ts; out.append(s)
            return out
        if r != st.ts:
            st.ts = r
            d = ev.dem or ev.callee or ''
            st.trail = (st.trail, '%s %s @%s' % (ev.kind, (d[:60] if d else (ev.ord or '')), locstr(ev.loc)))
        return [st]
    def do_exit(self, st, kind, ret, ins):
        self.stats['paths'] += 1
        self._ev = Ev('exit', ins)
        self.rule.exit(st, kind, ret, self)
    # ---- transfer
    def block(self, bi, st0):
        states = [st0]
        blk = self.fn.blocks[bi]
        for ins in blk:
            if ins['op'] == 'phi': continue
            nxt = []
            for st in states:
                nxt.extend(self.step(bi, st, ins))
            states = nxt
            if not states: return
    def step(self, bi, st, ins):
        op = ins['op']
        f = getattr(self, 'i_' + op, None)
        if f: return f(bi, st, ins)
        # generic value
        if 'id' in ins:
            a = tuple(self.val(st, o) if isinstance(o, dict) else ('n', o) for o in ins.get('a', []))
            st.env[ins['id']] = ('x', op, ins['t']) + a
        return [st]
    def i_alloca(self, bi, st, ins):
        st.env[ins['id']] = ptr(('al', ins['id'])); return [st]
    def i_getelementptr(self, bi, st, ins):
        b = self.val(st, ins['a'][0])
        if 'var' in ins:
            vs = [(self.val(st, v), s) for v, s in ins['var']]
            off = ins['off']; rest = []
            for v, s in vs:
                v = st.canon(v)
                if v[0] == 'c': off += v[1] * s
                else: rest.append((v, s))
            if not rest: st.env[ins['id']] = padd(b, off); return [st]
            if b[0] != 'p': b = ('p', b, 0)
            st.env[ins['id']] = ('p', ('gep', b[1], b[2], tuple(rest)), off)
            return [st]
        if 'off' not in ins: st.env[ins['id']] = ('x', 'gep', b); return [st]
        st.env[ins['id']] = padd(b, ins['off']); return [st]
    def cast(self, bi, st, ins):
        st.env[ins['id']] = self.val(st, ins['a'][0]); return [st]
    i_bitcast = i_ptrtoint = i_inttoptr = i_addrspacecast = i_freeze = cast
    def i_zext(self, bi, st, ins):
        t = self.val(st, ins['a'][0])
        if self.rule.widths and ins['st'] != 'i1' and t[0] != 'c': t = ('ze', width(ins['st']), strip(t))
        elif ins['st'] == 'i1':
            t = t if t[0] == 'c' else ('zx', t)
        elif t[0] == 'c':
            t = C(t[1] & ((1 << width(ins['st'])) - 1))
        st.env[ins['id']] = t; return [st]
    def i_sext(self, bi, st, ins):
        t = self.val(st, ins['a'][0])
        if self.rule.widths and ins['st'] != 'i1' and t[0] != 'c': t = ('se', width(ins['st']), strip(t))
        elif ins['st'] == 'i1': t = C(-t[1]) if t[0] == 'c' else ('op', 'sub', C(0), ('zx', t))
        st.env[ins['id']] = t; return [st]
    def i_trunc(self, bi, st, ins):
        t = self.val(st, ins['a'][0])
        if t[0] == 'c': t = C(wrap(t[1], width(ins['t']))) if ins['t'] != 'i1' else C(t[1] & 1)
        elif ins['t'] == 'i1':
            if t[0] == 'zx': t = t[1]
            else: t = mk_cmp('ne', ('op', 'and', t, C(1)) if ins['st'] != 'i8' else t, C(0), width(ins['st']))
        elif t[0] == 'zx': pass
        elif self.rule.widths: t = mk_tr(strip(t), width(ins['t']))
        st.env[ins['id']] = t; return [st]
    def i_icmp(self, bi, st, ins):
        a, b = self.val(st, ins['a'][0]), self.val(st, ins['a'][1])
        st.env[ins['id']] = mk_cmp(ins['pred'], a, b, width(ins['st'])); return [st]
    def binop(self, bi, st, ins):
        a, b = self.val(st, ins['a'][0]), self.val(st, ins['a'][1])
        w = width(ins['t'])
        # a truth value in arithmetic: decide it
        z = next((x for x in (a, b) if x[0] == 'zx'), None)
        if z is not None and ins['op'] in ('add', 'sub', 'mul', 'shl'):
            out = []
            for k in (True, False):
                s = st.copy()
                if s.assume(z[1], k):
                    s.env[ins['id']] = mk_op(ins['op'], C(int(k)) if a is z else s.canon(a) if a[0] != 'p' else a, C(int(k)) if b is z else s.canon(b) if b[0] != 'p' else b, w); out.append(s)
            return out
        st.env[ins['id']] = mk_op(ins['op'], st.canon(a) if a[0] != 'p' else a, st.canon(b) if b[0] != 'p' else b, w); return [st]
    i_add = i_sub = i_mul = i_and = i_or = i_xor = i_shl = i_lshr = i_ashr = i_udiv = i_urem = i_sdiv = i_srem = binop
    def i_select(self, bi, st, ins):
        c = self.val(st, ins['a'][0])
        if c == UNDEF or ins['t'].startswith('<'):
            st.env[ins['id']] = ('x', 'select'); return [st]
        out = []
        for b, k in ((True, 1), (False, 2)):
            s = st.copy()
            if s.assume(c, b):
                s.env[ins['id']] = self.val(s, ins['a'][k]); out.append(s)
        return out
    def i_extractvalue(self, bi, st, ins):
        t = self.val(st, ins['a'][0])
        r = None
        if t[0] == 'agg':
            for i, v in t[1:]:
                if [i] == ins['ix']: r = v
        if r is None: r = ('xv', t, tuple(ins['ix']))
        st.env[ins['id']] = r; return [st]
    def i_insertvalue(self, bi, st, ins):
        t, v = self.val(st, ins['a'][0]), self.val(st, ins['a'][1])
        d = dict(t[1:]) if t[0] == 'agg' else {}
        if len(ins['ix']) == 1: d[ins['ix'][0]] = v
        st.env[ins['id']] = ('agg',) + tuple(sorted(d.items())); return [st]
    def i_load(self, bi, st, ins):
        p = self.val(st, ins['a'][0])
        atomic = ins['ord'] != 'not_atomic'
        if p[0] == 'c' and False: pass
        t = self.mread(st, p, ins['sz'], ins, atomic)
        st.env[ins['id']] = t
        ev = Ev('load', ins, ptr=p, size=ins['sz'], ord=ins['ord'] if atomic else None, res=t)
        return self.emit(st, ev)
    def i_store(self, bi, st, ins):
        v, p = self.val(st, ins['a'][0]), self.val(st, ins['a'][1])
        atomic = ins['ord'] != 'not_atomic'
        ev = Ev('store', ins, ptr=p, size=ins['sz'], ord=ins['ord'] if atomic else None, val=v)
        r, o = norm_ptr(p); c = st.mem.get((r, o)); ev.old = c[1] if c else None
        out = self.emit(st, ev)
        for s in out:
            if v[0] == 'agg':
                self.mclobber(s, r, o, o + ins['sz'])
            else: self.mwrite(s, p, ins['sz'], v)
        return out
    def i_atomicrmw(self, bi, st, ins):
        p, v = self.val(st, ins['a'][0]), self.val(st, ins['a'][1])
        old = self.fresh(st, 'rmw', ins['id'])
        st.env[ins['id']] = old
        op = ins['rmw']
        if op == 'sub' and v[0] == 'c': op, v = 'add', C(-v[1])
        w = ins['sz'] * 8
        if op == 'xchg': new = v
        elif op in ('add', 'sub', 'and', 'or', 'xor'): new = mk_op(op, old, v, w)
        else: new = ('op', op, old, v)
        ev = Ev('rmw', ins, ptr=p, size=ins['sz'], ord=ins['ord'], op=op, val=v, old=old, res=new)
        out = self.emit(st, ev)
        for s in out:
            r, o = norm_ptr(p)
            self.mclobber(s, r, o, o + ins['sz'])
        return out
    def i_cmpxchg(self, bi, st, ins):
        p, e, n = (self.val(st, x) for x in ins['a'][:3])
        out = []
        old = self.fresh(st, 'cx', ins['id'])
        for ok in (True, False):
            s = st.copy()
            t = e if ok else old
            s.env[ins['id']] = ('agg', (0, t), (1, TRUE if ok else FALSE))
            if not ok and not ins['weak']:
                if not s.assume(mk_cmp('ne', old, e), True): continue
            ev = Ev('cmpxchg', ins, ptr=p, size=ins['sz'], ord=ins['ord'], ford=ins['ford'], exp=e, val=n, ok=ok, old=t)
            for s2 in self.emit(s, ev):
                r, o = norm_ptr(p)
                self.mclobber(s2, r, o, o + ins['sz'])
                out.append(s2)
        return out
    def i_fence(self, bi, st, ins):
        return self.emit(st, Ev('fence', ins, ord=ins['ord']))
    def i_landingpad(self, bi, st, ins):
        st.env[ins['id']] = self.fresh(st, 'lp', ins['id'])
        return self.emit(st, Ev('landingpad', ins))
    def i_br(self, bi, st, ins):
        if not ins['a']:
            self.goto(st, bi, ins['s'][0]); return []
        c = self.val(st, ins['a'][0])
        for b, k in ((True, 0), (False, 1)):
            s = st.copy()
            if c == UNDEF or s.assume(c, b):
                s.ts = self.rule.branch(s, c, b, self)
                if s.ts != DEAD: self.goto(s, bi, ins['s'][k])
        return []
    def i_switch(self, bi, st, ins):
        c = strip(self.val(st, ins['a'][0]))
        d = st.copy(); dok = True
        for v, b in ins['cases']:
            s = st.copy()
            if s.assume(mk_cmp('eq', c, C(v)), True): self.goto(s, bi, b)
            if dok: dok = d.assume(mk_cmp('eq', c, C(v)), False)
        if dok: self.goto(d, bi, ins['default'])
        return []
    def i_ret(self, bi, st, ins):
        self.do_exit(st, 'ret', self.val(st, ins['a'][0]) if ins['a'] else None, ins); return []
    def i_resume(self, bi, st, ins):
        self.do_exit(st, 'unwind', None, ins); return []
    def i_unreachable(self, bi, st, ins):
        self.do_exit(st, 'abort', None, ins); return []
    PURE = re.compile(r'^(llvm\.(lifetime|dbg|assume|experimental|invariant|objectsize|is\.constant|umul|uadd|usub|sadd|smul|umin|umax|smin|smax|expect|ctlz|cttz|ctpop|abs|bswap|ptrmask|stacksave|stackrestore|coro\.(align|size|subfn\.addr|is_in_ramp|frame)|eh\.typeid|va_)|_ZSt9terminatev|abort|__assert_fail|__clang_call_terminate)')
    def i_call(self, bi, st, ins):
        out, unw = self.callcommon(bi, st, ins)
        for s in unw: self.do_exit(s, 'unwind', None, ins)
        return out
    def i_invoke(self, bi, st, ins):
        out, unw = self.callcommon(bi, st, ins)
        for s in unw: self.goto(s, bi, ins['unwind'])
        for s in out: self.goto(s, bi, ins['normal'])
        return []
    def callcommon(self, bi, st, ins):
        """returns (normal states, unwinding states)"""
        cal = ins['callee']
        args = tuple(self.val(st, a) for a in ins['a'])
        if cal.startswith('llvm.lifetime') or cal.startswith('llvm.experimental.noalias') or cal == 'llvm.donothing' or cal == 'llvm.assume':
            if cal.startswith('llvm.lifetime.start') or cal.startswith('llvm.lifetime.end'):
                r, o = norm_ptr(args[1])
                if r[0] == 'al': self.mclobber(st, r)
            return [st], []
        if cal.startswith('llvm.umin') and 'id' in ins:
            a, b = (strip(x) for x in args)
            if a[0] == 'c': a, b = b, a
            if b[0] == 'c' and a[0] != 'c' and 0 < b[1] < 16:
                outs = []
                for k in (True, False):
                    s = st.copy()
                    if s.assume(mk_cmp('ult', a, b), k): s.env[ins['id']] = s.canon(a) if k else b; outs.append(s)
                return outs, []
        if cal.startswith('llvm.memcpy') or cal.startswith('llvm.memmove'):
            n = args[2]; outs = [st]
            if n[0] == 'c':
                sz = n[1]
                outs = []
                for s in self.emit(st, Ev('load', ins, ptr=args[1], size=sz, op='memcpy')):
                    outs.extend(self.emit(s, Ev('store', ins, ptr=args[0], size=sz, op='memcpy')))
                for s in outs: self.mcopy(s, args[0], args[1], sz)
            else:
                for s in self.emit(st, Ev('load', ins, ptr=args[1], size=1, op='memcpy')): s
                outs = self.emit(st, Ev('store', ins, ptr=args[0], size=1, op='memcpy'))
                for s in outs: self.mclobber(s, norm_ptr(args[0])[0])
            return outs, []
        if cal.startswith('llvm.memset'):
            n = args[2]
            outs = self.emit(st, Ev('store', ins, ptr=args[0], size=n[1] if n[0] == 'c' else 1, op='memset', val=args[1]))
            for s in outs:
                r, o = norm_ptr(args[0])
                if n[0] == 'c':
                    self.mclobber(s, r, o, o + n[1])
                    if args[1] == C(0) and n[1] <= 256 and n[1] % 8 == 0:
                        for k in range(0, n[1], 8): s.mem[(r, o + k)] = (8, C(0))
                else: self.mclobber(s, r)
            return outs, []
        dem = ins.get('dem', '') if cal else ''
        ev = Ev('call', ins, callee=cal, dem=dem, args=args)
        if not cal:
            ev.kind = 'icall'; ev.ptr = self.val(st, ins['target'])
        ev.throws = not ins.get('nounwind')
        res = None
        rr = self.rule.call_result(st, ev, self)
        if 'id' in ins:
            if rr is not None: res = rr
            elif cal.startswith('llvm.') and self.builtin(st, cal, args, ins) is not None: res = self.builtin(st, cal, args, ins)
            elif cal in ('vf.std_cast',) or cal.startswith('vf.std_cast'): res = args[0]
            elif cal.startswith('vf.promise'): res = promise_of(args[0])
            elif cal.startswith('vf.from_promise'): res = handle_of(args[0])
            elif cal == 'llvm.coro.promise':
                res = handle_of(args[0]) if args[2] == C(1) else promise_of(args[0])
            elif self.rule.pure_call(dem, cal): res = ('pc', dem or cal) + args
            else: res = self.fresh(st, 'call', ins['id'])
            st.env[ins['id']] = res
        ev.res = res
        exc = None
        if self.rule.caught and cal == '_ZSt17current_exceptionv' and args:      # called in a handler: there is an exception
            exc = self.fresh(st, 'exc', ins.get('n', 0)); ev.res = exc; st.assume(mk_cmp('ne', exc, C(0)), True)
        unw = []
        may_throw = ev.throws and not cal.startswith('llvm.')
        if may_throw and not (self.fn.nounwind and ins['op'] == 'call'):
            u = st.copy()
            eu = Ev('unwind', ins, callee=cal, dem=dem, args=args, ptr=ev.ptr)
            us = self.emit(u, eu)
            for s in us:
                self.effects(s, ins, cal, dem, args); unw.append(s)
        if ins.get('noreturn') or cal in ('__cxa_throw', '__cxa_rethrow', 'abort', '_ZSt9terminatev'):
            outs = self.emit(st, ev)
            if cal in ('__cxa_throw', '__cxa_rethrow') or (ins.get('noreturn') and may_throw): return ([] if ins['op'] == 'invoke' else []), unw
            return (outs if ins['op'] == 'call' else []), []
        outs = self.emit(st, ev)
        for s in outs:
            if exc is not None: self.mwrite(s, args[0], 8, exc)
            else: self.effects(s, ins, cal, dem, args)
        return outs, unw
    def effects(self, s, ins, cal, dem, args):
        if cal and (self.PURE.match(cal) or cal.startswith('llvm.coro.id') or cal in ('llvm.coro.begin', 'llvm.coro.alloc', 'llvm.coro.free', 'llvm.coro.save', 'llvm.coro.promise', 'llvm.coro.noop', 'llvm.coro.done')): return
        if self.rule.pure_call(dem, cal) or cal.startswith('vf.std_cast') or cal.startswith('vf.promise') or cal.startswith('vf.done') or cal.startswith('vf_') or cal.startswith('vf.nc.') or cal.startswith('vf.from_promise'): return
        if cal.startswith('__cxa_') or cal in NOCLOBBER: return
        if self.rule.local_call(dem, cal):
            sz = self.rule.local_size(dem)
            for a in args:
                if a[0] == 'p':
                    r, o = norm_ptr(a)
                    self.mclobber(s, r, o, o + sz)
            return
        self.mclobber(s, keep=self.rule.private_roots(s) if hasattr(self.rule, 'private_roots') else ())
    def builtin(self, st, cal, args, ins):
        w = width(ins['t'])
        if cal.startswith('llvm.expect'): return args[0]
        if cal.startswith('llvm.umax') or cal.startswith('llvm.umin') or cal.startswith('llvm.smax') or cal.startswith('llvm.smin'):
            a, b = strip(args[0]), strip(args[1])
            if a == b: return a
            lim = {'smin': (1 << (w - 1)) - 1, 'smax': -1 << (w - 1), 'umin': -1, 'umax': 0}[cal[5:9]]
            if a == C(lim): return b
            if b == C(lim): return a
            return ('op', cal[5:9], a, b)
        return None

def load(path):
    import json
    j = json.load(open(path))
    return [Fn(f) for f in j['functions']], j
