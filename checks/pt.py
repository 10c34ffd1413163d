"""The coroutines the library puts around an operation it is given (make_task, make_eager, the operations of
when_all and of scopes): the operation is the given one, awaited exactly once, and its outcome is theirs."""
from body import *
MOVED = re.compile(r'^(Aw[IVRM])::\1\(\1&&\)'); GONE = re.compile(r'^(Aw[IVRM])::~\1\(')
class Same(Body):
    who = dict(AwI='op', AwV='op', AwR='op', AwM='op', AwT='op'); names = dict(op='the operation')
    def __init__(self, pos, owns, valued, tells): self.pos, self.owns, self.valued, self.tells = pos, owns, valued, tells
    def start(self): return dict(at=(('arg', self.pos), 0), told=False, out=None, dead=False)
    def begins(self, st, d, w, ev, V):
        if norm_ptr(ev.args[0]) != d['at'] and not (self.owns and 'AwT::' in ev.dem and norm_ptr(ev.args[0])[0][0] == 'al'): V('awaits something other than the given operation')
        if d['dead']: V('awaits the operation after destroying it')
    def outcome(self, st, d, w, ev): d['res'] = ev.args[0] if 'AwM' in ev.dem else strip(ev.res) if ev.res is not None else 'void'
    def holds(self, st, d, v):
        """is v the result, or where it is?"""
        if d['res'] is None or d['res'] == 'void': return False
        if strip(v) == strip(d['res']): return True
        c = st.mem.get(norm_ptr(v)) if v[0] in ('p', 's') else None
        return bool(c) and strip(c[1]) == d['res']
    def event(self, st, ev, cx):
        d = dict(st.ts)
        if not d['gone'] and d['fin'] != 2:
            V = lambda m: cx.violate(st, m, ev)
            m = MOVED.match(ev.dem or '')
            if m and ev.kind == 'unwind': d['act'] = 'other'; return dict2ts(d)
            if m and ev.kind == 'call':
                if norm_ptr(ev.args[1]) == d['at']:
                    if not self.owns: V('a named operation is taken away')
                    if self.phase(d, 'op') is None: d['at'] = norm_ptr(ev.args[0]); return dict2ts(d)
                return st.ts
            m = GONE.match(ev.dem or '')
            if m and ev.kind == 'call' and norm_ptr(ev.args[0]) == d['at']:
                if self.phase(d, 'op') in ('asked', 'waiting') and not (d['susp'] is not None and st.ev(mk_cmp('eq', d['susp'], C(1), 8)) is True): V('destroys the operation while awaiting it')
                d['dead'] = True; return dict2ts(d)
            if 'VT::VT(VT&&)' in (ev.dem or '') and ev.kind == 'call' and d['pr'] is not None and norm_ptr(ev.args[0])[0] == d['pr']:
                if d['res'] is None or norm_ptr(ev.args[1]) != norm_ptr(d['res']): V('the outcome is not what the operation returned')
                d['kept'] = norm_ptr(ev.args[0])[1]; return dict2ts(d)
            if ev.kind == 'store' and d['pr'] is not None and ev.root == d['pr'] and ev.val is not None and self.holds(st, d, ev.val): d['kept'] = ev.off; return dict2ts(d)
            if ev.kind == 'rmw' and self.phase(d, 'op') in ('over', 'threw'): d['told'] = True; return dict2ts(d)
            if ev.kind == 'call' and ev.callee == 'llvm.coro.suspend' and ev.args[1] == C(0) and self.phase(d, 'op') in ('over', 'threw'):
                d['fin'] = 2; return dict2ts(d)
        return super().event(st, ev, cx)
    def final(self, st, d, V):
        if self.phase(d, 'op') is None and d['exc'] == 'other': return            # the operation threw while being moved
        if self.phase(d, 'op') == 'over' and d['exc'] == 'other': return            # the value threw while being moved
        self.result(st, d, V, 'op', self.valued)
        if self.tells and not d['told']: V('ends without telling who waits')
class Given(Rule):
    """the entry: one such coroutine, for the given operation"""
    caught = True
    def __init__(self, coros, val, a): self.coros, self.val, self.a = coros, val, (('arg', a), 0); self.n = 0
    def init(self, fn, flow): return (self.a, 0)
    def event(self, st, ev, cx):
        at, k = st.ts
        if ev.kind == 'call' and ev.callee in self.coros:
            pos, owns = self.coros[ev.callee]
            if k: cx.violate(st, 'takes the operation on twice', ev)
            if norm_ptr(ev.args[pos]) != at and not (owns and 'AwT' in ev.dem and norm_ptr(ev.args[pos])[0][0] == 'al'): cx.violate(st, 'takes on something other than the given operation', ev)
            if self.val and not owns: cx.violate(st, 'a temporary operation is only referred to', ev)
            if not self.val and owns: cx.violate(st, 'a named operation is taken away', ev)
            return (at, k + 1)
        m = MOVED.match(ev.dem or '')
        if m and ev.kind == 'call':
            if not self.val: cx.violate(st, 'a named operation is taken away', ev)
            if norm_ptr(ev.args[1]) == at: return (norm_ptr(ev.args[0]), k)
        return st.ts
    def exit(self, st, kind, ret, cx):
        if kind != 'ret': return
        self.n += 1
        if st.ts[1] != 1: cx.violate(st, 'the operation is not taken on', cx._ev)
KINDS = {'make_task<': 'task', 'make_eager<': 'eager', 'make_when_all_task<': 'when', 'add_ref<': 'add', 'add_value<': 'add'}
def around(ck, which, ents, least):
    """which: kinds of coroutine; ents: regexp over the entries"""
    irs = ck.ir('pt.cpp', HANDLE_PRIMS, entries=['^w_', '^coro:'])
    for cfg, f in irs.items():
        cs = {}; width = {e.callee: len(e.args) for n, x in f.items() if n.startswith('w_') for e in probe(x).of('call') if e.callee in f}
        for n, x in f.items():
            if n.startswith('w_'): continue
            m = re.search(r'\(([^()]*)\)(?: const)?$', x.dem)
            ps = [p.strip() for p in m.group(1).split(',')] if m else []
            i = [i for i, p in enumerate(ps) if re.match(r'Aw[IVRMT]\b', p)]
            if len(i) != 1 or n not in width: continue
            kind = one_of(x.dem)
            pos = i[0] + width[n] - len(ps)           # behind the result, and the object if there is one
            cs[n] = (kind, pos, not ps[i[0]].endswith('&'), ps[i[0]][:3])
        coros = {n: c[1:3] for n, c in cs.items()}
        mine = {n: c for n, c in cs.items() if c[0] in which}
        ck.count('coroutines around a given operation [%s]' % cfg, len(mine), least)
        for n, (kind, pos, owns, a) in mine.items():
            r = Same(pos, owns, a != 'AwV', kind == 'when'); ck.flow(f[n], r, cfg)
            if not ck.viol: ck.count('%s: ends reached [%s]' % (n[-44:], cfg), r.n['final'], 2)
        for n in f:
            m = re.match(r'w_p?(task|eager|when|add|sco)_(ref|val)_', n)
            if not m or m.group(1) not in ents: continue
            r = Given(coros, m.group(2) == 'val', 1); ck.flow(f[n], r, cfg)
            if not ck.viol: ck.count('%s [%s]' % (n, cfg), r.n, 1)
def one_of(dem):
    for k, v in KINDS.items():
        if '::' + k in dem: return v
    return 'other'
