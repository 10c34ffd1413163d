"""results"""
import re
from common import *
ITEM = [r'rename vf.%s.%s	^%s$' % (a, b, c % {'C': d}) for a, d in (('T', 'VT'), ('E', 'VE')) for b, c in (('move', r'%(C)s::%(C)s\(%(C)s&&\)'), ('copy', r'%(C)s::%(C)s\(%(C)s const&\)'), ('def', r'%(C)s::%(C)s\(\)'), ('dtor', r'%(C)s::~%(C)s\(\)'), ('massign', r'%(C)s::operator=\(%(C)s&&\)'), ('cassign', r'%(C)s::operator=\(%(C)s const&\)'), ('eq', r'operator==\(%(C)s const&, %(C)s const&\)'))]
EP = [r'rename vf.X.def	^std::__exception_ptr::exception_ptr::exception_ptr\((std::nullptr_t|decltype\(nullptr\))?\)$', r'rename vf.X.copy	^std::__exception_ptr::exception_ptr::exception_ptr\(std::__exception_ptr::exception_ptr const&\)$', r'rename vf.X.move	^std::__exception_ptr::exception_ptr::exception_ptr\(std::__exception_ptr::exception_ptr&&\)$',
      r'rename vf.X.dtor	^std::__exception_ptr::exception_ptr::~exception_ptr\(\)$', r'rename vf.X.massign	^std::__exception_ptr::exception_ptr::operator=\(std::__exception_ptr::exception_ptr&&\)$', r'rename vf.X.cassign	^std::__exception_ptr::exception_ptr::operator=\(std::__exception_ptr::exception_ptr const&\)$']
PR = HANDLE_PRIMS + ITEM + EP + [r'rename vf.aw.resume	^A[VL0]::await_resume\(\)$']
CUR = ('current',); AW = (('awaiter',), 0)
class Pinned(PathProbe):
    """the function is analysed for each alternative its operands hold; items leave results alone"""
    def __init__(self, pins): self.pins = pins
    def pure_call(self, dem, cal): return cal.startswith(('vf.', '__cxa_', '_ZSt17current', '_ZSt17rethrow'))
    def starts(self, st, flow):
        s = st.copy()
        for root, off, size, v in self.pins: s.mem[(root, off)] = (size, C(v))
        return (s,)
class Var:
    """where a result keeps what; the values its tag can have"""
    def __init__(self, name, io, kinds, size=1): self.name, self.io, self.kinds, self.size = name, io, kinds, size      # kinds: tag -> (state, type of item)
    def classes(self): return list(self.kinds.items())
class Run:
    """one path: what happens to which item, in order"""
    def __init__(self, path):
        self.kind, self.ret, self.st, evs = path; self.act = []
        for e in evs:
            c = e.callee or ''; ok = e.kind == 'call'
            if e.kind == 'store': self.act.append(('set', norm_ptr(ptr(e.root, e.off)) if e.root[0] != 'p' else (e.root, e.off), e.val)); continue
            if e.kind not in ('call', 'unwind', 'icall'): continue
            m = re.match(r'vf\.([TEX])\.([a-z]+)', c)
            if m and m[2] != 'eq': self.act.append(('item', m[1], m[2], norm_ptr(e.args[0]), norm_ptr(e.args[1]) if len(e.args) > 1 else None, ok))
            elif m: self.act.append(('eq', m[1], [norm_ptr(a) for a in e.args], strip(e.res) if e.res else None, ok))
            elif c.startswith('_ZSt17current'): self.act.append(('item', 'X', 'current', norm_ptr(e.args[0]), None, ok))
            elif c.startswith('_ZSt17rethrow'): self.act.append(('rethrow', norm_ptr(e.args[0])))
            elif c.startswith('__cxa_throw'): self.act.append(('throw', str(e.args[1]), norm_ptr(e.args[0])))
            elif c.startswith('__cxa_rethrow'): self.act.append(('again',))
            elif c.startswith('__cxa_end_catch'): self.act.append(('caught', ok))
            elif c.startswith('vf.aw.resume') and len(e.args) > 1: self.act += [('aw.resume', e.args, None, ok), ('item', 'T', 'def', norm_ptr(e.args[0]), AW, ok)]
            elif c.startswith('vf.'): self.act.append((re.sub(r'\.\d+$', '', c[3:]), [a for a in e.args], strip(e.res) if e.res else None, ok))
    def of(self, *k): return [a for a in self.act if a[0] in k]
    def failed(self): return [a for a in self.act if a[0] == 'item' and not a[5]]
    def history(self, at, first=None):
        """the item at a place: (type there now, (how, from where), what went wrong)"""
        alive, frm, bad = first, ('old',), None
        for a in self.act:
            if a[0] != 'item' or a[3] != at: continue
            _, ty, op, _, src, ok = a
            if op == 'dtor':
                if alive != ty: bad = 'destroys an item that is not there'
                alive = None
            elif op.endswith('assign'):
                if alive != ty: bad = 'assigns to an item that is not there'
                if ok: frm = (op[0] + 'ove' if op[0] == 'm' else 'copy', src)
            else:
                if alive is not None: bad = 'makes an item where there is one'
                if ok: alive, frm = ty, (op, src)
        return alive, frm, bad
    def source(self, frm):
        """where an item comes from in the end, and whether it was ever copied"""
        cp = frm[0] == 'copy'; n = 0
        while len(frm) > 1 and frm[1] is not None and frm[1][0][0] == 'al' and n < 8:
            frm = self.history(frm[1])[1]; cp = cp or frm[0] == 'copy'; n += 1
        if frm[0] == 'current': return CUR, False
        return (frm[1] if len(frm) > 1 else frm[0]), cp
    def left(self):
        """local items that are never destroyed"""
        return [at for at in {a[3] for a in self.act if a[0] == 'item' and a[3][0][0] == 'al'} if self.history(at)[0] is not None or self.history(at)[2]]
    def tag(self, root, off, first):
        v = first
        for a in self.act:
            if a[0] == 'set' and a[1] == (root, off): v = a[2]
        return v if v is None or isinstance(v, int) else v[1] if v[0] == 'c' else v
    def final(self, var, root, base=0, first=None):
        """the alternative a result is in at the end, and where its item is from: (state, source, copied, problem)"""
        ty0 = var.kinds[first][1] if first is not None else None
        t = self.tag(root, base + var.io, first); alive, frm, bad = self.history((root, base), ty0)
        if t not in var.kinds: return None, None, None, 'the tag is %s' % (t,)
        s, ty = var.kinds[t]
        if bad is None and alive != ty: bad = 'says it holds %s but %s is there' % (s, alive or 'nothing')
        src, cp = self.source(frm); return s, src, cp, bad
    def threw(self, at, ty):
        """throws the error stored at a place, as a copy"""
        if self.kind != 'unwind': return False
        if ty == 'X':
            r = self.of('rethrow'); return len(r) == 1 and (r[0][1] == at or self.source(('copy', r[0][1]))[0] == at) and not [a for a in self.act if a[0] == 'item' and a[2] in ('move', 'massign') and a[4] == at]
        f = [a for a in self.failed() if a[4] == at]
        if f: return f[0][2] == 'copy'
        t = self.of('throw'); n = {'T': 'VT', 'E': 'VE'}[ty]
        return len(t) == 1 and re.search(r'_ZTI\d+%s\b' % n, t[0][1]) is not None and self.history(t[0][2])[1] == ('copy', at)
class Results:
    def __init__(self, ck, f, cfg): self.ck, self.f, self.cfg, self.n = ck, f, cfg, 0
    def ob(self, s, ok, more=''): self.ck.obligation('%s [%s]' % (s, self.cfg), ok, str(more)[:400]); return ok
    def run(self, n, pins=()):
        r = Pinned(pins); fl = Flow(self.f[n], r, max_steps=40000); fl.run(); ck = self.ck; ck.stats['functions'] += 1
        for k in ('states', 'events', 'paths'): ck.stats[k] += fl.stats[k]
        out = [Run(p) for p in r.paths if p[0] != 'abort']; 
        if not out: raise Missing('no path of %s' % n)
        for p in out:
            # a destructor running while an exception is caught may end the program; the runtime's own cleanup is not decided
            if not self.ob('%s: every temporary item is destroyed once' % n, not p.left() or any(a == ('caught', False) for a in p.act), (p.left(), p.act)): break
        return out
    def pin(self, var, root, tag, base=0): return (root, base + var.io, var.size, tag)
A0, A1, A2 = ('arg', 0), ('arg', 1), ('arg', 2)
def truth(t): 
    t = strip(t) if t is not None else None
    return bool(t[1]) if t is not None and t[0] == 'c' else None
def tagof(fn):
    return one([e.off for e in probe(fn).of('load')], 'tag of a result')
def run(ck):
    for cfg, f in ck.ir('m17.cpp', PR).items():
        if not ck.viol: results(ck, f, cfg)
    ck.assumptions = ['std::variant, std::optional and std::exception_ptr keep what the standard says; items do not touch the result they are in, and their destructors do not throw', 'a result assigned from itself relies on std::variant and std::optional', 'a coroutine returning a result returns one on every path, and moving it out does not throw (who destroys the coroutine then depends on the compiler)']
    ck.finish('every accessor, constructor, assignment and comparison, the awaiter, the coroutine promise and taking the outcome of an awaiter, for every alternative each operand can hold (valueless included), every path, thrown exceptions included, for value, same-type, void and exception results',
              'an accessor yields the item of the alternative that is held and throws (the stored error, as a copy, or another exception) for the other; every construction and assignment ends in the right alternative holding an item from the right place, copied from lvalues, moved from rvalues; items are constructed and destroyed once; comparisons compare the item only if the alternative matches; an exception taken as a result is the current one')
def results(ck, f, cfg):
    W = Results(ck, f, cfg); ob, go, pin = W.ob, W.run, W.pin
    variant = lambda n, t, e: Var(n, tagof(f['w_%s_index' % n]), {0: ('value', t), 1: ('error', e), -1: ('nothing', None)})
    opt = lambda n, e: Var(n, tagof(f['w_%s_index' % n]), {0: ('value', None), 1: ('error', e)})
    VS = dict(r=variant('r', 'T', 'E'), s=variant('s', 'T', 'T'), x=variant('x', 'T', 'X'), v=opt('v', 'E'), y=opt('y', 'X'))
    for n, v in VS.items():
        for tag, (s, ty) in v.classes():
            for q, want in (('has', s == 'value'), ('err', s != 'value'), ('bool', s == 'value')):
                for p in go('w_%s_%s' % (n, q), [pin(v, A0, tag)]): ob('%s of a result holding %s' % (q, s), p.kind == 'ret' and truth(p.ret) is want, (n, p.ret))
            for q in ('value', 'cvalue', 'star', 'cstar'):
                fn = 'w_%s_%s' % (n, q)
                if fn not in f: continue
                root = A1 if n in 'vy' else A0
                for p in go(fn, [pin(v, root, tag)]):
                    if s == 'value': ob('%s of a result holding a value' % q, p.kind == 'ret' and (n in 'vy' or norm_ptr(p.ret) == (root, 0)) and not p.of('item'), (n, p.ret, p.act))
                    elif s == 'error': ob('%s of a result holding an error throws the error, which stays' % q, p.threw((root, 0), ty), (n, p.kind, p.act))
                    else: ob('%s of a result holding nothing throws' % q, p.kind == 'unwind', (n, p.act))
            for q in ('error', 'cerror'):
                for p in go('w_%s_%s' % (n, q), [pin(v, A0, tag)]):
                    if s == 'error': ob('%s of a result holding an error' % q, p.kind == 'ret' and norm_ptr(p.ret) == (A0, 0) and not p.of('item'), (n, p.ret))
                    else: ob('%s of a result holding %s throws' % (q, s), p.kind == 'unwind' and not p.of('item'), (n, p.kind, p.act))
            for q, mine in (('vor', 'value'), ('eor', 'error')):
                if 'w_%s_%s_l' % (n, q) not in f: continue
                for k in 'lc':
                    for p in go('w_%s_%s_%s' % (n, q, k), [pin(v, A0, tag)]):
                        if s == 'nothing' and q == 'eor' and p.kind == 'unwind': continue
                        ob('the alternative is used only if there is no %s' % mine, p.kind == 'ret' and norm_ptr(p.ret) == ((A0, 0) if s == mine else (A1, 0)) and not p.of('item'), (n, q, k, s, p.ret))
                for p in go('w_%s_%s_m' % (n, q), [pin(v, A1, tag)]):
                    if s == 'nothing' and q == 'eor' and p.kind == 'unwind': continue
                    alive, frm, bad = p.history((A0, 0)); src, cp = p.source(frm)
                    if p.kind == 'unwind': ob('taking an item or the alternative fails only if the item does', bool(p.failed()), (n, q, p.act)); continue
                    ob('an item or the alternative is handed out', alive is not None and bad is None and src == ((A1, 0) if s == mine else (A2, 0)), (n, q, s, frm, p.act))
                    ob('the item that is asked for by value stays', not [a for a in p.act if a[0] == 'item' and (a[2] in ('move', 'massign') and a[4] == (A1, 0) or a[2] == 'dtor' and a[3] == (A1, 0))], (n, q, p.act))
    # building, assigning
    def made(what, fn, v, state, src, how, first=None, root=A0, base=0, pins=()):
        live = 0
        for p in go(fn, ([pin(v, root, first, base)] if first is not None else []) + list(pins)):
            s, frm, cp, bad = p.final(v, root, base, first)
            if p.kind == 'unwind':
                if any(a == ('caught', False) for a in p.act): continue
                ob(what + ' fails only if an item does', bool(p.failed()), p.act)
                if first is not None: ob(what + ': what is left is consistent', bad is None, (bad, p.act))
                else: ob(what + ': nothing is left behind', p.history((root, base))[0] is None, p.act)
                continue
            live += 1; val = not (v.name in 'vy' and state == 'value') and state != 'nothing'
            ob(what + ' gives the right alternative', s == state and bad is None, (s, bad, p.act))
            if val: ob(what + ' gives the right item', frm == src, (frm, src, p.act))
            if how == 'copy': ob(what + ' leaves the original alone', not [a for a in p.act if a[0] == 'item' and a[4] == src and a[2] in ('move', 'massign')] and (not val or cp is True), p.act)
            if how == 'move': ob(what + ' moves', not val or cp is False, p.act)
        ob(what + ' succeeds', live > 0)
    for n in 'rs':
        v = VS[n]
        for t, st in (('ok', 'value'), ('er', 'error')):
            for k, how in (('l', 'copy'), ('m', 'move')):
                made('building from %s(%s)' % ('Ok' if t == 'ok' else 'Err', how), 'w_%s_%s_%s' % (n, t, k), v, st, (A1, 0), how)
                for tag, (s, ty) in v.classes(): made('assigning %s(%s)' % ('Ok' if t == 'ok' else 'Err', how), 'w_%s_a%s_%s' % (n, t, k), v, st, (A1, 0), how, first=tag)
    v = VS['v']; made('building from Ok()', 'w_v_ok', v, 'value', None, None)
    for k, how in (('l', 'copy'), ('m', 'move')): made('building from Err(%s)' % how, 'w_v_er_' + k, v, 'error', (A1, 0), how)
    for tag, _ in v.classes():
        made('assigning Ok()', 'w_v_aok', v, 'value', None, None, first=tag)
        for k, how in (('l', 'copy'), ('m', 'move')): made('assigning Err(%s)' % how, 'w_v_aer_' + k, v, 'error', (A1, 0), how, first=tag)
    made('a default result', 'w_r_def', VS['r'], 'value', None, None); made('a default result', 'w_v_def', VS['v'], 'value', None, None)
    for n in 'rv':
        v = VS[n]
        for t1, (s1, ty1) in v.classes():
            made('copying a result', 'w_%s_copy' % n, v, s1, (A1, 0), 'copy', pins=[pin(v, A1, t1)]); made('moving a result', 'w_%s_move' % n, v, s1, (A1, 0), 'move', pins=[pin(v, A1, t1)])
            for t0, _ in v.classes():
                made('assigning a copy', 'w_%s_cassign' % n, v, s1, (A1, 0), 'copy', first=t0, pins=[pin(v, A1, t1)]); made('assigning by moving', 'w_%s_massign' % n, v, s1, (A1, 0), 'move', first=t0, pins=[pin(v, A1, t1)])
            for p in go('w_%s_dtor' % n, [pin(v, A0, t1)]): ob('destroying a result destroys its item once', p.kind == 'ret' and p.history((A0, 0), ty1)[0] is None and p.history((A0, 0), ty1)[2] is None, p.act)
    # comparing
    for n in 'rv':
        v = VS[n]
        for tag, (s, ty) in v.classes():
            for K, mine in (('Ok', 'value'), ('Err', 'error')):
                for k in ('_l', '_m', ''):
                    for op in ('eq', 'ne'):
                        fn = 'w_%s_%s%s%s' % (n, op, K, k)
                        if fn not in f: continue
                        for p in go(fn, [pin(v, A0, tag)]):
                            e = p.of('eq'); what = 'comparing a result holding %s with %s' % (s, K)
                            if p.kind == 'unwind' and s == 'nothing': continue
                            if p.kind == 'unwind': ob(what + ' fails only if comparing the items does', s == mine and any(not a[4] for a in e), p.act); continue
                            if s == mine and k:
                                if not ob(what + ' compares the items', len(e) == 1 and sorted(e[0][2]) == [(A0, 0), (A1, 0)], p.act): continue
                                for val in (1, 0):
                                    q = p.st.copy(); q.tr[e[0][3]] = bool(val); r = q.ev(p.ret) if is_bool(p.ret) or p.ret[0] == 'tr' else None
                                    if r is None and strip(p.ret) == e[0][3]: r = bool(val)
                                    if r is None: q.seteq(e[0][3], val); r = truth(q.subst(p.ret)) if truth(q.subst(p.ret)) is not None else q.ev(p.ret)
                                    ob(what + ' says what the items say', r is not None and bool(r) == (bool(val) == (op == 'eq')), (op, p.ret, r, val))
                            else: ob(what + ' is decided by the alternative', not e and truth(p.ret) is ((s == mine) == (op == 'eq')), (op, p.ret, p.act))
    # awaiting
    for n in 'rv':
        for p in go('w_%s_ready' % n): ob('a result is ready', p.kind == 'ret' and truth(p.ret) is True, p.ret)
    for n in 'rxvy':
        v = VS[n]; 
        for tag, (s, ty) in v.classes():
            for p in go('w_%s_resume' % n, [pin(v, A1, tag)]):
                if s == 'value' and n in 'vy': ob('awaiting a result yields its value', p.kind == 'ret', p.act)
                elif s == 'value':
                    alive, frm, bad = p.history((A0, 0)); ob('awaiting a result yields its value', (p.kind == 'ret' and alive == 'T' and bad is None and p.source(frm) == ((A1, 0), False)) or (p.kind == 'unwind' and p.failed()), p.act)
                elif s == 'error': ob('awaiting a result throws its error', p.threw((A1, 0), ty), (n, p.kind, p.act))
                else: ob('awaiting a result that holds nothing throws', p.kind == 'unwind', p.act)
    # the promise
    X = VS['x']; HF = one([e.off for e in probe(f['w_p_has']).of('load')], 'flag of a promise'); B = norm_ptr(probe(f['w_p_val']).exits[0][1])[1]
    flag = lambda root, b: (root, HF, 1, int(b))
    for p in go('w_p_ctor'): ob('a coroutine starts without an outcome', p.tag(A0, HF, None) == 0, p.act)
    starts = [(None, [flag(A0, False)])] + [(t, [flag(A0, True)]) for t, _ in X.classes()]
    for first, pins in starts:
        def outcome(what, fn, state, src, how, more=()):
            live = 0
            for p in go(fn, pins + list(more) + ([pin(X, A0, first, B)] if first is not None else [])):
                s, frm, cp, bad = p.final(X, A0, B, first)
                if p.kind == 'unwind':
                    ob(what + ' fails only if an item does', bool(p.failed()), p.act); ob(what + ': a failed outcome is none', p.tag(A0, HF, int(first is not None)) == 0 and p.history((A0, B), X.kinds[first][1] if first is not None else None)[0] is None or bad is None, (bad, p.act)); continue
                live += 1; ob(what + ' is the outcome', s == state and bad is None and p.tag(A0, HF, int(first is not None)) == 1, (s, bad, p.act))
                if state != 'nothing': ob(what + ' is kept', frm == src and (how is None or cp is (how == 'copy')), (frm, cp, p.act))
            ob(what + ' succeeds', live > 0)
        outcome('an exception that escapes', 'w_p_uncaught', 'error', CUR, None)
        for k, how in (('l', 'copy'), ('m', 'move')): outcome('returning Ok (%s)' % how, 'w_p_return_' + k, 'value', (A1, 0), how)
        for k, how in (('c', 'copy'), ('n', 'copy'), ('r', 'move')):
            for t, (s, ty) in X.classes(): outcome('returning a result (%s)' % how, 'w_p_return_' + k, s, (A1, 0), how, [pin(X, A1, t)])
    pr = probe(f['w_p_result']); PRM = one([e.res[1] for e in pr.of('call') if e.callee.startswith('vf.promise')], 'promise of the coroutine'); PRM = norm_ptr(PRM)[0]
    for t, (s, ty) in X.classes():
        for p in go('w_p_result', [flag(PRM, True), pin(X, PRM, t, B)]):
            if p.kind == 'unwind' and p.failed(): continue            # then compilers differ in who destroys the coroutine
            d = p.of('destroy'); st, frm, cp, bad = p.final(X, A0, 0, None)
            ob('the coroutine is destroyed once its outcome was taken, exactly once', len(d) == 1 and norm_ptr(d[0][1][0]) == (A1, 0) and all(p.act.index(a) < p.act.index(d[0]) for a in p.act if a[0] == 'item' and (a[4] or ('',))[0] == PRM), (p.kind, p.act))
            if p.kind == 'ret': ob('the caller gets the outcome', st == s and bad is None and (s == 'nothing' or frm == (PRM, B)), (st, frm, bad, p.act))
            else: ob('taking the outcome fails only if the item does', False, p.act)
    for fn, kind in (('w_p_get', 0), ('w_p_mget', 1)):
        for p in go(fn): c = p.of('from_promise'); ob('the caller gets the coroutine of the right kind', len(c) == 1 and norm_ptr(c[0][1][0]) == (A0, 0) and c[0][1][1] == C(kind) and strip(p.ret) == c[0][2], (p.ret, p.act))
    for p in go('w_p_init'): ob('the coroutine starts at once', truth(p.ret) is True, p.ret)
    for p in go('w_p_final'): ob('the coroutine stays until its outcome was taken', truth(p.ret) is False, p.ret)
    for k in 'lm':
        for p in go('w_p_await_' + k): ob('awaiting a result in such a coroutine awaits that result', p.kind == 'ret' and norm_ptr(p.ret) == (A1, 0), p.ret)
    # outcome of an awaiter
    for n, k in (('x', 'v'), ('x', 'l'), ('y', '0')):
        v = VS[n]
        for tag, _ in v.classes():
            seen = set()
            for p in go('w_try_' + k, [pin(v, A0, tag)]):
                if any(a == ('caught', False) for a in p.act): continue
                r = p.of('aw.resume'); s, frm, cp, bad = p.final(v, A0, 0, tag)
                if not ob('taking an outcome asks for it once', len(r) == 1, p.act): break
                if p.kind == 'unwind': ob('taking an outcome never throws', False, p.act); continue
                ob('taking an outcome leaves a consistent result', bad is None, (bad, p.act))
                threw = not r[0][3] or p.failed(); seen.add(bool(threw))
                if threw: ob('an exception becomes the error', s == 'error' and frm == CUR, (s, frm, p.act))
                else:
                    ob('a return becomes the value', s == 'value', (s, p.act))
                    if k == 'l': ob('what is referred to is copied', frm == norm_ptr(r[0][2]) and cp, (frm, p.act))
                    if k == 'v': ob('what is returned becomes the value', frm == AW and cp is False, (frm, p.act))
            ob('both outcomes are taken', seen == {True, False}, seen)
if __name__ == '__main__': main(run, 'M17')
