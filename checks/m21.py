"""exceptions of coroutine bodies"""
from common import *
from m17 import Pinned, Run, ITEM, EP, A0, A1, AW
import re
PR = HANDLE_PRIMS + ITEM + EP + [r'rename vf.isset	^std::__exception_ptr::exception_ptr::operator bool\(\)( const)?$', r'rename vf.body.run	^Body::run\(\)$', r'rename vf.body.end	^Locals::end\(\)$',
     r'rename vf.aw.resume	^A[VL0]::await_resume\(\)$', r'prim	^std::mutex', r'prim	^std::condition_variable']
PR += [r'rename vf.xeq	^std::__exception_ptr::operator==\(std::__exception_ptr::exception_ptr const&, std::__exception_ptr::exception_ptr const&\)$', r'rename vf.xswap	^std::__exception_ptr::exception_ptr::swap\(', r'rename vf.use	^vf_use$', r'rename vf.got	^vf_got$']
class Lives(Pinned):
    def pure_call(self, dem, cal): return Pinned.pure_call(self, dem, cal) or re.search(r'mutex|condition_variable|^pthread_', dem) is not None or 'mutex' in cal
class Life:
    """one path, played through: what is where, and what is wrong with that"""
    def __init__(self, path, items):
        self.run = r = Run(path); self.kind, self.ret, self.st = r.kind, r.ret, r.st; self.at = dict(items); self.bad = None; self.use = []; self.rethrown = []; self.resumed = []; self.threw = False; self.possible = True; open_ = True; self.got = 0
        for a in r.act:
            if a[0] == 'item':
                _, ty, op, at, src, ok = a; was = self.at.get(at)
                if op == 'dtor':
                    if was is None or was[0] != ty: self.bad = 'an item is destroyed where there is none (%s)' % str(at)
                    self.at.pop(at, None); continue
                new = {'def': 'none', 'current': 'current'}.get(op)
                if src == AW: new = 'awaited'
                elif new is None:
                    frm = self.at.get(src)
                    if frm is None or frm[0] != ty: self.bad = 'an item is made from one that is not there (%s)' % str(src); continue
                    new = frm[1]
                if op.endswith('assign'):
                    if was is None or was[0] != ty: self.bad = 'an item is assigned where there is none (%s)' % str(at)
                elif was is not None: self.bad = 'an item is made where there is one (%s), which is never destroyed' % was[1]
                if not ok:
                    if open_: self.threw = True
                    continue
                if op in ('move', 'massign') and src != AW: self.at[src] = (ty, 'none' if ty == 'X' else 'gone')
                self.at[at] = (ty, new)
            elif a[0] in ('body.run', 'body.end'): self.threw |= not a[3]; open_ = a[0] == 'body.run' and open_
            elif a[0] == 'isset':
                # a pointer to an exception is empty or not by what was put there
                v = self.at.get(norm_ptr(a[1][0])); t = self.truth(a[2])
                if v is None: self.bad = 'an exception is asked for where there is none'
                elif t is not None and bool(t) != (v[1] == 'current'): self.possible = False
            elif a[0] == 'xeq':
                v = [self.at.get(norm_ptr(x)) for x in a[1]]; t = self.truth(a[2])
                if None in v: self.bad = 'an exception is asked for where there is none'
                elif t is not None and bool(t) != (v[0][1] == v[1][1]): self.possible = False
            elif a[0] == 'xswap':
                x, y = [norm_ptr(x) for x in a[1]]
                if x not in self.at or y not in self.at: self.bad = 'exceptions are swapped where there are none'
                else: self.at[x], self.at[y] = self.at[y], self.at[x]
            elif a[0] == 'caught': open_ = False
            elif a[0] == 'use': u = norm_ptr(a[1][0]); self.use.append((u, self.at.get(u)))
            elif a[0] == 'got': self.got += 1
            elif a[0] == 'rethrow': self.rethrown.append((a[1], self.at.get(a[1])))
            elif a[0] == 'aw.resume': self.resumed.append(a)
        self.left = {k: v for k, v in self.at.items() if k not in items and k != (A0, 0)}
    def truth(self, t):
        if t is None: return None
        if t in self.st.tr: return self.st.tr[t]
        v = self.st.ev(t) if is_bool(t) else None
        return v if v is not None else self.st.eq.get(t) if hasattr(self.st, 'eq') and isinstance(self.st.eq, dict) else None
def run(ck):
    n = 0
    for cfg, f in ck.ir('m21.cpp', PR).items():
        for fn in sorted(f):
            if fn.startswith('w_'): life(ck, f, cfg, fn); n += 1
    ck.count('lives of promises', n, 110)
    ck.assumptions = ['std::current_exception and std::rethrow_exception keep what the standard says and are not null inside a handler; locking a mutex succeeds; destructors of values do not throw',
                      'the compiler calls promise operations as the language says (value first, then the destructors of locals, unhandled_exception for whatever escapes)']
    ck.finish('the whole life of a promise (construction, a body that may throw before the outcome, while making it and, from the destructors of its locals, after it, asking for the outcome in every form, destruction), played through on every path with simulated values and exceptions, for task and eager_task (values, void, references), scoped_task (the same and rvalue references), the operations of when_all and when_all_ready, and blocking waits; promises never started or never asked; empty owners',
              'whatever escapes the body is rethrown, once and as the very same exception, to whoever asks for the outcome and no value is handed out; otherwise the outcome is the very value (object, for references) the body gave; every value and exception kept in a promise is destroyed exactly once and nothing is made over a living one; nothing but the request for the outcome throws and nothing ends the program; an owner of nothing throws broken_promise')
def life(ck, f, cfg, fn):
    def ob(s, ok, more=''): return ck.obligation('%s: %s [%s]' % (fn[2:], s, cfg), ok, str(more)[:400])
    ref, void, wait, empty, idle = (re.search(k, fn) is not None for k in (r'_c?ref|_rref|^w_all_value', r'_void', r'^w_wait', r'^w_empty', r'_never$|_unborn$'))
    items = {(A1, 0): ('T', 'v')} if not wait and not empty and not fn.endswith('_unborn') else {}
    r = Lives(()); fl = Flow(f[fn], r, max_steps=60000); fl.run(); ck.stats['functions'] += 1
    for k in ('states', 'events', 'paths'): ck.stats[k] += fl.stats[k]
    seen = set(); lives = 0
    for path in r.paths:
        if any(e.kind == 'unwind' and re.search(r'St5mutex|condition_variable|throw_system_error', e.callee or '') for e in path[3]): continue
        p = Life(path, items); more = (p.kind, [a for a in p.run.act if a[0] != 'set'], p.left)
        # ending the handling of an exception may run a destructor that throws; that is the runtime's
        if any(a == ('caught', False) for a in p.run.act) or not p.possible: continue
        lives += 1
        ob('the program is not ended', p.kind != 'abort', more)
        if not ob('values and exceptions are where they are looked for', p.bad is None, (p.bad,) + more): return
        if not ob('everything kept is destroyed', not p.left or p.kind == 'abort', more): return
        if empty:
            t = p.run.of('throw'); ob('asking without an outcome throws', p.kind == 'unwind' and not p.use and not p.got, more); seen |= {bool(re.search('broken_promise', a[1])) for a in t}; continue
        if idle: seen.add(p.threw); ob('nothing but asking throws', p.kind == 'ret' and not p.rethrown, more); continue
        if fn.endswith('_twice'):
            # the outcome stays where it is until it is taken
            if p.threw:
                seen.add(True); ob('what escapes the body reaches who asks, each time it is asked for', p.kind == 'unwind' and [x[1] for x in p.rethrown] == [('X', 'current')] * 2 and not p.use, more); continue
            seen.add(False)
            if void or ref: ob('the outcome is the same each time it is asked for', not p.rethrown and (p.got == 2 if void else [u[0] for u in p.use] == [(A1, 0)] * 2), (p.use,) + more); continue
            ob('the value is the same each time it is asked for', p.kind == 'unwind' and bool(p.run.failed()) or not p.rethrown and len(p.use) == 2 and p.use[0] == p.use[1] and p.use[0][1] == ('T', 'v'), (p.use,) + more); continue
        if p.threw:
            seen.add(True)
            ob('what escapes the body reaches who asks', p.kind == 'unwind' and len(p.rethrown) == 1 and p.rethrown[0][1] == ('X', 'current'), more)
            ob('no value is handed out after a failure', not p.use and not p.resumed and (not p.got or fn.startswith('w_all')) and (A0, 0) not in p.at, more); continue
        ob('without a failure nothing is rethrown', not p.rethrown, more)
        if wait:
            ob('the outcome is asked of the operation once', len(p.resumed) == 1 and norm_ptr(p.resumed[0][1][-1]) == (A1, 0), more)
            if p.resumed and not p.resumed[0][3]: ob('a failure of the operation is passed on', p.kind == 'unwind' and not p.use and not p.got, more); continue
        if p.kind == 'unwind': ob('asking for a value fails only if moving it does', bool(p.run.failed()), more); continue
        seen.add(False)
        if void: ob('a body that ended has an outcome', p.got == 1 and not p.use, more); continue
        if wait and ref: ob('the object the operation yields is the outcome', len(p.use) == 1 and strip(p.resumed[0][2]) == strip(ptr(*p.use[0][0])), (p.use,) + more); continue
        if ref: ob('the object the body gave is the outcome', len(p.use) == 1 and p.use[0][0] == (A1, 0) and p.use[0][1] == ('T', 'v'), (p.use,) + more); continue
        if fn.endswith('_m') or wait: ob('the value the body gave is the outcome', p.at.get((A0, 0)) == ('T', 'awaited' if wait else 'v') and not p.use, (p.at,) + more)
        else: ob('the value the body gave is the outcome', len(p.use) == 1 and p.use[0][1] == ('T', 'v') and p.use[0][0][0][0] == 'al', (p.use,) + more)
        if not wait: ob('what the body gave is copied or moved as it was given', p.at.get((A1, 0)) == ('T', 'gone' if '_move_' in fn else 'v'), more)
    if not lives: raise Missing('no life of %s' % fn)
    if empty: ob('broken_promise is thrown', True in seen)
    elif not fn.endswith('_unborn'): ob('both ways to end are possible', seen == {True, False}, seen)
if __name__ == '__main__': main(run, 'M21')
