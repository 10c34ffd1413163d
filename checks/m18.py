"""wrapping an operation"""
from m17 import *
PR = HANDLE_PRIMS + ITEM + EP + [r'rename vf.aw.%s	^Aw\w::await_%s\(' % (k, k) for k in ('ready', 'suspend', 'resume')] + [r'rename vf.T.move	^MO::MO\(MO&&\)$', r'rename vf.T.dtor	^MO::~MO\(\)$', r'rename vf.T.massign	^MO::operator=\(MO&&\)$']
KIND = dict(AwV='value', AwK='value', AwO='value', AwL='ref', AwC='ref', AwX='xref', Aw0='void', AwS='void', AwM='void', AwW='void', AwI='int')
class Wrapped(Results):
    def run(self, n, pins=()):
        r = Pinned(pins); fl = Flow(self.f[n], r, max_steps=40000); fl.run(); ck = self.ck; ck.stats['functions'] += 1
        for k in ('states', 'events', 'paths'): ck.stats[k] += fl.stats[k]
        if not r.paths: raise Missing('no path of %s' % n)
        # the runtime's own cleanup of an exception may end the program, the operation may not
        return [(p, Run(p)) for p in r.paths if not (p[0] == 'abort' and any(a == ('caught', False) for a in Run(p).act))]
def run(ck):
    for cfg, f in ck.ir('m18.cpp', PR).items():
        if not ck.viol: wrapped(ck, f, cfg)
    ck.assumptions = ['operations are opaque and keep the awaiter protocol', 'std::variant, std::optional and std::exception_ptr keep what the standard says; destructors of values do not throw']
    ck.finish('asking a wrapped operation whether it is ready, suspending on it and taking its outcome, for operations yielding values, references (const, not const, to temporaries), nothing, integers and move-only values, held and referred to, for every verdict of suspension (none, bool, either handle) and both kinds of awaiting coroutine, every path; the awaiter that is obtained for named, temporary and moved operations with member, free and no operator co_await',
              'each question is passed on once to the very operation with the very handle and its answer is passed back; what is returned becomes the value (copied if only referred to), whatever is thrown, also while keeping the value, becomes the error as the current exception, and nothing but the runtime\'s cleanup can end the program; a named operation is awaited as named, a temporary one as temporary')
def wrapped(ck, f, cfg):
    W = Wrapped(ck, f, cfg); ob, go = W.ob, W.run
    XT = Var('x', tagof(f['w_index']), {0: ('value', 'T'), 1: ('error', 'X')}); XI = Var('x', tagof(f['w_iindex']), {0: ('value', None), 1: ('error', 'X')}); X0 = Var('y', tagof(f['w_vindex']), {0: ('value', None), 1: ('error', 'X')})
    def calls(p): return [e for e in p[3] if e.kind in ('call', 'unwind', 'icall') and not (e.callee or '').startswith(('llvm.', '__cxa'))]
    n = 0
    for fn in sorted(f):
        m = re.match(r'w_(ready|readyv|susps|suspm|res|resv)_(Aw\w)$', fn)
        if not m: continue
        n += 1; q, op = m.groups(); held = q.endswith('v'); root = A1 if q.startswith('res') else A0; want = 'vf.aw.' + {'r': 'ready' if 'ready' in q else 'resume', 's': 'suspend'}[q[0]]
        seen = set()
        for p, r in go(fn):
            ev = calls(p); aw = [e for e in ev if (e.callee or '').startswith('vf.aw.')]; nm = (q, op)
            if not ob('%s of %s: the operation is asked once' % nm, len(aw) == 1 and aw[0].callee.startswith(want) and aw[0].dem.startswith(op + '::'), aw): continue
            a = aw[0]; off = 1 if KIND[op] == 'value' and q.startswith('res') else 0
            t = a.args[off]; loc = norm_ptr(t)
            ob('%s of %s: the very operation is asked' % nm, loc == (root, 0) if held else ld_of(p, t) == (root, 0), (t, p[3][:3]))
            if q.startswith('res'):
                V = XT if KIND[op] in ('value', 'ref', 'xref') else XI if op == 'AwI' else X0
                if not ob('%s: an outcome never throws or ends the program' % op, p[0] == 'ret', r.act): continue
                s, frm, cp, bad = r.final(V, A0, 0, None); threw = a.kind == 'unwind' or bool(r.failed())
                seen.add(threw); ob('%s: the result is consistent' % op, bad is None, (bad, r.act)); ob('%s: no temporary item is left' % op, not r.left(), r.act)
                if threw: ob('%s: what is thrown becomes the error' % op, s == 'error' and frm == CUR, (s, frm, r.act)); continue
                ob('%s: what is returned becomes the value' % op, s == 'value', (s, r.act))
                if KIND[op] == 'value': ob('%s: the value is the one returned' % op, frm == AW and cp is False, (frm, r.act))
                if KIND[op] in ('ref', 'xref'): ob('%s: the value is what was referred to' % op, frm == norm_ptr(a.res) and (cp or KIND[op] == 'xref'), (frm, cp, r.act))
                if KIND[op] == 'ref': ob('%s: what is only referred to stays' % op, not [x for x in r.act if x[0] == 'item' and (x[2] in ('move', 'massign') and x[4] == norm_ptr(a.res) or x[3] == norm_ptr(a.res))], r.act)
                if op == 'AwI': v = p[2].mem.get((A0, 0)); ob('AwI: the value is the one returned', v is not None and strip(v[1]) == strip(a.res), (v, a.res))
                continue
            ob('%s of %s: nothing else happens' % nm, len(ev) == 1, ev); seen.add(p[0])
            if q.startswith('susp'): ob('%s of %s: the awaiting coroutine is passed on' % nm, a.args[off + 1] == ARG(1), a.args)
            if p[0] == 'ret':
                if a.res is None: ob('%s of %s: there is no answer' % nm, p[1] is None, p[1])
                else: ob('%s of %s: the answer is passed back' % nm, p[1] is not None and same(p[2], p[1], a.res), (p[1], a.res))
            else: ob('%s of %s: only the operation throws' % nm, p[0] == 'unwind' and a.kind == 'unwind', p[0])
        if q.startswith('res'): ob('%s: returning and throwing are both decided' % op, True in seen and (False in seen), seen)
        else: ob('%s of %s answers' % (q, op), 'ret' in seen, seen)
    # which awaiter
    for fn, op, temp in (('get_lv', 'OpB::operator co_await() &', 0), ('get_named_lv', 'OpB::operator co_await() &', 2), ('get_named_rv', 'OpB::operator co_await() &', 0), ('get_pipe_lv', 'OpB::operator co_await() &', 0), ('get_rv', 'OpB::operator co_await() &&', 1), ('get_moved', 'OpB::operator co_await() &&', 3), ('get_pipe_rv', 'OpB::operator co_await() &&', 1),
                         ('get_free_lv', 'operator co_await(OpF&)', 0), ('get_free_rv', 'operator co_await(OpF&&)', 1), ('get_self_lv', None, 0), ('get_self_named', None, 0), ('get_self_moved', None, 3)):
        rets = 0
        if 'w_' + fn not in f: n = 0; continue
        for p, r in go('w_' + fn):
            ev = calls(p); at = (A1, 0); kind = p[0]
            mv = [e for e in ev if re.match(r'(Op[BF]|Aw\w)::\1\(\1&&\)', e.dem or '')]; co = [e for e in ev if 'operator co_await' in (e.dem or '')]; dt = [e for e in ev if re.match(r'(Op[BF])::~\1\(\)', e.dem or '')]
            if kind == 'unwind':
                ob('%s fails only if the operation does' % fn, any(e.kind == 'unwind' for e in mv + co), ev); continue
            if not ob('%s yields an awaiter' % fn, kind == 'ret', kind): continue
            rets += 1
            for e in mv:
                if norm_ptr(e.args[1]) == at: at = norm_ptr(e.args[0])
            if temp in (0, 2): ob('%s: a named operation stays where it is' % fn, not mv and not dt, ev)
            if op is None:
                if temp == 0: v = p[2].mem.get((A0, 0)); ob('%s: the operation itself is awaited' % fn, v is not None and v[1] == ARG(1), (v, ev))
                else: ob('%s: the moved operation is awaited' % fn, at == (A0, 0), ev)
                continue
            if not ob('%s: one awaiter is asked for' % fn, len(co) == 1 and co[0].dem == op, ev): continue
            c = co[0]; x = c.args[1] if len(c.args) > 1 else c.args[0]
            ob('%s: the awaiter is that of the given operation' % fn, (ld_of(p, x) == (A1, 0)) if temp == 2 else norm_ptr(x) == at, (x, ev))
            ob('%s: the awaiter becomes the wrapper\'s' % fn, len(c.args) < 2 or norm_ptr(c.args[0]) == (A0, 0), c.args)
        ob('%s succeeds' % fn, rets > 0)
    if n < 50: raise Missing('wrapped operations (%d)' % n)
def ld_of(p, t):
    """where a pointer was read from"""
    for e in p[3]:
        if e.kind == 'load' and e.res == t: return (e.root, e.off)
def same(st, a, b):
    a, b = strip(a), strip(b)
    if a == b: return True
    for t in (b, ('tr', b)):
        if t in st.tr: return a == C(int(st.tr[t]))
    v = st.ev(b) if is_bool(b) else None
    return v is not None and a == C(int(v))
if __name__ == '__main__': main(run, 'M18')
