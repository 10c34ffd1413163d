from common import *
import glob, subprocess
from concurrent.futures import ThreadPoolExecutor
NM = '/usr/lib/llvm-18/bin/llvm-nm'
def headers():
    hs = sorted(os.path.relpath(p, REPO) for d in ('macoro', 'macoro/detail') for p in glob.glob(os.path.join(REPO, d, '*.h')))
    return [h for h in hs if 'win32' not in h and not h.endswith('config.h')]
def first_error(out):
    for l in out.splitlines():
        m = re.match(r'(.*?):(\d+):(?:\d+:)? (?:fatal )?error: (.*)', l)
        if m: return '%s:%s' % (os.path.relpath(m.group(1), REPO) if m.group(1).startswith(REPO) else os.path.basename(m.group(1)), m.group(2)), m.group(3)
    return '', out[-300:]
def run(ck):
    hs = headers(); ck.count('public headers', len(hs), 25)
    full = [h for h in hs if not h.endswith('undef.h')]
    ccs = [CLANG, GCC]
    jobs = []
    for i, h in enumerate(hs):
        src = os.path.join(ck.tmp, 'alone_%d.cpp' % i)
        open(src, 'w').write('#include "%s"\n#include "%s"\n' % (h, h))
        for cfg in CONFIGS:
            for cc in (ccs if cfg == 'std_stop' or 'thorough' in sys.argv else ccs[:1]): jobs.append(('header', h, src, cfg, cc, []))
    for i, order in enumerate((full, full[::-1], full[len(full) // 2:] + full[:len(full) // 2])):
        src = os.path.join(ck.tmp, 'order_%d.cpp' % i)
        open(src, 'w').write(''.join('#include "%s"\n' % r for r in order + order))
        for cfg in CONFIGS:
            for cc in ccs: jobs.append(('order', 'order %d' % i, src, cfg, cc, []))
    wit = os.path.join(VERIF, 'witness', 'm24.cpp')
    for cfg in CONFIGS:
        for cc in ccs: jobs += [('use', 'm24.cpp', wit, cfg, cc, []), ('forms', 'm24b.cpp', os.path.join(VERIF, 'witness', 'm24b.cpp'), cfg, cc, [])]
    one_obj = os.path.join(ck.tmp, 'all.cpp')
    open(one_obj, 'w').write(''.join('#include "%s"\n' % r for r in full))
    def go(j):
        kind, h, src, cfg, cc, ex = j
        return j, sh([cc, '-std=c++20', '-fsyntax-only', '-w', '-pthread'] + CFLAGS[cfg] + ex + ck.inc(cfg) + [src])
    with ThreadPoolExecutor(8) as ex: res = list(ex.map(go, jobs))
    n = 0
    for (kind, h, src, cfg, cc, _), r in res:
        n += 1; who = os.path.basename(cc).split('+')[0]
        loc, msg = first_error(r.stdout) if r.returncode else ('', '')
        if kind == 'header': ck.obligation('%s compiles alone and twice [%s %s]' % (h, cfg, who), not r.returncode, msg, loc, key='%s|header' % h)
        elif kind == 'order': ck.obligation('all headers together compile in %s [%s %s]' % (h, cfg, who), not r.returncode, msg, loc, key='order|%s' % loc)
        elif kind == 'forms': ck.obligation('every way to be awaitable is taken by every interface [%s %s]' % (cfg, who), not r.returncode, msg, loc, key='forms|%s' % loc)
        else: ck.obligation('every advertised operation can be instantiated [%s %s]' % (cfg, who), not r.returncode, msg, loc, key='use|%s' % loc)
    # definitions that two translation units would both bring along
    for cfg in CONFIGS:
        bc = ck.compile(one_obj, cfg, out=os.path.join(ck.tmp, 'all.%s.bc' % cfg))
        out = sh([NM, '--defined-only', '-C', bc]).stdout
        strong = [l for l in out.splitlines() if re.match(r'^[0-9a-f-]+ [TDBRC] ', l)]
        ck.obligation('nothing in the headers is defined once per translation unit [%s]' % cfg, not strong, 'not inline: %s' % '; '.join(l.split(' ', 2)[2] for l in strong[:4]))
        ck.units.append('all headers[%s]' % cfg)
        # the library defines what its headers declare
        srcs = [os.path.join(REPO, 'macoro', 'thread_pool.cpp')] + ([] if CONFIGS[cfg]['MACORO_HAS_STD_STOP_TOKEN'] else sorted(glob.glob(os.path.join(REPO, 'macoro/detail/stop_*.cpp'))))
        und = set(); dfn = set()
        wb = ck.compile(wit, cfg, out=os.path.join(ck.tmp, 'wit.%s.bc' % cfg))
        for i, s in enumerate([wit] + srcs):
            b = wb if s == wit else ck.compile(s, cfg, out=os.path.join(ck.tmp, 'lib%d.%s.bc' % (i, cfg)))
            und |= {l.split(' ', 1)[1].strip()[2:] for l in sh([NM, '--undefined-only', b]).stdout.splitlines() if ' U ' in l}
            dfn |= {l.split()[-1] for l in sh([NM, '--defined-only', b]).stdout.splitlines()}
        miss = sorted(u for u in und - dfn if 'macoro' in u)
        ck.obligation('what is declared and used is defined [%s]' % cfg, not miss, 'undefined: %s' % ', '.join(miss[:4]))
    ck.stats['functions'] += 1
    ck.assumptions = ['the Windows headers are out of scope on this platform', 'C++20 with a hosted standard library, gcc 13 and clang 18']
    ck.finish('compilation of every public header alone and twice, of all of them together in three orders, of a witness that instantiates every advertised operation for value, reference, void, move-only and default-less types with compile-time assertions about ownership and result types, and symbol tables of the headers and of the library, with clang and gcc, both configurations',
              'a type checker accepts the headers in any order; no strong definition comes from a header; no declared and used function is undefined; owners of coroutines and registrations are not copyable')
if __name__ == '__main__': main(run, 'M24')
