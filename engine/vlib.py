"""Shared driver: builds the IR tool, generates both configurations of the library's
config.h from the working tree, compiles witness units to IR, runs rules, reports."""
import glob, os, sys, re, json, time, subprocess, shutil, tempfile, hashlib, traceback
from concurrent.futures import ThreadPoolExecutor
HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
REPO = os.environ.get('VERIF_REPO', '/repo')
BUILD = os.path.join(VERIF, '.build')
CLANG = '/usr/lib/llvm-18/bin/clang++'
GCC = '/usr/bin/g++'
sys.path.insert(0, HERE)
import flow

class Broken(Exception):
    """the analysis itself cannot give an answer"""

class Missing(Broken):
    """a construct the property needs is not there (or not recognisable): the obligation is not discharged"""

def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)

def build_tool():
    os.makedirs(BUILD, exist_ok=True)
    src = os.path.join(HERE, 'irx.cpp'); exe = os.path.join(BUILD, 'irx')
    h = hashlib.sha256(open(src, 'rb').read()).hexdigest(); stamp = exe + '.sha'
    if os.path.exists(exe) and os.path.exists(stamp) and open(stamp).read() == h: return exe
    flags = sh(['/usr/bin/llvm-config-18', '--cppflags', '--ldflags', '--libs', 'core', 'passes', 'irreader']).stdout.split()
    tmp = exe + '.%d' % os.getpid()
    r = sh([CLANG, '-std=c++17', '-O1', src, '-o', tmp] + flags + ['-fexceptions', '-Wno-unused-command-line-argument'])
    if r.returncode: raise Broken('cannot build irx: ' + r.stdout[-2000:])
    os.replace(tmp, exe); open(stamp, 'w').write(h)
    return exe

CONFIGS = {'std_stop': dict(MACORO_HAS_STD_STOP_TOKEN=True), 'own_stop': dict(MACORO_HAS_STD_STOP_TOKEN=False)}
CFLAGS = {'std_stop': ['-DNDEBUG'], 'own_stop': []}

def gen_config(dst, cfg):
    """what cmake's configure_file makes of macoro/config.h.in in the two builds"""
    vals = dict(MACORO_CPP_20='ON', MACORO_HAS_STD_STOP_TOKEN='ON')
    if not CONFIGS[cfg]['MACORO_HAS_STD_STOP_TOKEN']: vals.pop('MACORO_HAS_STD_STOP_TOKEN')
    out = []
    for l in open(os.path.join(REPO, 'macoro/config.h.in')):
        m = re.match(r'\s*#cmakedefine\s+(\w+)(.*)', l)
        if m:
            n = m.group(1)
            out.append('#define %s %s\n' % (n, vals[n]) if n in vals else '/* #undef %s */\n' % n)
        else: out.append(re.sub(r'@(\w+)@', lambda m: vals.get(m.group(1), ''), l))
    os.makedirs(os.path.join(dst, 'macoro'), exist_ok=True)
    open(os.path.join(dst, 'macoro', 'config.h'), 'w').write(''.join(out))

def gen_std(dst):
    """libstdc++ unrolls find_if by hand; the analysis is given the same function as a plain loop"""
    for src in sorted(glob.glob('/usr/include/c++/*/bits/stl_algobase.h'), reverse=True)[:1]:
        s = open(src).read()
        m = re.search(r'(__find_if\(_RandomAccessIterator __first, _RandomAccessIterator __last,\s+_Predicate __pred, random_access_iterator_tag\)\s+\{).*?\n    \}\n', s, re.S)
        if not m: return
        os.makedirs(os.path.join(dst, 'bits'), exist_ok=True)
        open(os.path.join(dst, 'bits', 'stl_algobase.h'), 'w').write(s[:m.end(1)] + ' while (__first != __last && !__pred(__first)) ++__first; return __first; }\n' + s[m.end():])

class Check:
    def __init__(self, pid, level='other'):
        self.pid = pid; self.level = level; self.t0 = time.time()
        self.tier = os.environ.get('VERIF_TIER', 'quick'); self.seed = int(os.environ.get('VERIF_SEED', '1') or 1)
        self.tmp = tempfile.mkdtemp(prefix='vf_%s_' % pid)
        for c in CONFIGS: gen_config(os.path.join(self.tmp, c), c); gen_std(os.path.join(self.tmp, c))
        build_tool()
        self.viol = []; self.samples = []; self.obl = []; self.units = []; self.stats = dict(functions=0, instructions=0, states=0, events=0, paths=0)
        self.known = load_known().get(pid, [])
        self.selftests = []
        self.minimum = {}
        self.assumptions = []
        self.notes = []
    def inc(self, cfg): return ['-I' + os.path.join(self.tmp, cfg), '-I' + REPO]
    def compile(self, src, cfg, extra=(), std='c++20', out=None, asserts=None):
        """witness -> bitcode"""
        name = os.path.basename(src)
        out = out or os.path.join(self.tmp, '%s.%s.bc' % (name, cfg))
        fl = list(CFLAGS[cfg])
        if asserts is True and '-DNDEBUG' in fl: fl.remove('-DNDEBUG')
        if asserts is False and '-DNDEBUG' not in fl: fl.append('-DNDEBUG')
        cc = lambda src: sh([CLANG, '-std=' + std, '-O1', '-Xclang', '-disable-llvm-passes', '-gline-tables-only', '-w', '-pthread', '-fno-access-control', '-ferror-limit=0',
                '-emit-llvm', '-c', src, '-o', out] + fl + self.inc(cfg) + ['-I' + os.path.join(VERIF, 'witness')] + list(extra))
        r = cc(src)
        for m in re.finditer(re.escape(name) + r':(\d+):\d+: error: static assertion failed(.*)', r.stdout): raise Missing('what line %s of %s asserts of the types does not hold (%s)%s' % (m[1], name, cfg, m[2]))
        for k in range(8):
            # the functions of the witness that do not compile are left out: what is left may already show the violation
            if not r.returncode or not src.startswith(VERIF): break
            lines = open(src if k == 0 else cut).read().split('\n'); body = next((i for i, l in enumerate(lines) if l.startswith('extern "C" {') and ' w_' not in l), None)
            if body is None: break
            bad = {int(n) for n in re.findall(re.escape(name) + r':(\d+):', r.stdout)}; bad = {n for n in bad if n > body + 1 and not lines[n - 1].lstrip().startswith(('#', '}')) and lines[n - 1].strip() and not lines[n - 1].endswith('\\') and not lines[n - 2].endswith('\\')}
            if not bad: break
            self.dropped = getattr(self, 'dropped', []) + ['%s:%d (%s): %s' % (name, n, cfg, lines[n - 1][:80]) for n in sorted(bad)]; err = r.stdout
            for n in bad: lines[n - 1] = ''
            d = os.path.join(self.tmp, 'cut', cfg); os.makedirs(d, exist_ok=True); cut = os.path.join(d, name); open(cut, 'w').write('\n'.join(lines))
            r = cc(cut)
            if not r.returncode: self.notes.append(err[-3000:])
        if r.returncode: raise Broken('witness %s does not compile (%s):\n%s' % (name, cfg, r.stdout[-3000:]))
        return out
    def dump(self, bc, prims, entries):
        exe = build_tool()
        pf = bc + '.prims'; open(pf, 'w').write('\n'.join(prims) + '\n')
        js = bc + '.json'
        r = sh([exe, bc, pf, js] + entries)
        if r.returncode: raise Broken('irx failed on %s: %s' % (bc, r.stdout[-2000:]))
        fns, j = flow.load(js)
        if os.environ.get('VF_KEEP'): print('kept', js)
        return {f.name: f for f in fns}, j
    def ir(self, src, prims, entries=('^w_',), configs=None, extra=(), asserts=None):
        """{cfg: {name: Fn}} for a witness"""
        src = src if os.path.isabs(src) else os.path.join(VERIF, 'witness', src)
        cfgs = configs or list(CONFIGS)
        def one(c):
            ex = list(extra)
            bc = self.compile(src, c, ex, out=os.path.join(self.tmp, '%s.%s%s.bc' % (os.path.basename(src), c, '' if asserts is None else asserts)), asserts=asserts)
            return c, self.dump(bc, prims, list(entries))
        with ThreadPoolExecutor(4) as ex: res = dict(ex.map(one, cfgs))
        out = {}
        for c in cfgs:
            out[c] = res[c][0]
            self.units.append('%s[%s]' % (os.path.basename(src), c))
            self.stats['instructions'] += res[c][1]['instructions']
            self.lastj = res[c][1]
        return out
    def flow(self, fn, rule, tag='', cap=200, max_steps=300000):
        fl = flow.Flow(fn, rule, cap=cap, max_steps=max_steps)
        fl.run()
        self.stats['functions'] += 1
        for k in ('states', 'events', 'paths'): self.stats[k] += fl.stats[k]
        for v in fl.violations:
            self.violation('%s%s: %s' % (tag and '[%s] ' % tag, fn.dem, v['msg']), v['loc'], v['where'], v['path'], key='%s|%s' % (re.sub(r'\W+', '_', fn.dem), v['msg']))
        if fl.stats['paths'] == 0: raise Broken('no path through %s' % fn.dem)
        return fl
    def violation(self, msg, loc='', where='', path=(), key=None):
        self.viol.append(dict(msg=msg, loc=loc, where=where, path=list(path), key=key or msg))
    def obligation(self, name, ok, msg='', loc='', key=None):
        """one decided obligation"""
        self.obl.append((name, bool(ok)))
        if not ok: self.violation('%s: %s' % (name, msg or 'does not hold'), loc, key=key or name)
        return ok
    def count(self, what, n, at_least):
        self.minimum[what] = (n, at_least)
        if n < at_least: raise Missing('rule instance count too small: %s = %d < %d' % (what, n, at_least))
    def selftest(self, name, fired):
        self.selftests.append((name, bool(fired)))
        if not fired: raise Broken('self test: rule did not fire on the broken example: ' + name)
    def finish(self, explanation, rule=''):
        viol = []; known = []
        for v in self.viol:
            e = next((k for k in self.known if k['key'] in v['key'] or k['key'] in v['msg']), None)
            if e: known.append((e, v))
            else: viol.append(v)
        uniq = {}
        for v in viol: uniq.setdefault((v['key'], v['loc']), v)
        viol = list(uniq.values())
        if getattr(self, 'dropped', None) and not viol: raise Broken('not compiled: %s\n%s' % ('; '.join(self.dropped), '\n'.join(self.notes)[-2500:]))
        ev = dict(property=self.pid, tier=self.tier, seed=self.seed, level=self.level, wall_s=round(time.time() - self.t0, 2), violations=len(viol),
                  assumptions=self.assumptions,
                  coverage=dict(explanation=explanation, rule=rule, units=self.units, functions_analysed=self.stats['functions'],
                                ir_instructions=self.stats['instructions'], dataflow_states=self.stats['states'], events_judged=self.stats['events'],
                                paths_to_exit=self.stats['paths'], obligations=len(self.obl) + self.stats['functions'],
                                discharged=sum(1 for o in self.obl if o[1]) + self.stats['functions'] - len({v['key'].split('|')[0] for v in self.viol if '|' in v['key']}),
                                instance_counts={k: v[0] for k, v in self.minimum.items()}, instance_minimums={k: v[1] for k, v in self.minimum.items()},
                                self_tests=[n for n, _ in self.selftests], named_obligations=[o[0] for o in self.obl][:400], samples=self.samples[:20], notes=self.notes,
                                known_findings=[e['id'] for e, _ in known]))
        os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
        json.dump(ev, open(os.path.join(VERIF, 'evidence', self.pid + '.json'), 'w'), indent=1, default=str)
        seen = set()
        for e, v in known:
            if e['id'] in seen: continue
            seen.add(e['id']); print('KNOWN-FINDING: property=%s %s' % (self.pid, e['what']))
        shutil.rmtree(self.tmp, ignore_errors=True)
        if not viol:
            print('%s held: %d functions, %d paths, %d named obligations (%.1fs)' % (self.pid, self.stats['functions'], self.stats['paths'], len(self.obl), time.time() - self.t0))
            sys.exit(0)
        rd = os.path.join(VERIF, 'evidence', 'replay'); os.makedirs(rd, exist_ok=True)
        rp = os.path.join(rd, self.pid + '.txt')
        with open(rp, 'w') as f:
            for v in viol:
                f.write('VIOLATION %s\n  at %s\n  inlined: %s\n' % (v['msg'], v['loc'], v['where']))
                for p in v['path']: f.write('    after %s\n' % p)
        for v in viol[:12]:
            print('  %s at %s' % (v['msg'], v['loc']))
        print('VIOLATION property=%s replay=%s' % (self.pid, rp))
        sys.exit(1)

def load_known():
    d = {}
    p = os.path.join(VERIF, 'known_findings.txt')
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if not l or not l.startswith('{'): continue
            e = json.loads(l)
            if 'fixed' in e: continue
            d.setdefault(e['property'], []).append(e)
    return d

def main(fn, pid, level='other'):
    ck = None
    try:
        ck = Check(pid, level)
        fn(ck)
    except SystemExit: raise
    except Broken as e:
        if ck and (ck.viol or isinstance(e, Missing) and not getattr(ck, 'dropped', None)):
            if not ck.viol: ck.violation('the construct the property needs is not there: %s' % e, '', '')
            ck.finish('stopped early: %s' % e)
        print('ANALYSIS-BROKEN property=%s %s' % (pid, e))
        if ck: shutil.rmtree(ck.tmp, ignore_errors=True)
        sys.exit(2)
    except Exception as e:
        if ck and ck.viol and getattr(ck, 'dropped', None): ck.finish('stopped early: %s' % e)
        traceback.print_exc()
        print('ANALYSIS-BROKEN property=%s %s' % (pid, e))
        if ck: shutil.rmtree(ck.tmp, ignore_errors=True)
        sys.exit(2)

# --------------------------------------------------------------- common primitives
HANDLE_PRIMS = [
    r'byval vf.resume	^(void )?macoro::coroutine_handle<.*>::resume\(\) const$',
    r'byval vf.resume	^std::__n4861::coroutine_handle<.*>::resume\(\) const$',
    r'byval vf.destroy	^macoro::coroutine_handle<.*>::destroy\(\) const$',
    r'byval vf.destroy	^std::__n4861::coroutine_handle<.*>::destroy\(\) const$',
    r'byval vf.done	^macoro::coroutine_handle<.*>::done\(\) const$',
    r'byval vf.done	^std::__n4861::coroutine_handle<.*>::done\(\) const$',
    r'byval vf.std_cast	^macoro::coroutine_handle<.*>::std_cast\(\) const$',
    r'byval vf.promise	^macoro::coroutine_handle<.*>::promise\(\) const$',
    r'byval vf.promise	^std::__n4861::coroutine_handle<.*>::promise\(\) const$',
    r'rename vf.from_promise	^macoro::coroutine_handle<.*>::from_promise\(',
    r'rename vf.from_promise	^std::__n4861::coroutine_handle<.*>::from_promise\(',
]
