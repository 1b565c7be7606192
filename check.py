#!/usr/bin/env python3
"""Decides one property by symbolic execution of the compiled crate.

    check.py PROPERTY [quick|thorough]

Builds the engine, compiles /repo's working tree with the property's harnesses
to LLVM IR, lets the engine execute it for symbolic inputs and an SMT solver
decide every resulting obligation, replays each counterexample natively
(debug and release build of the real crate) and rewrites evidence/PROPERTY.json.
Exit 0: held within the bounds; 1: VIOLATION line printed; 2: could not run.
"""
import json, os, random, re, shutil, signal, subprocess, sys, tempfile, threading, time
from plan import PLAN

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = '/repo'
TOOL = 'stable-x86_64-unknown-linux-gnu'
SOLVER = 'z3 -in'
SOLVER2 = 'cvc5 --incremental --lang=smt2'

def log(*a): print(*a, flush=True)

class Broken(Exception): pass

class Run:
    def __init__(self, prop, tier):
        self.prop, self.tier, self.plan = prop, tier, PLAN[prop]
        self.seed = int(os.environ.get('VERIF_SEED', '1') or 1)
        self.t0 = time.time()
        self.scratch = tempfile.mkdtemp(prefix='vpcheck-%s-' % prop, dir='/tmp')
        self.env = dict(os.environ, RUSTUP_TOOLCHAIN=TOOL, CARGO_NET_OFFLINE='true', CARGO_TERM_COLOR='never')
        for k in ('RUSTFLAGS', 'CARGO_ENCODED_RUSTFLAGS', 'CARGO_BUILD_TARGET', 'CARGO_TARGET_DIR', 'CARGO_BUILD_RUSTFLAGS'): self.env.pop(k, None)
        self.times = {}

    # ---- building -------------------------------------------------------
    def cargo(self, where, target, args):
        t = time.time()
        # an own copy of the manifests' directory: nothing is written into /verif
        env = dict(self.env, CARGO_TARGET_DIR=os.path.join(self.scratch, target))
        p = subprocess.run(['cargo'] + args, cwd=os.path.join(VERIF, where), env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        self.times['build ' + target] = round(time.time() - t, 1)
        if p.returncode != 0: raise Broken('cargo %s in %s failed:\n%s' % (' '.join(args), where, p.stdout[-4000:]))
    def build_ir(self, feature):
        target = 'ir-' + feature
        self.cargo('harness', target, ['rustc', '--lib', '--crate-type', 'staticlib', '--offline', '--release', '--features', feature, '--',
            '--emit=llvm-ir', '-C', 'no-vectorize-loops', '-C', 'no-vectorize-slp', '-C', 'llvm-args=-inline-threshold=0'])
        d = os.path.join(self.scratch, target, 'release', 'deps')
        f = [x for x in os.listdir(d) if x.startswith('vpharness') and x.endswith('.ll')]
        if len(f) != 1: raise Broken('expected one IR file, found %s' % f)
        return os.path.join(d, f[0])
    def build(self):
        feats = sorted(self.features())
        res, errs = {}, []
        def go(k, f):
            try: res[k] = f()
            except Exception as e: errs.append(e)
        th = [threading.Thread(target=go, args=('engine', lambda: self.cargo('engine', 'engine', ['build', '--release', '--offline'])))]
        for f in feats: th.append(threading.Thread(target=go, args=('ir ' + f, lambda f=f: self.build_ir(f))))
        def rep():
            self.cargo('replay', 'replay', ['build', '--offline'])
            self.cargo('replay', 'replay', ['build', '--offline', '--release'])
        th.append(threading.Thread(target=go, args=('replay', rep)))
        for t in th: t.start()
        for t in th: t.join()
        if errs: raise Broken(str(errs[0]))
        self.engine = os.path.join(self.scratch, 'engine', 'release', 'llsym')
        self.replay = {p: os.path.join(self.scratch, 'replay', p, 'replay') for p in ('debug', 'release')}
        self.ir = {f: res['ir ' + f] for f in feats}
    def features(self):
        return set(self.jobs()) | {f for f, _ in self.plan['traces']}
    def jobs(self):
        """feature -> list of jobs of this tier"""
        o = {}
        for f, j in self.plan['quick'] + (self.plan.get('thorough', []) if self.tier == 'thorough' else []):
            if j not in o.setdefault(f, []): o[f].append(j)
        return o

    # ---- native execution ----------------------------------------------
    def native(self, profile, harness, inputs):
        """None if the property held on this input, else what happened"""
        if harness.startswith('c_'): return None
        n = max(inputs) + 1 if inputs else 0
        args = [self.replay[profile], os.path.join(VERIF, 'ref'), harness] + ['%x' % inputs.get(i, 0) for i in range(n)]
        try: p = subprocess.run(args, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, timeout=20, errors='replace',
                                preexec_fn=lambda: __import__('resource').setrlimit(__import__('resource').RLIMIT_AS, (8 << 30, 8 << 30)))
        except subprocess.TimeoutExpired: return 'does not terminate within 20 s'
        if p.returncode == 0: return None
        if p.returncode == 3: return 'assertion %s of harness %s fails' % (p.stdout.strip().split(' ')[-1], harness)
        if p.returncode < 0:
            m = [l for l in p.stderr.split('\n') if l and 'nounwind' not in l and 'RUST_BACKTRACE' not in l]
            return 'aborts with signal %d: %s' % (-p.returncode, ' '.join(m[:3])[:400])
        return None if p.returncode in (4, 5) else 'replay exit %d: %s' % (p.returncode, p.stderr[:200])

    # ---- traces: the encoding against the real code on concrete inputs ---
    def trace_inputs(self, harness):
        rnd = random.Random(self.seed * 7919 + sum(map(ord, self.prop + harness)))
        n = 60 if self.tier == 'quick' else 400
        if harness == 'c_value': return [[k, i] for k, c in enumerate([30, 23, 25, 330, 165, 14, 24, 6, 36, 18, 4, 55]) for i in rnd.sample(range(c), min(4, c))]
        strings = []
        td = os.path.join(REPO, 'tests')
        for f in sorted(os.listdir(td)) if os.path.isdir(td) else []:
            if not f.endswith('.rs'): continue
            src = open(os.path.join(td, f), encoding='utf-8', errors='replace').read()
            for m in re.finditer(r'"((?:\\u\{[0-9A-Fa-f]+\})+)"', src):
                s = [int(x, 16) for x in re.findall(r'\{([0-9A-Fa-f]+)\}', m.group(1))]
                if len(s) <= 6 and all(x < 0x110000 and not 0xD800 <= x < 0xE000 for x in s): strings.append(s)
        if harness == 'c_text':
            # test inputs of the repository, plus random strings over their characters
            pool = sorted({c for s in strings for c in s}) or [0x41, 0x301]
            out = []
            for k in range(n):
                s = rnd.choice(strings) if strings and k % 2 else [rnd.choice(pool) for _ in range(rnd.randint(0, 5))]
                out.append([self.plan.get('what', [0, 1, 2, 3, 4])[k % len(self.plan.get('what', [0, 1, 2, 3, 4]))], len(s)] + s)
            return out
        pool = sorted({c for s in strings for c in s})
        out = [[x] for x in (0, 0x7F, 0x80, 0xFF, 0x100, 0xD7FF, 0xFFFF, 0x10000, 0x10FFFF, 0xAC00, 0xD7A3)]
        while len(out) < n: out.append([rnd.choice(pool) if pool and rnd.random() < .5 else rnd.choice([rnd.randrange(0x110000), rnd.randrange(0x3000), rnd.randrange(0x20000)])])
        if harness == 'c_chars': out = [o for o in out if not 0xD800 <= o[0] < 0xE000]
        return out
    def traces(self):
        count, samples, bad = 0, [], []
        for feat, h in self.plan['traces']:
            ins = self.trace_inputs(h)
            text = ''.join(' '.join(map(str, x)) + '\n' for x in ins)
            a = subprocess.run([self.engine, '--ir', self.ir[feat], '--ref', os.path.join(VERIF, 'ref'), '--conc', h], input=text, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True, timeout=300)
            a = a.stdout.split('\n')[:-1]
            for prof in ('debug', 'release'):
                try: b = subprocess.run([self.replay[prof], os.path.join(VERIF, 'ref'), h, 'batch'], input=text, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True, timeout=120).stdout.split('\n')[:-1]
                except subprocess.TimeoutExpired as e: b = (e.stdout or b'').decode().split('\n')[:-1]
                for x, u, v in zip(ins, a, b):
                    if not u.startswith('ok'): continue
                    if u.split() == v.split(): count += 1
                    else: bad.append('%s %s: encoding %s, native %s: %s' % (h, x, u[:200], prof, v[:200]))
            for k in range(min(3, len(ins), len(a))): samples.append({'harness': h, 'inputs': ['%X' % v for v in ins[k]], 'outputs': a[k][:200]})
        return count, samples, bad

    # ---- symbolic execution ---------------------------------------------
    def symbolic(self, solver=SOLVER, only=None, seconds=None):
        outs = []
        jobs = self.jobs()
        secs = seconds or self.plan.get('seconds', {}).get(self.tier, 300 if self.tier == 'quick' else 3000)
        procs = []
        for feat in sorted(jobs):
            js = [j for j in jobs[feat] if only is None or j in only]
            if not js: continue
            out = os.path.join(self.scratch, 'out-%s-%s.json' % (feat, solver.split()[0]))
            args = [self.engine, '--ir', self.ir[feat], '--ref', os.path.join(VERIF, 'ref'), '--threads', str(os.cpu_count() or 8), '--seconds', str(secs),
                    '--query-ms', '60000', '--solver', solver, '--out', out]
            for j in js: args += ['--job', j]
            t = time.time()
            p = subprocess.run(args, stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, text=True, errors='replace')
            self.times['solve ' + feat] = round(time.time() - t, 1)
            if p.returncode == 1 or p.returncode > 0 and p.returncode != 101: raise Broken('engine failed (%s): %s' % (p.returncode, p.stderr[-2000:]))
            if p.returncode != 0 or not os.path.exists(out):
                # ended from outside (memory) or stuck in an unforeseen case: nothing decided
                outs.append({'jobs': [], 'queries': 0, 'solver_s': 0, 'solver_max_s': 0, 'ended': 'the engine ended with %s: %s' % (p.returncode, p.stderr[-300:])})
                continue
            outs.append(json.load(open(out)))
        return outs

    def known(self):
        o = []
        for l in open(os.path.join(VERIF, 'known-findings.txt'), encoding='utf-8'):
            m = re.match(r'known: property=(\S+) harness=(\S+) inputs=(\S*) (.*)', l)
            if m and m.group(1) == self.prop: o.append((m.group(2), m.group(3), m.group(4).strip()))
        return o

    def main(self):
        self.build()
        tb = time.time() - self.t0
        ntr, samples, bad = self.traces()
        outs = self.symbolic()
        jobs = [j for o in outs for j in o['jobs']]
        known, listed, viol, unrep, incomplete = self.known(), [], [], [], {}
        for o in outs:
            if 'ended' in o: incomplete[o['ended']] = 1
        treplay = time.time()
        for j in jobs:
            for k, v in j['incomplete'].items(): incomplete['%s %s: %s' % (j['harness'], j['part'], k)] = v
            if j['unknown'] or j['pending']: incomplete['%s %s: %d undecided, %d not reached' % (j['harness'], j['part'], j['unknown'], j['pending'])] = 1
            if not j['covers'] and not j['cands'] and not j['incomplete']: incomplete['%s %s: end of the harness not reachable' % (j['harness'], j['part'])] = 1
            got = 0
            for c in j['cands'][:40]:
                inp = {int(k): int(v) for k, v in c['inputs'].items()}
                key = ','.join('%X' % inp[k] for k in sorted(inp))
                hit = [x for x in known if x[0] == j['harness'] and x[1] == key]
                if hit: listed.append(hit[0]); continue
                if got >= 2 or len(viol) >= 6 or time.time() - treplay > 150: continue
                r = {p: self.native(p, j['harness'], inp) for p in ('debug', 'release')}
                if r['debug'] or r['release']:
                    got += 1
                    viol.append({'property': self.prop, 'harness': j['harness'], 'part': j['part'], 'inputs': ['%X' % inp[k] for k in sorted(inp)], 'engine': [c['kind'], c['msg']], 'native_debug': r['debug'], 'native_release': r['release']})
                else: unrep.append({'harness': j['harness'], 'inputs': ['%X' % inp[k] for k in sorted(inp)], 'engine': [c['kind'], c['msg']]})
        second = None
        if self.tier == 'thorough' and not viol and self.plan.get('cross'):
            o2 = self.symbolic(SOLVER2, self.plan['cross'], 900)
            q2 = sum(o['queries'] for o in o2)
            second = {'solver': SOLVER2, 'harnesses': self.plan['cross'], 'queries': q2, 'unsat': sum(j['unsat'] for o in o2 for j in o['jobs']), 'sat': sum(j['sat'] for o in o2 for j in o['jobs']), 'unknown': sum(j['unknown'] for o in o2 for j in o['jobs'])}
        fns = sorted({f for j in jobs for f in j['fns'] if 'seshat' in f})
        other = {f for j in jobs for f in j['fns'] if 'seshat' not in f}
        s = lambda k: sum(j[k] for j in jobs)
        for v in viol: samples.append({'counterexample': v})
        for k in jobs[:4]: samples.append({'harness': k['harness'], 'part': k['part'], 'input_domain_sizes': k['domains'], 'paths': k['paths'], 'queries': k['queries'], 'witness_reached_end': bool(k['covers'])})
        ev = {'property': self.prop, 'tier': self.tier, 'seed': self.seed, 'level': 'model_checking', 'wall_s': round(time.time() - self.t0, 1), 'violations': len(viol),
            'coverage': {
                'states': s('states') + s('paths'), 'transitions': s('steps'), 'traces_validated_against_impl': ntr, 'samples': samples,
                'exhaustive': not incomplete and not unrep and not bad,
                'bounds': self.plan['bounds'],
                'jobs': [{k: j[k] for k in ('harness', 'part', 'secs', 'paths', 'steps', 'states', 'merged', 'asserts', 'asserts_const', 'obligations', 'certs', 'queries', 'unsat', 'sat', 'unknown', 'pending', 'domains', 'covers')} for j in jobs],
                'functions_encoded': fns, 'other_functions_encoded': len(other),
                'queries': sum(o['queries'] for o in outs), 'unsat': s('unsat'), 'sat': s('sat'), 'solver': SOLVER, 'solver_s': round(sum(o['solver_s'] for o in outs), 2), 'solver_max_s': round(max([o['solver_max_s'] for o in outs] or [0]), 2),
                'folded_without_solver': s('ground') + s('asserts_const'), 'second_solver': second,
                'undecided': incomplete, 'counterexamples_not_reproduced': unrep, 'trace_disagreements': bad[:5], 'seconds': dict(self.times, build=round(tb, 1)),
            },
            'assumptions': self.plan.get('assumptions', []) + COMMON}
        os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
        json.dump(ev, open(os.path.join(VERIF, 'evidence', self.prop + '.json'), 'w'), indent=1)
        for k in sorted({x for x in listed}): log('KNOWN-FINDING: property=%s %s' % (self.prop, k[2]))
        for i, v in enumerate(viol):
            f = 'evidence/%s.violation-%d.json' % (self.prop, i)
            v['how'] = 'cd /verif/replay && cargo +stable run --offline -- /verif/ref %s %s' % (v['harness'], ' '.join(v['inputs']))
            json.dump(v, open(os.path.join(VERIF, f), 'w'), indent=1)
            log('%s %s: %s' % (v['harness'], ' '.join(v['inputs']), v['native_debug'] or v['native_release']))
            log('VIOLATION property=%s replay=%s' % (self.prop, f))
        if viol: return 1
        for u in unrep: log('NOTE counterexample does not reproduce natively (not a violation):', json.dumps(u))
        for k in sorted(incomplete): log('UNDECIDED', k)
        if bad:
            log('encoding disagrees with the real code:', bad[0])
            return 2
        log('%s %s: %d jobs, %d queries (%d unsat), solver %.1f s, %d traces, wall %.0f s%s' % (self.prop, self.tier, len(jobs), ev['coverage']['queries'], s('unsat'), ev['coverage']['solver_s'], ntr, ev['wall_s'], '' if not incomplete else ', %d undecided' % len(incomplete)))
        return 0

COMMON = [
    'The encoding is the LLVM IR rustc (stable) emits for /repo and the harness with optimisation and overflow checks; rustc and the later machine-code generation are trusted, and spot-checked by the traces.',
    'One thread runs: atomic operations are plain loads and stores. Keys of hash maps, if any code uses them, are one fixed value.',
    'Heap allocation always succeeds; memory is byte-exact, with every access bounds-checked against its object.',
    'The reference tables in /verif/ref were generated once from the UCD 15.1.0 files (their transcriptions under tools/ucd-tool/data at the pinned commit) and are trusted; derived properties, full decompositions and primary composites were computed from them by the definitions of the standard.',
    'The SMT solver is trusted; counterexamples are not (they are replayed natively).',
]

def main():
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get('VERIF_TIER', 'quick')
    if tier not in ('quick', 'thorough'): tier = 'quick'
    r = Run(prop, tier)
    def stop(*_): shutil.rmtree(r.scratch, ignore_errors=True); os._exit(2)
    signal.signal(signal.SIGTERM, stop)
    try: code = r.main()
    except Broken as e: log('ERROR', e); code = 2
    finally: shutil.rmtree(r.scratch, ignore_errors=True)
    sys.exit(code)
if __name__ == '__main__': main()
