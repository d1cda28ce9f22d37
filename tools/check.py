#!/usr/bin/env python3
"""check.py PROPERTY [--tier quick|thorough] [--only REGEX] [--jobs N] [--strict] [--keep]

Decides one property by symbolic execution of the code in /repo (engine in /verif/engine):
every instance is a harness compiled against the current working tree to LLVM IR, executed
symbolically by vx; violations and reachability witnesses are replayed natively."""
import sys, os, re, json, time, subprocess, tempfile, shutil, fcntl, threading, argparse, hashlib
from concurrent.futures import ThreadPoolExecutor
HERE = os.path.dirname(os.path.abspath(__file__)); VERIF = os.path.dirname(HERE)
sys.path.insert(0, HERE)
import specs
REPO = os.environ.get('VX_REPO', '/repo')
CXX = 'clang++-18'; OPT = '/usr/lib/llvm-18/bin/opt'
T0 = time.time()

def ensure_tools():
    b = VERIF + '/build'; os.makedirs(b, exist_ok=True)
    with open(b + '/.lock', 'w') as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        def newer(src, dst): return not os.path.exists(dst) or any(os.path.getmtime(s) > os.path.getmtime(dst) for s in src)
        es = [VERIF + '/engine/' + f for f in os.listdir(VERIF + '/engine')]
        if newer(es, b + '/vx'): subprocess.run(['bash', VERIF + '/engine/build.sh', b], check=True)
        if newer([VERIF + '/replay/rt.cpp', VERIF + '/harness/vx.h'], b + '/rt.o'):
            subprocess.run([CXX, '-std=c++17', '-O1', '-g', '-w', '-I' + VERIF + '/harness', '-c', VERIF + '/replay/rt.cpp', '-o', b + '/rt.o.tmp'], check=True)
            os.rename(b + '/rt.o.tmp', b + '/rt.o')

def run(cmd, timeout, env=None):
    try:
        p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout, env=env)
        return p.returncode, p.stdout.decode('utf8', 'replace')
    except subprocess.TimeoutExpired as e:
        return -99, (e.stdout or b'').decode('utf8', 'replace')

class Job:
    def __init__(self, prop, inst, work, deadline):
        self.prop, self.i, self.work, self.deadline = prop, inst, work, deadline
        self.base = os.path.join(work, re.sub(r'[^A-Za-z0-9_.+-]', '_', inst['name']))
        self.lock = threading.Lock(); self.usync = False
    def flags(self):
        d = dict(self.i.get('defs', {})); d.setdefault('PROP', int(self.prop[1:]))
        return ['-D%s=%s' % kv if kv[1] is not None else '-D' + kv[0] for kv in d.items()]
    def cflags(self):
        inc = ['-I' + x.replace('$REPO', REPO).replace('$VERIF', VERIF) for x in self.i.get('inc', [])]
        return ['-std=' + self.i.get('std', 'c++14'), '-w'] + inc + ['-I' + REPO + '/include', '-I' + VERIF + '/harness'] + self.i.get('xflags', []) + self.flags()
    def src(self): return VERIF + '/harness/' + self.i['src'] + '.cpp'
    def compile(self):
        rc, o = run([CXX, '-O1', '-Xclang', '-disable-llvm-passes', '-gline-tables-only', '-emit-llvm', '-c', '-DVX_SYMBOLIC'] + self.cflags() + [self.src(), '-o', self.base + '.0.bc'], 120)
        if rc: return 'harness does not compile: ' + o[:600]
        rc, o = run([OPT, '-passes=function(sroa,simplifycfg)', self.base + '.0.bc', '-o', self.base + '.bc'], 120)
        if rc: return 'opt failed: ' + o[:300]
    def native(self):
        if os.path.exists(self.base + '.exe'): return None
        rc, o = run([CXX, '-O0', '-g', '-fsanitize=thread', '-c'] + self.cflags() + [self.src(), '-o', self.base + '.o'], 180)
        if rc: return 'native harness does not compile: ' + o[:300]
        rc, o = run([CXX, '-no-pie', '-rdynamic', self.base + '.o', VERIF + '/build/rt.o', '-o', self.base + '.exe', '-pthread', '-ldl'], 120)
        if rc: return 'native link failed: ' + o[:300]
        g = []
        for l in run(['nm', '-S', self.base + '.exe'], 60)[1].splitlines():
            f = l.split()
            if len(f) == 4 and ('ghost' in f[3] or f[3].startswith('_ZGV')): g.append(f[0] + ':' + f[1])
        self.ghost = ','.join(g)
    def replay(self, trace, name, kind=None, seed=0):
        e = self.native()
        if e: return 'error', e
        tf = self.base + '.' + name + '.trace'
        open(tf, 'w').write(trace)
        fl = self.i.get('flags', [])
        env = dict(os.environ, VX_TRACE=tf, VX_GHOST=self.ghost, VX_CLOCK=fl[fl.index('--clock') + 1] if '--clock' in fl else '16')
        if '--hb' in fl: env['VX_HB'] = '1'
        if '--tspec' in fl: env['VX_TSPEC'] = '1'
        if '--spurious' in fl: env['VX_SPURIOUS'] = '1'
        if kind: env['VX_KIND'] = kind
        if self.usync: env['VX_UNLOCKSYNC'] = '1'
        env['VX_EXTSEED'] = str(seed)
        rc, o = run([self.base + '.exe'], 60, env)
        o = o[-3000:]
        if rc == 42 or (rc < 0 and rc != -99 and kind): return 'violation', o if rc == 42 else o + '\nREPLAY-VIOLATION: killed by signal %d' % -rc
        if rc == 0: return 'ok', o
        return 'mismatch', 'exit %d: %s' % (rc, o)
    def run(self):
        i = self.i; r = {'name': i['name'], 'bounds': {'K': i['K'], 'tail': i.get('tail', 0), 'defs': i.get('defs', {}), 'flags': i.get('flags', [])}}
        left = self.deadline - time.time()
        if left < 5: r['outcome'] = 'skipped'; r['note'] = 'time budget of the whole check used up'; return r
        e = self.compile()
        if e: r['outcome'] = 'error'; r['note'] = e; return r
        budget = min(i.get('budget', 120), left)
        ign = list(i.get('ignore', [])); tail = i.get('tail', 0); r['notes'] = []
        for attempt in range(4):
            budget = min(i.get('budget', 120), self.deadline - time.time())
            if budget < 3: r['outcome'] = 'skipped'; r['note'] = 'time budget of the whole check used up'; return r
            cmd = [VERIF + '/build/vx', self.base + '.bc', '-K', str(i['K']), '--tail', str(tail), '--budget', '%.0f' % budget, '-o', self.base + '.json'] + i.get('flags', [])
            if ign: cmd += ['--ignore', ','.join(ign)]
            rc, o = run(cmd, budget + 45)
            try: j = json.load(open(self.base + '.json'))
            except Exception:
                r['outcome'] = 'timeout' if rc == -99 else 'error'; r['note'] = 'engine exit %d: %s' % (rc, o[-400:]); return r
            self.usync = j.get('unlock_sync')
            if j['outcome'] != 'violation' or j['violation']['kind'] != 'progress': break
            # unfinished under the bounded fair continuation: a violation only if a much longer one does not finish either
            outs = [self.replay(j['violation']['trace'], 'progress', 'progress', n)[0] for n in range(6)]
            if 'violation' in outs: break
            if attempt < 2: tail = tail * 2 + 4
            else: ign.append('progress'); r['notes'].append('fair continuation too short to finish within %d rounds; termination not decided here' % tail)
        r['bounds']['tail'] = tail
        for k in ('outcome', 'steps', 'complete', 'queries', 'solver_s', 'wall_s', 'exprs', 'insts', 'states', 'conditions', 'asserts', 'maxrss_mb', 'unsupported', 'functions', 'inconclusive'): r[k] = j.get(k)
        r['covers'] = {k: v['reached'] for k, v in j['covers'].items()}
        r['validated'] = 0; r['samples'] = []
        if j['outcome'] == 'violation':
            v = j['violation']; r['violation'] = {k: v[k] for k in ('kind', 'msg', 'loc', 'step')}
            for n in range(6 if v['kind'] == 'progress' else 1):
                st, out = self.replay(v['trace'], 'violation', v['kind'], n)
                if st == 'violation': break
            r['replay'] = st; r['replay_output'] = out
            r['trace'] = v['trace']
            if st != 'violation':
                r['outcome'] = 'inconclusive'; r['notes'].append('counterexample not reproduced natively (%s): %s' % (st, out[-400:]))
            else: r['validated'] += 1
        else:
            for n, c in sorted(j['covers'].items()):
                if not c['reached']: continue
                if time.time() > self.deadline: break
                st, out = self.replay(c['trace'], 'cover-' + re.sub(r'\W', '_', n))
                if ('REPLAY-COVER ' + n) in out and (st == 'ok' or st == 'mismatch' and ('assumption violated' in out or 'choice not in trace' in out)):  r['validated'] += 1   # a sequential witness is a prefix
                else: r['notes'].append('witness for "%s" did not replay (%s): %s' % (n, st, out[-300:]))
                if len(r['samples']) < 1: r['samples'].append({'instance': i['name'], 'witness_for': n, 'trace': c['trace'].splitlines()[:40]})
            miss = [c for c in i.get('covers', []) if not r['covers'].get(c)]
            if miss: r['notes'].append('vacuity guard: witnesses not reached: ' + ', '.join(miss)); 
            r['missing'] = miss
            if j['outcome'] == 'pass' and not j['complete']: r['notes'].append('executions longer than the step bound are cut')
        if j.get('unsupported'): r['notes'].append('paths cut at constructs outside the encoding: ' + '; '.join(j['unsupported'][:3]))
        for f in (self.base + '.0.bc', self.base + '.o'):
            if os.path.exists(f): os.unlink(f)
        return r

def main():
    ap = argparse.ArgumentParser(); ap.add_argument('prop'); ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--only'); ap.add_argument('--jobs', type=int, default=8); ap.add_argument('--strict', action='store_true'); ap.add_argument('--keep', action='store_true'); ap.add_argument('-v', action='store_true')
    a = ap.parse_args()
    prop = a.prop; tier = a.tier if a.tier in ('quick', 'thorough') else 'quick'
    ensure_tools()
    insts = [i for i in specs.instances(prop) if tier == 'thorough' or i.get('tier', 'q') == 'q']
    if tier == 'thorough':
        names = {i['name'] for i in insts}
    if a.only: insts = [i for i in insts if re.search(a.only, i['name'])]
    work = tempfile.mkdtemp(prefix='vx-%s-' % prop)
    deadline = T0 + (560 if tier == 'quick' else 800)
    results = []
    try:
        jobs = [Job(prop, i, work, deadline) for i in sorted(insts, key=lambda i: -i.get('cost', 1))]
        with ThreadPoolExecutor(a.jobs) as ex:
            for r in ex.map(lambda j: safe(j), jobs):
                results.append(r)
                if a.v or a.strict: print('%-46s %-12s %s steps=%s t=%.1f rss=%s val=%s %s' % (r['name'], r['outcome'], '' if r.get('complete') else 'CUT', r.get('steps'), r.get('wall_s') or 0, r.get('maxrss_mb'), r.get('validated'), [k for k, x in r.get('covers', {}).items() if not x] or ''), r.get('note') or '', r.get('violation') or '', flush=True)
        rc = report(prop, tier, results, a)
    finally:
        if a.keep: print('kept', work)
        else: shutil.rmtree(work, ignore_errors=True)
    sys.exit(rc)

def safe(j):
    try: return j.run()
    except Exception as e: return {'name': j.i['name'], 'outcome': 'error', 'note': 'driver: %r' % e}

def known():
    try: return [k for k in json.load(open(VERIF + '/known-findings.json')) if k.get('status') == 'known']
    except FileNotFoundError: return []

def report(prop, tier, results, a):
    ev = VERIF + '/evidence'; os.makedirs(ev, exist_ok=True)
    viol, kf = [], []
    for r in results:
        if r['outcome'] != 'violation': continue
        k = [k for k in known() if k['property'] == prop and re.fullmatch(k['instance'], r['name']) and k['msg'] == r['violation']['msg']]
        if k: kf.append((r, k[0]))
        else: viol.append(r)
    incon = [r for r in results if r['outcome'] not in ('pass', 'violation')]
    bad = [r for r in results if r['outcome'] != 'violation' and (r['outcome'] != 'pass' or r.get('notes'))]
    for r in bad: print('INCOMPLETE %s: %s %s %s' % (r['name'], r['outcome'], r.get('note') or r.get('inconclusive') or '', '; '.join(r.get('notes', []))))
    for r, k in kf: print('KNOWN-FINDING: property=%s %s' % (prop, k['what']))
    for f in os.listdir(ev):
        if f.startswith(prop + '-violation-'): os.unlink(os.path.join(ev, f))
    for n, r in enumerate(viol):
        p = '%s/%s-violation-%d.json' % (ev, prop, n)
        json.dump({'property': prop, 'instance': r['name'], 'bounds': r['bounds'], 'violation': r['violation'], 'trace': r['trace'].splitlines(), 'native_replay': r['replay_output'].splitlines()[-20:],
                   'how_to_replay': 'python3 %s/tools/check.py %s --tier %s --only "^%s$" --keep' % (VERIF, prop, tier, re.escape(r['name']))}, open(p, 'w'), indent=1)
        print('VIOLATION property=%s replay=%s  # %s: %s: %s' % (prop, p, r['name'], r['violation']['kind'], r['violation']['msg']))
    funcs = sorted({f for r in results for f in r.get('functions') or []})
    S = lambda k: sum(r.get(k) or 0 for r in results)
    full = [r for r in results if r['outcome'] == 'pass' and r.get('complete')]
    samples = [s for r in results for s in r.get('samples', [])][:4] + [{'instance': r['name'], 'counterexample': r['violation']} for r in viol][:3]
    if not samples: samples = [{'instance': r['name'], 'outcome': r['outcome']} for r in results][:3]
    e = {'property': prop, 'tier': tier, 'seed': int(os.environ.get('VERIF_SEED', '1') or 1), 'level': 'model_checking', 'wall_s': round(time.time() - T0, 2), 'violations': len(viol),
         'coverage': {'states': S('states'), 'transitions': S('insts'), 'traces_validated_against_impl': S('validated'), 'samples': samples,
                      'explanation': 'states: symbolic states merged or forked by the executor; transitions: IR instructions executed symbolically; every witness and counterexample is replayed on the natively compiled code',
                      'instances': len(results), 'instances_decided': len([r for r in results if r['outcome'] in ('pass', 'violation')]), 'instances_all_executions_complete': len(full),
                      'queries': S('queries'), 'solver_s': round(S('solver_s'), 2), 'conditions': S('conditions'), 'functions_encoded': funcs,
                      'incomplete': [{'instance': r['name'], 'outcome': r['outcome'], 'why': r.get('note') or r.get('inconclusive') or '; '.join(r.get('notes', []))} for r in bad],
                      'instance_results': [{'name': r['name'], 'outcome': r['outcome'], 'complete': r.get('complete'), 'bounds': r.get('bounds'), 'steps': r.get('steps'), 'queries': r.get('queries'), 'solver_s': r.get('solver_s'), 'wall_s': r.get('wall_s'), 'witnesses': r.get('covers')} for r in results],
                      'known_findings': [k['what'] for _, k in kf]},
         'assumptions': specs.ASSUMPTIONS}
    json.dump(e, open('%s/%s.json' % (ev, prop), 'w'), indent=1)
    print('%s %s: %d instances, %d decided, %d violations, %d incomplete, %d queries, solver %.1fs, %d traces replayed, wall %.1fs' % (prop, tier, len(results), len([r for r in results if r['outcome'] in ('pass', 'violation')]), len(viol), len(bad), S('queries'), S('solver_s'), S('validated'), time.time() - T0))
    if viol: return 1
    return 3 if a.strict and bad else 0
if __name__ == "__main__": main()
