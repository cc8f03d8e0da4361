#!/usr/bin/env python3-vt
"""Decides one property: extracts the functions under contract from /repo's
current sources, generates every proof obligation and lets the solvers
discharge them.  usage: check.py P07 [--tier quick|thorough]"""
import sys, os, time, json, argparse, subprocess, tempfile, shutil, threading, multiprocessing as mp, signal, re
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, 'vt')); sys.path.insert(0, os.path.join(HERE, 'contracts'))
sys.setrecursionlimit(20000)
threading.stack_size(256 * 1024 * 1024)
import importlib

ap = argparse.ArgumentParser()
ap.add_argument('property')
ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
ap.add_argument('--jobs', type=int, default=8)
ap.add_argument('--no-replay', action='store_true')
A = ap.parse_args()
PID = A.property; TIER = 'thorough' if A.tier == 'thorough' else 'quick'
SEED = int(os.environ.get('VERIF_SEED', '1') or 1)
SRC = os.environ.get('FISX_SRC', '/repo/src')
FN_TIMEOUT = 420 if TIER == 'quick' else 1500
OB_TIMEOUT = 12.0 if TIER == 'quick' else 40.0
DEADLINE = time.time() + (780 if TIER == 'quick' else 3000)

ASSUME = [
 'C++ double arithmetic is treated as exact real arithmetic (no rounding, overflow, infinities or NaN)',
 'C++ integers are treated as mathematical integers; only unsigned subtraction is modelled with its wrap-around',
 'clang-18 AST of the sources is the program that runs (gcc and clang agree on it)',
 'the C++ library calls the functions use (vector, map, string, pair, iterators, sort, bounds, math functions) behave as in the built-in models of vt/exec.py and vt/solver.py',
 'objects reached through different references do not alias; a reference argument does not alias a member of the object unless the contract says so',
 'output to std::cout/std::cerr and the text of exception messages are dropped by the extraction (no effect on values)',
 'memory allocation does not fail',
 'soundness of the verification-condition generator in vt/ and of the SMT solvers',
]

class Harness:
    """the replay harness: compiled against /repo's current sources; searches for a concrete failing input"""
    def __init__(self, pid):
        self.src = os.path.join(HERE, 'replay', pid + '.cpp')
        self.have = os.path.exists(self.src) and not A.no_replay
        self.ok = None; self.fails = []; self.evals = 0; self.log = ''; self.notes = []
        self.thread = None; self.exe = None; self.dir = None
        if self.have:
            self.thread = threading.Thread(target=self.guarded); self.thread.start()
    def guarded(self):
        try:
            self.work()
        except Exception as e:
            self.log += 'harness error: %s\n' % e
    def work(self):
        d = self.dir = tempfile.mkdtemp(prefix='fisxvt-')
        if True:
            flags = ['-std=gnu++17', '-O1', '-w', '-D_GLIBCXX_ASSERTIONS', '-I' + SRC, '-I' + os.path.join(HERE, 'replay')]
            srcs = sorted(os.path.join(SRC, f) for f in os.listdir(SRC) if f.endswith('.cpp')) + [self.src]
            procs = []; objs = []
            for s in srcs:
                o = os.path.join(d, os.path.basename(s) + '.o'); objs.append(o)
                procs.append((s, subprocess.Popen(['g++'] + flags + ['-c', s, '-o', o], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)))
            bad = False
            for s, p in procs:
                out, _ = p.communicate(timeout=300)
                if p.returncode != 0:
                    bad = True; self.log += '%s does not compile: %s\n' % (s, out[-2000:])
            if bad:
                return
            exe = os.path.join(d, 'h')
            r = subprocess.run(['g++', '-o', exe] + objs, capture_output=True, text=True, timeout=120)
            if r.returncode != 0:
                self.log += 'link: ' + r.stderr[-2000:]; return
            self.exe = exe
            self.run(SEED, TIER, 150 if TIER == 'quick' else 900)
            self.ok = not self.fails
    def run(self, seed, tier, limit):
        d = self.dir
        env = dict(os.environ, VERIF_SEED=str(seed), VERIF_TIER=tier, SCRATCH=d, VT_DIR=HERE)
        with open(os.path.join(d, 'log'), 'w+') as lf:
            p = subprocess.Popen([self.exe], stdout=lf, stderr=subprocess.STDOUT, env=env, cwd=d, start_new_session=True)
            try:
                rc = p.wait(timeout=limit)
            except subprocess.TimeoutExpired:
                os.killpg(p.pid, signal.SIGKILL); p.wait(); rc = 'timeout'
            lf.seek(0); out = lf.read()
        cur = ''
        for l in out.splitlines():
            if l.startswith('FAIL '):
                self.fails.append(l[5:])
            elif l.startswith('EVALS '):
                self.evals += int(l.split()[1])
            elif l.startswith('SAMPLE '):
                self.notes.append(l[7:])
            elif l.startswith('AT '):
                cur = l[3:]
        self.log += out[-4000:]
        if rc == 1 and not self.fails:
            self.fails.append('harness reports a failure at ' + cur)
        if rc == 'timeout':
            self.fails.append('hang at ' + cur)
        elif rc not in (0, 1):
            self.fails.append('crash (status %s) at %s' % (rc, cur))
        if self.fails:
            self.failseed = (seed, tier)
    def hunt(self, seconds):
        """an obligation failed: look longer for a concrete failing input"""
        t = time.time(); k = 0
        while self.exe and not self.fails and time.time() - t < seconds and k < 40:
            k += 1
            self.run(SEED * 1000 + k, 'thorough', 900 if TIER == 'thorough' else max(60, seconds))
        return self.fails
    def clean(self):
        if self.dir:
            shutil.rmtree(self.dir, ignore_errors=True)
    def join(self):
        if self.thread:
            self.thread.join()

def worker(con, prog, cons, conn, thorough, held):
    def go():
        import contract, solver as S
        S.HELD = held
        try:
            r = contract.verify(prog, cons, con, OB_TIMEOUT, thorough=thorough, configs=S.CONFIGS)
            d = r.as_dict()
            if thorough:
                d['cvc5'] = S.cvc5_confirm(r.obls)
        except BaseException as e:
            d = dict(name=con.name, error='internal: %s' % e, obls=[], wall=0.0)
        conn.send(d); conn.close()
        os._exit(0)
    t = threading.Thread(target=go); t.start(); t.join()

def run_all(prog, cons, todo, thorough):
    """one process per function; the contracts a function relies on are verified too"""
    bym = {c.name: c for c in cons.values()}
    import solver as S
    S.TOKENS = mp.Semaphore(8)
    done = {}; running = []; queued = list(todo); seen = set(id(c) for c in queued)
    queued.sort(key=lambda c: -c.opts.get('weight', 1))
    while queued or running:
        while queued and len(running) < A.jobs and S.TOKENS.acquire(False):
            c = queued.pop(0)
            a, b = mp.Pipe(False); h = mp.Value('i', 0)
            p = mp.Process(target=worker, args=(c, prog, cons, b, thorough, h)); p.start(); b.close()
            running.append((c, p, a, time.time(), h))
        nxt = []
        def over(h):
            for _ in range(1 + max(0, h.value)):
                S.TOKENS.release()
        for c, p, a, t, h in running:
            if a.poll(0.02):
                try:
                    d = a.recv()
                except EOFError:
                    d = dict(name=c.name, error='verifier process died', obls=[], wall=time.time() - t)
                p.join(); done[c.name] = d; over(h)
                for m in d.get('called', []):
                    k = bym.get(m)
                    if k is not None and not k.trusted and id(k) not in seen:
                        seen.add(id(k)); queued.append(k)
            elif not p.is_alive() and not a.poll(0.05):
                p.join(); done[c.name] = dict(name=c.name, error='verifier process died', obls=[], wall=time.time() - t); over(h)
            elif time.time() - t > FN_TIMEOUT or time.time() > DEADLINE:
                p.kill(); p.join(); done[c.name] = dict(name=c.name, error='not decided within the time limit', obls=[], wall=time.time() - t); over(h)
            else:
                nxt.append((c, p, a, t, h))
        running = nxt
    return done

def known():
    out = []
    f = os.path.join(HERE, 'KNOWN_FINDINGS.txt')
    if os.path.exists(f):
        for l in open(f):
            m = re.match(r'finding: property=(\S+) match="([^"]*)" (.*)', l.strip())
            if m and m.group(1) == PID:
                out.append((m.group(2), m.group(3)))
    return out

def main():
    t0 = time.time()
    evp = os.path.join(HERE, 'evidence', PID + '.json')
    os.makedirs(os.path.dirname(evp), exist_ok=True)
    rep = os.path.join(HERE, 'evidence', PID + '.replay.txt')
    for f in (evp, rep):
        if os.path.exists(f):
            os.remove(f)
    H = Harness(PID)
    import cxxast, values, contract
    errors = []; done = {}; nfun = 0; trusted = []
    try:
        prog = cxxast.Program().load(sorted(f for f in os.listdir(SRC) if f.endswith('.cpp')))
        values.set_records(prog.records)
        for f in sorted(os.listdir(os.path.join(HERE, 'contracts'))):
            if f.endswith('.py') and not f.startswith('_'):
                importlib.import_module(f[:-3])
        cons = {}; todo = []
        for c in contract.Contract.REG:
            try:
                cons[c.bind(prog)] = c
                if PID in c.prop and not c.trusted:
                    todo.append(c)
            except Exception as e:
                if PID in c.prop:
                    errors.append(dict(fn=c.name, ob='function under contract', kind='extraction', loc='', status=str(e), out=''))
        for c in contract.Contract.REG:
            if PID in c.prop and c.trusted:
                trusted.append('%s: %s' % (c.name, c.trusted))
        done = run_all(prog, cons, todo, TIER == 'thorough')
    except Exception as e:
        import traceback
        errors.append(dict(fn='', ob='extraction', kind='extraction', loc='', status='%s: %s' % (type(e).__name__, e), out=traceback.format_exc()[-3000:]))
    H.join()
    nob = ndis = 0; bybk = {}; stime = 0.0; samples = []; funcs = []; failed = list(errors); cv = dict(confirmed=0, tried=0)
    for nm in sorted(done):
        d = done[nm]
        if d.get('error'):
            failed.append(dict(fn=nm, ob='verification of the function', kind='error', loc='', status=d['error'], out=d.get('tb', '')))
        ok = 0
        for o in d['obls']:
            nob += 1; stime += o['time']
            if o['status'] == 'valid':
                ndis += 1; ok += 1; bybk[o['backend']] = bybk.get(o['backend'], 0) + 1
            else:
                failed.append(dict(fn=nm, ob=o['name'], kind=o['kind'], loc=o['loc'], status='%s (%s %s)' % (o['status'], o['backend'], o['reason']), out=o.get('out', ''), model=o.get('model', '')))
        funcs.append(dict(function=nm, at=d.get('line', ''), obligations=len(d['obls']), discharged=ok, wall_s=round(d['wall'], 2), loops=d.get('loops', []), inlined=d.get('inlined', [])))
        trusted += ['%s: %s' % (nm, t) for t in d.get('trusted', [])]
        if 'cvc5' in d:
            cv['confirmed'] += d['cvc5'][0]; cv['tried'] += d['cvc5'][1]
    trusted = sorted(set(trusted))
    kf = known(); hits = set(); viol = []; conc = []
    for f in failed:
        s = '%s :: %s' % (f['fn'], f['ob'])
        k = [x for x in kf if x[0] in s]
        if k:
            hits.update(k)
        else:
            viol.append(f)
    for f in H.fails:
        k = [x for x in kf if f.startswith(x[0])]
        if k:
            hits.update(k)
        else:
            conc.append(f)
    for _, t in sorted(hits):
        print('KNOWN-FINDING: property=%s %s' % (PID, t))
    dropped = sorted(set(x for d in done.values() for x in d.get('dropped', [])))
    # no obligation failed, but the verifier could not process a function (construct outside its language, renamed
    # member, time limit): nothing is proved about that function on this source; the bounded harness stands in for it
    und = [f for f in viol if f['kind'] in ('extraction', 'error')]
    viol = [f for f in viol if f['kind'] not in ('extraction', 'error')]
    if (viol or und) and not conc and H.ok:
        left = DEADLINE - time.time()
        for f in H.hunt(min(90 if TIER == 'quick' else 600, max(0, left))):
            k = [x for x in kf if f.startswith(x[0])]
            if k:
                hits.update(k)
            else:
                conc.append(f)
    ev = dict(property=PID, tier=TIER, seed=SEED, level='proof',
              coverage=dict(obligations=nob, discharged=ndis, checker_cmd='python3-vt check.py %s --tier %s' % (PID, TIER),
                            trusted_base=ASSUME + trusted, functions_under_contract=funcs, discharged_by_backend=bybk, solver_time_s=round(stime, 2),
                            extraction_drops=dropped, cvc5_second_opinion=cv if TIER == 'thorough' else 'thorough tier only',
                            replay_harness=dict(compiled=H.ok is not None, concrete_evaluations=H.evals, role='bounded: replays on the compiled code; never counted as proved', samples=H.notes[:5]),
                            undecided_functions=['%s: %s' % (f['fn'], f['status']) for f in und],
                            failed_obligations=['%s :: %s' % (f['fn'], f['ob']) for f in viol][:50]),
              assumptions=ASSUME, wall_s=round(time.time() - t0, 2), violations=1 if (viol or conc) else 0)
    json.dump(ev, open(evp, 'w'), indent=1)
    print('%s %s: %d functions, %d/%d obligations discharged, %d concrete evaluations, %.1fs' % (PID, TIER, len(done), ndis, nob, H.evals, time.time() - t0))
    if H.have and H.ok is None:
        print('note: replay harness did not run: %s' % H.log[-1500:])
    H.clean()
    if not done and not errors:
        print('no function under contract for %s' % PID); sys.stdout.flush(); os._exit(2)
    for f in und:
        print('UNDECIDED (not proved on this source): %s: %s' % (f['fn'], f['status'][:300]))
    if viol or conc:
        with open(rep, 'w') as fh:
            fh.write('property %s: violation report\n\n' % PID)
            for c in conc:
                fh.write('CONCRETE FAILING INPUT (run on the code compiled from %s): %s\n' % (SRC, c))
            if conc:
                fh.write('reproduce: compile replay/%s.cpp with %s/*.cpp and run it with VERIF_SEED=%s VERIF_TIER=%s\n' % ((PID, SRC) + getattr(H, 'failseed', (SEED, TIER))))
            for f in viol:
                fh.write('\nFAILED OBLIGATION %s :: %s [%s] %s\n  solver: %s\n' % (f['fn'], f['ob'], f['kind'], f['loc'], f['status']))
                if f.get('model'):
                    fh.write('  counterexample of the solver:\n%s\n' % f['model'])
                if f.get('out'):
                    fh.write('  verifier output:\n%s\n' % f['out'][:6000])
        for f in viol[:12]:
            print('failed obligation: %s :: %s [%s] %s: %s' % (f['fn'], f['ob'], f['kind'], f['loc'], f['status'][:300]))
        for c in conc[:12]:
            print('concrete failing input: %s' % c[:600])
        print('VIOLATION property=%s replay=%s%s' % (PID, rep, '' if conc else ' no-failing-input-found'))
        sys.stdout.flush(); os._exit(1)
    if und and not H.ok:
        print('ERROR: undecided and no bounded check could stand in'); sys.stdout.flush(); os._exit(2)
    sys.stdout.flush(); os._exit(0)

if __name__ == '__main__':
    main()
