"""Deterministic simulation of a Python user of dune-functions.
  main.py build
  main.py search --time S --seed N --jobs J --tier T --out RESULT.json --replays PREFIX
  main.py replay FILE
Every run is a child process forked from a process that has loaded all
modules, so that it starts from the same state each time."""
import sys, os, pickle, json, time, signal, argparse, random, traceback
from concurrent.futures import ThreadPoolExecutor
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
LIMIT = 60               # seconds one run may take

def build():
    import catalog, jit
    sources, groups = catalog.collect()
    with ThreadPoolExecutor(int(os.environ.get('JOBS', 8))) as ex:
        errors = dict(zip(sources, ex.map(lambda n: jit.build(n, sources[n]), sources)))
    bad = {k: errors[n] for n, ks in groups.items() for k in ks if errors[n]}
    kinds = [k for k in list(catalog.ROOTS) + list(catalog.SUBS) if k not in bad]
    json.dump({'kinds': kinds, 'bad': bad}, open(os.path.join(jit.OUT, 'catalog.json'), 'w'))
    return kinds, bad

def load():
    """Loads everything before the first fork."""
    global W, C
    import catalog as C, jit
    import world as W
    j = json.load(open(os.path.join(jit.OUT, 'catalog.json')))
    kinds = []
    g = C.grid(1, 1)
    for k in j['kinds']:
        if k in C.SUBS and C.SUBS[k][0] not in kinds: continue
        try:
            b = W.make(k, g)
            W.expected(k, (1, 1, 0))
            if k in C.BOUNDARY: W.dune.functions.forEachBoundaryDOF(b, lambda i: None)
            kinds.append(k)
        except jit.BuildError as e:
            print(f'not usable: {k}: {str(e)[:300]}', flush=True)
        m = sys.modules[type(b).__module__]
        if k in ('L1', 'PI'): W.gvfClasses[C.RANGE[k]] = W.gvfClass(b)
        b = None
    C.consumer()
    W.kinds = kinds
    # what is expected of each space on each grid, computed by eight processes
    meshes = [(nx, ny, l) for nx in (1, 2, 3) for ny in (1, 2) for l in (0, 1) if l == 0 or nx * ny <= 4]
    todo = [(k, m) for m in meshes for k in kinds]
    todo.sort(key=lambda t: -(t[1][0] * t[1][1] * 4 ** t[1][2]))
    pipes = []
    for w in range(8):
        r, wr = os.pipe()
        if os.fork() == 0:
            for k, m in todo[w::8]: W.expected(k, m)
            with os.fdopen(wr, 'wb') as f: pickle.dump(W.oracles, f)
            os._exit(0)
        os.close(wr); pipes.append(r)
    for r in pipes:
        with os.fdopen(r, 'rb') as f: W.oracles.update(pickle.load(f))
        os.wait()
    import gc
    g = None
    gc.collect(); gc.freeze()

def child(fd, job):
    """Executes one run and reports each step before it is taken."""
    os.set_blocking(fd, True)
    def say(*x): os.write(fd, (json.dumps(x) + '\n').encode())
    err = os.open(job['err'], os.O_WRONLY | os.O_CREAT | os.O_TRUNC)
    os.dup2(err, 1); os.dup2(err, 2)
    signal.alarm(LIMIT)
    w = W.World(job.get('seed', 0), record=lambda s: say('step', s))
    try:
        try:
            if 'steps' in job:
                for s in job['steps']:
                    say('step', s); w.run(s)
            else:
                w.generate(30 + job['seed'] % 100)
            say('step', ['finish'])
            w.finish()
            result = ('', '')
        except W.Violation as v:
            result = v.args
        except MemoryError as v:
            result = ('unexpected-error', f'{type(v).__name__}: {v}')
        except Exception as v:
            t = traceback.extract_tb(v.__traceback__)
            result = ('unexpected-error', f'{type(v).__name__}: {str(v)[:300]} ({t[-1].name}, in {[x.name for x in t if x.name.startswith("do_")]})')
    except BaseException as v:
        result = ('unexpected-error', f'{type(v).__name__}')
    w.see(result[0])
    say('end', result[0], result[1], w.log.hexdigest(), w.comparisons, w.events, w.faults, [list(p) for p in w.pairs])
    os._exit(0)

def execute(job):
    """Forks a child for the job; returns a dictionary with its outcome."""
    r, wr = os.pipe()
    pid = os.fork()
    if pid == 0:
        os.close(r)
        try: child(wr, job)
        finally: os._exit(99)
    os.close(wr)
    data = b''
    while True:
        x = os.read(r, 65536)
        if not x: break
        data += x
    os.close(r)
    status = os.waitpid(pid, 0)[1]
    steps, end = [], None
    for l in data.decode().splitlines():
        try: m = json.loads(l)
        except ValueError: continue
        if m[0] == 'step':
            if m[1] != ['finish']: steps.append(m[1])
        else: end = m
    if end:
        return dict(steps=steps, kind=end[1], text=end[2], hash=end[3], comparisons=end[4], events=end[5], faults=end[6], pairs=end[7])
    if os.WIFSIGNALED(status) and os.WTERMSIG(status) == signal.SIGALRM:
        kind, text = 'hang', f'no end after {LIMIT} seconds'
    else:
        kind, text = 'crash', 'signal %d' % os.WTERMSIG(status) if os.WIFSIGNALED(status) else 'exit code %d' % os.WEXITSTATUS(status)
    try:
        out = open(job['err'], errors='replace').read()
        for l in out.splitlines():
            if 'ERROR: AddressSanitizer' in l or 'runtime error' in l or 'Assertion' in l or 'Fatal Python error' in l or 'terminate called' in l:
                text = l.strip()[:300]
                import re
                text = re.sub(r'0x[0-9a-f]+', '0x', re.sub(r'==\d+==', '', text)); kind = 'sanitizer' if 'Sanitizer' in text else 'crash'
                fr = [re.sub(r'0x[0-9a-f]+ ', '', x.strip()) for x in out.splitlines() if x.strip().startswith('#')]
                fr = [x for x in fr if '/dune/functions' in x or '/dune/python/functions' in x][:2]
                if fr: text += ' ' + '; '.join(x[:200] for x in fr)
                break
    except OSError: pass
    return dict(steps=steps, kind=kind, text=text, hash=f'{kind}', comparisons=0, events=len(steps), faults={}, pairs=[])

def minimise(job, steps, kind, budget):
    """Deletes steps while the same kind of violation remains."""
    t = time.time()
    n = max(1, len(steps) // 2)
    while n and time.time() - t < budget:
        k, any_ = len(steps), False
        while k > 0 and time.time() - t < budget:
            a = max(0, k - n)
            cand = steps[:a] + steps[k:]
            r = execute(dict(job, steps=cand))
            if r['kind'] == kind:
                # what comes after the violation is not needed
                steps = r['steps'] if len(r['steps']) <= len(cand) else cand; any_ = True
                k = min(a, len(steps))
            else: k = a
        if not any_ or n > 1: n //= 2
    return steps

def worker(w, a, conn):
    err = f'{a.scratch}/err.{w}'
    res = dict(runs=0, comparisons=0, events=0, faults={}, pairs=set(), hashes=set(), rechecks=0, mismatches=0, unreproduced=0, violation=None, last='', samples=[])
    end = time.time() + a.time
    k = w
    while time.time() < end:
        seed = random.Random(f'{a.seed}/{k}').getrandbits(62)
        k += a.jobs
        job = dict(seed=seed, err=err)
        r = execute(job)
        res['runs'] += 1; res['comparisons'] += r['comparisons']; res['events'] += r['events']
        for f, n in r['faults'].items(): res['faults'][f] = res['faults'].get(f, 0) + n
        res['pairs'] |= {tuple(p) for p in r['pairs']}
        res['hashes'].add(r['hash'])
        if len(res['samples']) < 1 and len(r['steps']) > 20: res['samples'].append(dict(seed=seed, steps=' '.join('/'.join(map(str, s)) for s in r['steps'])[:600], hash=r['hash']))
        if not r['kind'] and res['runs'] % 16 == 1:
            res['rechecks'] += 1
            if execute(job)['hash'] != r['hash']: res['mismatches'] += 1
        if r['kind']:
            again = execute(dict(job, steps=r['steps']))
            if again['kind'] != r['kind']:
                res['unreproduced'] += 1; res['last'] = f'seed {seed}: {r["kind"]}: {r["text"]}'
                continue
            steps = minimise(job, r['steps'], r['kind'], 60)
            m = execute(dict(job, steps=steps))
            res['violation'] = dict(seed=seed, kind=m['kind'], text=m['text'], hash=m['hash'], steps=steps)
            break
    res['pairs'], res['hashes'] = [list(p) for p in res['pairs']], list(res['hashes'])
    with os.fdopen(conn, 'w') as f: json.dump(res, f)
    os._exit(0)

def search(a):
    t = time.time()
    os.makedirs(a.scratch, exist_ok=True)
    pipes, pids = [], []
    for w in range(a.jobs):
        r, wr = os.pipe()
        pid = os.fork()
        if pid == 0:
            os.close(r)
            worker(w, a, wr)
        os.close(wr); pipes.append(r); pids.append(pid)
    out = []
    for r in pipes:
        with os.fdopen(r) as f:
            s = f.read()
        if s: out.append(json.loads(s))
    for p in pids: os.waitpid(p, 0)
    tot = dict(workers=len(out), runs=sum(o['runs'] for o in out), comparisons=sum(o['comparisons'] for o in out), events=sum(o['events'] for o in out),
               faults={}, pairs=len({tuple(p) for o in out for p in o['pairs']}), histories=len({h for o in out for h in o['hashes']}),
               rechecks=sum(o['rechecks'] for o in out), mismatches=sum(o['mismatches'] for o in out), unreproduced=sum(o['unreproduced'] for o in out),
               last=next((o['last'] for o in out if o['last']), ''), violations=[o['violation'] for o in out if o['violation']], kinds=W.kinds, samples=[s for o in out for s in o['samples']][:4], wall=time.time() - t)
    for o in out:
        for f, n in o['faults'].items(): tot['faults'][f] = tot['faults'].get(f, 0) + n
    json.dump(tot, open(a.out, 'w'))

def replay(a):
    j = json.load(open(a.file))
    os.makedirs(a.scratch, exist_ok=True)
    r = execute(dict(steps=j['steps'], err=f'{a.scratch}/err.replay'))
    for s in r['steps']: print('  ', *s)
    print(f'=> {r["kind"]}: {r["text"]}')
    ok = r['kind'] == j['kind'] and r['hash'] == j['hash']
    print(f'replay: kind={r["kind"]} hash={r["hash"]} (recorded kind={j["kind"]} hash={j["hash"]})')
    print('replay REPRODUCED' if ok else 'replay DID NOT REPRODUCE')
    return 0 if ok else 1

if __name__ == '__main__':
    p = argparse.ArgumentParser()
    p.add_argument('what'); p.add_argument('file', nargs='?')
    p.add_argument('--time', type=float, default=20); p.add_argument('--seed', type=int, default=1); p.add_argument('--jobs', type=int, default=8)
    p.add_argument('--out', default='/dev/stdout'); p.add_argument('--scratch', default='/tmp/simpy')
    a = p.parse_args()
    if a.what == 'build':
        kinds, bad = build()
        print('usable:', *kinds)
        for k, e in bad.items(): print(f'not compiled: {k}: {e[:600]}')
        sys.exit(0 if kinds else 2)
    load()
    if a.what == 'search': search(a)
    else: sys.exit(replay(a))
