#!/usr/bin/env python3
"""Driver of all checks: builds the simulator for one property from /repo's
working tree, searches, and reports.

  run.py check P01 [--tier quick|thorough] [--time S] [--case NAME]
  run.py replay FILE
  run.py build P01
"""
import argparse, json, os, re, subprocess, sys, time, glob, hashlib, shutil

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('VERIF_REPO', '/repo')
DUNE = '/opt/dune/venv'
FUNC, NUM, CONF, INTERP, TRAV, CONT, EXPECT, VIEWS, SHAPE = 1, 2, 4, 8, 16, 32, 64, 128, 256

# per property: features compiled into the catalog, sanitizer flavour, catalog
# files ('*': all), extra options of the simulator, seconds of search
PROPS = json.load(open(os.path.join(HERE, 'checks.json')))

def flavour(p):
    f = PROPS[p]
    mask = 0
    for n in f['features']:
        mask |= globals()[n]
    return mask, f.get('san', 'address'), f.get('cases', ['*']), f['engine']

def sources(p):
    mask, san, pats, engine = flavour(p)
    cs = []
    for pat in pats:
        cs += glob.glob(os.path.join(HERE, 'cases', pat + '.cc'))
    cs = sorted(set(cs))
    core = [os.path.join(HERE, 'sim', x) for x in ('core.cc', 'main.cc', 'cases.cc')] + [os.path.join(HERE, 'engines', 'common.cc')]
    core += [os.path.join(HERE, 'engines', e) for e in engine]
    return core, cs

def forget_stale(out):
    # ninja goes by time stamps: drop all objects if a header has other contents
    # than before, but no newer time stamp (restored from an archive or a copy)
    state, now = os.path.join(out, '.n', 'tree.json'), {}
    for f in glob.glob(os.path.join(REPO, 'dune', '**', '*.hh'), recursive=True):
        now[os.path.relpath(f, REPO)] = hashlib.md5(open(f, 'rb').read()).hexdigest()
    try:
        old, t = json.load(open(state)), os.path.getmtime(state)
    except Exception:
        old, t = None, 0
    if old is None or any(old.get(f) != h and os.path.getmtime(os.path.join(REPO, f)) <= t for f, h in now.items()):
        for f in glob.glob(os.path.join(out, '*.o')):
            os.unlink(f)
    json.dump(now, open(state, 'w'))

def build(p, log):
    mask, san, pats, engine = flavour(p)
    key = f'{san}-{mask:02x}'
    if REPO != '/repo':
        key += '-' + hashlib.md5(REPO.encode()).hexdigest()[:8]
    out = os.path.join(HERE, 'build', key)
    os.makedirs(out, exist_ok=True)
    flags = ['-DHAVE_CONFIG_H', '-std=gnu++20', f'-I{HERE}/config', f'-I{HERE}/sim', f'-I{REPO}', '-isystem', f'{DUNE}/include',
             '-w', '-O0', '-g1', '-D_GLIBCXX_ASSERTIONS', '-fno-omit-frame-pointer', f'-DSIM_F={mask}']
    simflags = []
    ld = []
    if san == 'address':
        flags.append('-fsanitize=address'); ld.append('-fsanitize=address')
        simflags = list(flags)
    elif san == 'plain':
        flags += ['-ftrivial-auto-var-init=pattern'] if PROPS[p].get('autoinit') else []
        simflags = list(flags)
    elif san == 'threads':
        simflags = list(flags) + ['-O1', '-DSIM_RACE']
        flags += ['-O1', '-DSIM_RACE', '-fsanitize=thread', '-mllvm', '-tsan-instrument-func-entry-exit=0']
        ld += ['-rdynamic'] + ['-Wl,--wrap=' + f for f in ('pthread_mutex_lock', 'pthread_mutex_unlock', 'pthread_mutex_trylock', 'pthread_once', '__cxa_guard_acquire', '__cxa_guard_release', '__cxa_guard_abort')]
    libs = [f'{DUNE}/lib/{l}' for l in ('libdunegrid.a', 'libdunegeometry.a', 'libdunecommon.a')] + ['-llapack', '-lblas', '/usr/lib/x86_64-linux-gnu/libtbb.so.12', '-lpthread', '-ldl']
    core, cs = sources(p)
    core = list(core)
    if san == 'threads':
        core.append(os.path.join(HERE, 'sim', 'race.cc'))
    objs = {}
    nj = os.path.join(out, f'build-{p}.ninja')
    def obj(f):
        return os.path.join(out, os.path.basename(os.path.dirname(f)) + '_' + os.path.basename(f)[:-3] + '.o')
    with open(nj, 'w') as n:
        n.write(f'builddir = {out}/.n\n')
        n.write('rule cc\n  command = clang++ $flags -MMD -MF $out.d -c $in -o $out\n  depfile = $out.d\n  deps = gcc\n')
        for f in core + cs:
            fl = simflags if (f in core and san == 'threads' and '/engines/' not in f) else flags
            n.write(f'build {obj(f)}: cc {f}\n  flags = {" ".join(fl)}\n')
    os.makedirs(f'{out}/.n', exist_ok=True)
    forget_stale(out)
    r = subprocess.run(['ninja', '-k', '0', '-f', nj], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    log.append(r.stdout[-6000:] if r.returncode else '')
    failed = []
    if r.returncode:
        # a translation unit that failed is left out if it is a catalog file
        q = subprocess.run(['ninja', '-n', '-k', '0', '-f', nj], stdout=subprocess.PIPE, text=True).stdout
        for f in core + cs:
            if obj(f) in q:
                failed.append(f)
    ok = [f for f in core + cs if f not in failed]
    if any(f in core for f in failed) or (cs and not any(f in cs for f in ok)):
        return None, failed
    exe = os.path.join(out, f'sim-{p}')
    l = subprocess.run(['clang++'] + ld + [obj(f) for f in ok] + ['-o', exe] + libs, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if l.returncode:
        log.append(l.stdout[-4000:])
        return None, failed
    return exe, failed

def environment():
    e = dict(os.environ)
    e['ASAN_OPTIONS'] = 'detect_leaks=0:abort_on_error=0:exitcode=77:allocator_may_return_null=1:hard_rss_limit_mb=3500:detect_stack_use_after_return=0'
    for v in ('DUNE_CONTROL_PATH', 'MALLOC_PERTURB_'):
        e.pop(v, None)
    return e

def known_findings(p):
    res = []
    f = os.path.join(HERE, 'known-findings.txt')
    if os.path.exists(f):
        for line in open(f):
            m = re.match(r'known: property=(\w+) signature=(\S+) (.*)', line)
            if m and m.group(1) == p:
                res.append((m.group(2), m.group(3).strip()))
    return res

def check(a):
    p = a.property
    cfg = PROPS[p]
    t0 = time.time()
    log = []
    exe, failed = build(p, log)
    tb = time.time() - t0
    for f in failed:
        print(f'note: {os.path.relpath(f, HERE)} does not compile against this tree and is left out')
    if exe is None:
        print('\n'.join(log)); print('cannot build the simulator'); return 2
    seed = int(os.environ.get('VERIF_SEED', '1'))
    tier = a.tier
    budget = a.time or (cfg.get('quick', 25) if tier == 'quick' else cfg.get('thorough', 600))
    os.makedirs(os.path.join(HERE, 'replays'), exist_ok=True)
    os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
    rep = os.path.join(HERE, 'replays', f'{p}-{tier}-{seed}.txt')
    if os.path.exists(rep): os.unlink(rep)
    out = os.path.join(HERE, 'build', f'{p}-result.json')
    cmd = [exe, '--prop', p, '--seed', str(seed), '--time', str(budget), '--jobs', str(a.jobs or max(1, os.cpu_count() or 1)), '--out', out, '--replay-out', rep] + cfg.get('options', [])
    if a.case: cmd += ['--case', a.case]
    if tier == 'thorough': cmd += ['--thorough']
    kf = known_findings(p)
    for sig, _ in kf: cmd += ['--known', sig]
    r = subprocess.run(cmd, env=environment(), stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True)
    sys.stderr.write(r.stderr[-4000:])
    try:
        j = json.load(open(out))
    except Exception as e:
        print('no result from the simulator', r.returncode, r.stdout[-2000:]); return 2
    v = j['violation']
    wall = time.time() - t0
    s = max(j['search_seconds'], 1e-3)
    ev = {'property': p, 'tier': tier, 'seed': seed, 'level': 'exploration', 'wall_s': round(wall, 2),
          'coverage': {
              'evaluations': j['runs'], 'distinct_nontrivial': j['distinct_histories'],
              'rule': cfg['rule'] + ' One run is one forked process driven by one seed; it counts as distinct if the hash of its complete event log (operations, faults and observed values) is new, and as non-trivial because every run executes library operations and compares their results with the oracle.',
              'samples': j['samples'],
              'comparisons_with_oracle': j['comparisons'], 'decisions_taken': j['decisions'],
              'simulated_time_in_events': j['events'], 'distinct_transitions': j['distinct_transitions'],
              'transition_measure': 'distinct (catalog entry, operation, preceding operation, fault fired) tuples' if cfg.get('san') != 'threads' else 'distinct (catalog entry, workload, context switch position) tuples',
              'runs_per_hour': int(j['runs'] / s * 3600), 'search_seconds': round(s, 2), 'build_seconds': round(tb, 2),
              'faults_injected': {k: n for k, n in j['faults'].items() if n},
              'thread_switches': j['thread_switches'], 'instrumented_accesses': j['instrumented_accesses'],
              'runs_per_catalog_entry': j['cases'], 'discarded_runs': j['discarded'], 'discard_reasons': j['discards'],
              'determinism_rechecks': j['determinism_rechecks'], 'determinism_mismatches': j['determinism_mismatches'],
              'real_code': cfg['real'], 'stubs': cfg['stubs'],
              'left_out_translation_units': [os.path.relpath(f, HERE) for f in failed],
              'known_finding_hits': j['known'],
          },
          'violations': [v] if v else [],
          'assumptions': cfg.get('assumptions', [])}
    json.dump(ev, open(os.path.join(HERE, 'evidence', f'{p}.json'), 'w'), indent=1)
    for sig, what in kf:
        print(f'KNOWN-FINDING: property={p} {what}')
    print(f'{p} {tier}: {j["runs"]} runs in {s:.1f} s (build {tb:.1f} s), {j["distinct_histories"]} distinct histories, {j["comparisons"]} comparisons, faults {ev["coverage"]["faults_injected"]}')
    if r.returncode == 1 and v:
        print(f'{v["kind"]} in {v["case"]} (seed {v["seed"]}, {v["choices"]} decisions after minimisation): {v["message"][:1500]}')
        print(f'VIOLATION property={p} replay={rep}')
        return 1
    if r.returncode != 0 and not v:
        # a failure that could not be reproduced from its seed is not believed
        print('the simulator ended with', r.returncode, r.stderr[-1500:])
        return 2 if r.returncode != 3 else 0
    return 0

# --- the Python bindings: another simulator (pysim/), a Python process

def python(p, args, log, capture=True):
    """Runs pysim/main.py in the interpreter the bindings are built for."""
    gen = os.path.join(HERE, 'build', 'python' + ('' if REPO == '/repo' else '-' + hashlib.md5(REPO.encode()).hexdigest()[:8]))
    os.makedirs(gen, exist_ok=True)
    e = environment()
    lib = lambda n: subprocess.run(['g++', '-print-file-name=' + n], stdout=subprocess.PIPE, text=True).stdout.strip()
    e.update(SIMPY_OUT=gen, VERIF_REPO=REPO, PYTHONDONTWRITEBYTECODE='1', DUNE_LOG_LEVEL='error', PYTHONHASHSEED='0', PYTHONMALLOC='malloc',
             LD_PRELOAD=lib('libasan.so') + ' ' + lib('libstdc++.so.6'), ASAN_OPTIONS='detect_leaks=0:abort_on_error=0:exitcode=77:detect_stack_use_after_return=0')
    cmd = [f'{DUNE}/bin/python', os.path.join(HERE, 'pysim', 'main.py')] + args + ['--scratch', os.path.join(gen, 'scratch')]
    if subprocess.run(['setarch', '-R', 'true'], stderr=subprocess.DEVNULL).returncode == 0:
        cmd = ['setarch', '-R'] + cmd
    r = subprocess.run(cmd, env=e, stdout=subprocess.PIPE if capture else None, stderr=subprocess.STDOUT if capture else None, text=True, cwd=gen)
    log.append((r.stdout or '')[-6000:])
    return r.returncode

def pycheck(a):
    p, cfg, t0, log = a.property, PROPS[a.property], time.time(), []
    if python(p, ['build'], log):
        print(log[-1]); print('cannot build the simulator'); return 2
    left = [l for l in log[-1].splitlines() if l.startswith('not compiled')]
    for l in left: print('note: ' + l[:300])
    tb = time.time() - t0
    seed, tier = int(os.environ.get('VERIF_SEED', '1')), a.tier
    budget = a.time or (cfg.get('quick', 25) if tier == 'quick' else cfg.get('thorough', 600))
    for d in ('replays', 'evidence', 'build'): os.makedirs(os.path.join(HERE, d), exist_ok=True)
    rep, out = os.path.join(HERE, 'replays', f'{p}-{tier}-{seed}.txt'), os.path.join(HERE, 'build', f'{p}-result.json')
    for f in (rep, out):
        if os.path.exists(f): os.unlink(f)
    rc = python(p, ['search', '--time', str(budget), '--seed', str(seed), '--jobs', str(a.jobs or max(1, os.cpu_count() or 1)), '--out', out], log)
    try: j = json.load(open(out))
    except Exception:
        print('no result from the simulator', rc, log[-1]); return 2
    s = max(j['wall'], 1e-3)
    known, found = known_findings(p), []
    for v in j['violations']:
        if not any(re.search(sig, v['kind'] + ':' + v['text']) for sig, _ in known): found.append(v)
    ev = {'property': p, 'tier': tier, 'seed': seed, 'level': 'exploration', 'wall_s': round(time.time() - t0, 2),
          'coverage': {
              'evaluations': j['runs'], 'distinct_nontrivial': j['histories'],
              'rule': cfg['rule'] + ' One run is one forked interpreter driven by one seed; it counts as distinct if the hash of its complete log (operations and observed values) is new, and as non-trivial because every run executes operations of the bindings and compares their results with the oracle.',
              'samples': j['samples'],
              'comparisons_with_oracle': j['comparisons'], 'simulated_time_in_events': j['events'],
              'distinct_transitions': j['pairs'], 'transition_measure': 'distinct (preceding operation, operation) pairs',
              'runs_per_hour': int(j['runs'] / s * 3600), 'search_seconds': round(s, 2), 'build_seconds': round(tb, 2),
              'faults_injected': j['faults'], 'function_spaces': j['kinds'],
              'determinism_rechecks': j['rechecks'], 'determinism_mismatches': j['mismatches'], 'discarded_runs': j['unreproduced'], 'last_discarded': j['last'],
              'real_code': cfg['real'], 'stubs': cfg['stubs'], 'left_out': left},
          'violations': [{k: v[k] for k in ('seed', 'kind', 'text')} for v in found],
          'assumptions': cfg.get('assumptions', [])}
    json.dump(ev, open(os.path.join(HERE, 'evidence', f'{p}.json'), 'w'), indent=1)
    for sig, what in known: print(f'KNOWN-FINDING: property={p} {what}')
    print(f'{p} {tier}: {j["runs"]} runs in {s:.1f} s (build {tb:.1f} s), {j["histories"]} distinct histories, {j["comparisons"]} comparisons, faults {j["faults"]}')
    if found:
        v = min(found, key=lambda v: len(v['steps']))
        json.dump(dict(property=p, **v), open(rep, 'w'), indent=1)
        print(f'{v["kind"]} (seed {v["seed"]}, {len(v["steps"])} steps after minimisation): {v["text"][:1500]}')
        print(f'VIOLATION property={p} replay={rep}')
        return 1
    return 0 if j['runs'] else 2

def replay(a):
    if open(a.file).read(1) == '{':
        log = []
        p = json.load(open(a.file))['property']
        if python(p, ['build'], log): print(log[-1]); return 2
        return python(p, ['replay', os.path.abspath(a.file)], log, False)
    p = next(l.split()[1] for l in open(a.file) if l.startswith('property'))
    log = []
    exe, failed = build(p, log)
    if exe is None:
        print('\n'.join(log)); return 2
    return subprocess.run([exe, '--replay', a.file] + PROPS[p].get('options', []), env=environment()).returncode

ap = argparse.ArgumentParser()
sub = ap.add_subparsers(dest='cmd', required=True)
c = sub.add_parser('check'); c.add_argument('property'); c.add_argument('--tier', default='quick'); c.add_argument('--time', type=float); c.add_argument('--case'); c.add_argument('--jobs', type=int)
c = sub.add_parser('replay'); c.add_argument('file')
sub.add_parser('setup')
c = sub.add_parser('build'); c.add_argument('property')
a = ap.parse_args()
if a.cmd == 'check': sys.exit((pycheck if PROPS[a.property].get('python') else check)(a))
elif a.cmd == 'replay': sys.exit(replay(a))
elif a.cmd == 'setup':
    # every check builds what it needs from /repo's tree; here only the tools are checked
    missing = [t for t in ('clang++', 'ninja') if not shutil.which(t)]
    print('missing: ' + ' '.join(missing) if missing else 'tools present'); sys.exit(1 if missing else 0)
elif PROPS[a.property].get('python'):
    log = []; r = python(a.property, ['build'], log); print(log[-1]); sys.exit(r)
else:
    log = []
    t = time.time()
    exe, failed = build(a.property, log)
    print(exe, failed, round(time.time() - t, 1), '\n'.join(log)); sys.exit(0 if exe else 2)
