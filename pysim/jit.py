"""Replaces dune-python's just-in-time builder: the generated modules are
compiled by this file, with the address sanitizer, against the headers of
VERIF_REPO, and rebuilt whenever the content of a file they depend on changes."""
import sys, os, subprocess, importlib.util, hashlib, json, fcntl, re

REPO = os.environ.get('VERIF_REPO', '/repo')
OUT = os.environ['SIMPY_OUT']
VENV = '/opt/dune/venv'
DPY = '/opt/dune/dunepy/dune-py'
MPI = '/usr/lib/x86_64-linux-gnu/openmpi'
FLAGS = (f'-w -DHAVE_CONFIG_H -DHAVE_MPI=1 -DMPICH_SKIP_MPICXX=1 -DOMPI_SKIP_MPICXX=1 -D_MPICC_H -DMPIPP_H -DMPI_NO_CPPBIND=1 '
         f'-I{DPY} -I{DPY}/include -I{REPO} -isystem /usr/include/python3.12 -isystem {VENV}/include -isystem {VENV}/include/dune/python '
         f'-isystem {MPI}/include -std=gnu++20 -fPIC -O0 -g1 -D_GLIBCXX_ASSERTIONS -fno-omit-frame-pointer -fsanitize=address').split()
LIBS = f'{VENV}/lib/libdunegrid.a {VENV}/lib/libdunegeometry.a {VENV}/lib/libdunecommon.a -llapack -lblas /usr/lib/x86_64-linux-gnu/libtbb.so.12 {MPI}/lib/libmpi.so'.split()
collected = None         # a dictionary while sources are being collected

def digest(f, memo={}):
    if f not in memo:
        try: memo[f] = hashlib.md5(open(f, 'rb').read()).hexdigest()
        except OSError: memo[f] = None
    return memo[f]

def fresh(name, source):
    """True if the module was built from this source and its headers are unchanged."""
    try:
        j = json.load(open(f'{OUT}/{name}.json'))
    except Exception:
        return False
    return os.path.exists(f'{OUT}/{name}.so') and j['source'] == hashlib.md5(source.encode()).hexdigest() and all(digest(f) == h for f, h in j['deps'].items())

def build(name, source):
    os.makedirs(OUT, exist_ok=True)
    with open(f'{OUT}/{name}.lock', 'w') as lock:
        fcntl.flock(lock, fcntl.LOCK_EX)
        if fresh(name, source):
            return ''
        base = f'{OUT}/{name}'
        open(base + '.cc', 'w').write(source)
        env = {k: v for k, v in os.environ.items() if k not in ('LD_PRELOAD', 'ASAN_OPTIONS', 'PYTHONMALLOC')}
        r = subprocess.run(['g++', *FLAGS, '-MMD', '-MF', base + '.d', '-c', base + '.cc', '-o', base + '.o'], env=env, capture_output=True, text=True)
        if r.returncode:
            return r.stderr[-3000:] or 'the compiler failed'
        r = subprocess.run(['g++', '-shared', '-fsanitize=address', base + '.o', '-o', base + '.so.tmp', *LIBS], env=env, capture_output=True, text=True)
        if r.returncode:
            return r.stderr[-3000:] or 'the linker failed'
        deps = re.sub(r'\\\n', ' ', open(base + '.d').read()).split(':', 1)[1].split()
        deps = {f: digest(f) for f in deps if f.startswith(REPO + '/')}
        os.rename(base + '.so.tmp', base + '.so')
        os.unlink(base + '.o')
        json.dump({'source': hashlib.md5(source.encode()).hexdigest(), 'deps': deps}, open(base + '.json', 'w'))
        return ''

class Collected(Exception): pass
class BuildError(Exception): pass

class Builder:
    """What dune.generator expects of its builder."""
    force = False
    def initialize(self): pass
    def load(self, name, source, pythonName, extraCMake=None):
        full = 'dune.generated.' + name
        if full in sys.modules:
            return sys.modules[full]
        so = f'{DPY}/python/dune/generated/{name}.so'
        # modules that contain nothing of dune-functions are used as installed
        if '/functions/' in source or 'SIM_BUILD' in source or not os.path.exists(so):
            if collected is not None and ('/functions/' in source or 'SIM_BUILD' in source):
                collected[name] = source
                raise Collected(name)
            err = build(name, source)
            if err: raise BuildError(err)
            so = f'{OUT}/{name}.so'
        spec = importlib.util.spec_from_file_location(full, so)
        m = importlib.util.module_from_spec(spec)
        sys.modules[full] = m
        spec.loader.exec_module(m)
        return m

import dune.generator
import dune
dune.__path__ = [REPO + '/python/dune'] + [p for p in dune.__path__ if not p.startswith('/repo/')]
dune.generator.builder = Builder()
