"""One simulated history of a Python user of the bindings: a list of steps
over a pool of handles. The same list always gives the same history."""
import gc, random, weakref, hashlib, math
import numpy as np
import catalog as C
import dune.functions
from dune.common import FieldVector

POINTS = [(0.5, 0.5), (0.25, 0.625), (0.0, 1.0), (0.875, 0.125)]
A = [[0.5, 1, -2, 3, 0.25, -1], [-1, 0.75, 1, -0.5, 2, 1.5]]
def poly(c, s, x):
    q = A[c]
    return s * (q[0] + q[1] * x[0] + q[2] * x[1] + q[3] * x[0] * x[1] + q[4] * x[0] * x[0] + q[5] * x[1] * x[1])

class Violation(Exception):
    pass
class Injected(Exception):
    """What a faulty callback raises."""

class Handle:
    """An object a user holds, and what the model knows about it."""
    def __init__(self, kind, obj, **m):
        self.kind, self.obj, self.stale = kind, obj, False
        self.__dict__.update(m)

class GridModel:
    def __init__(self, nx, ny):
        self.nx, self.ny, self.level, self.epoch = nx, ny, 0, 0

oracles = {}
def expected(kind, mesh):
    k = 'TH01' if kind == 'TH0.1' else kind
    key = (k,) + mesh
    if key not in oracles:
        oracles[key] = C.oracle(C.root(k)).dump(k, mesh[0], mesh[1], mesh[2], C.SHIFT)
    return oracles[key]

class World:
    def __init__(self, seed, record=None):
        self.rng = random.Random(seed)
        self.h = {}
        self.next = 0
        self.log = hashlib.md5()
        self.events = 0
        self.comparisons = 0
        self.faults = {}
        self.pairs = set()
        self.last = '-'
        self.refs = []
        self.record = record
        self.current = None

    # ---------------------------------------------------------- bookkeeping
    def see(self, *x):
        self.log.update(repr(x).encode())
    def fault(self, kind):
        self.faults[kind] = self.faults.get(kind, 0) + 1
    def same(self, what, got, want, tol=0):
        self.comparisons += 1
        self.see(what, got)
        if tol:
            ok = len(got) == len(want) and all(abs(g - w) <= tol * max(1, abs(w)) for g, w in zip(got, want))
        else:
            ok = got == want
        if not ok:
            raise Violation('wrong-result', f'{what}: {got!r}, expected {want!r}')
    def track(self, what, obj):
        self.refs.append((what, weakref.ref(obj)))
        return obj
    def add(self, i, kind, obj, **m):
        # the model of an object is that of its grid: what it was built on
        if obj is not None and kind not in ('grid', 'gv'):
            self.track(kind, obj)
        self.h[i] = Handle(kind, obj, **m)
    def of(self, kind, p=lambda h: True):
        return [i for i, h in self.h.items() if h.kind == kind and not h.stale and p(h)]
    def get(self, i, kind):
        h = self.h.get(i)
        return h if h is not None and h.kind == kind and not h.stale else None

    # the mesh a basis currently lives on: (nx, ny, level)
    def mesh(self, b):
        return b.state['mesh']
    def exp(self, b):
        return expected(b.what, self.mesh(b))
    def elements(self, b):
        return list(b.obj.gridView.elements)

    # ---------------------------------------------------------- steps
    def run(self, step):
        """Executes one step; returns False if it does not apply."""
        name, args = step[0], step[1:]
        r = getattr(self, 'do_' + name)(*args)
        if r is False:
            return False
        self.events += 1
        self.pairs.add((self.last, name))
        self.last = name
        return True

    def do_grid(self, i, nx, ny):
        g = C.grid(nx, ny)
        self.add(i, 'grid', g, model=GridModel(nx, ny))
        self.see('grid', nx, ny, g.size(0))

    def do_refine(self, gi):
        g = self.get(gi, 'grid')
        if not g or g.model.level > 0 or g.model.nx * g.model.ny > 4: return False
        g.obj.hierarchicalGrid.globalRefine(1)
        g.model.level += 1
        self.fault('grid_changed_underneath')
        # everything that knows the grid is out of date until it is updated
        for h in self.h.values():
            if h.kind != 'grid' and getattr(h, 'grid', None) is g.model:
                h.stale = True
        g.obj = g.obj.hierarchicalGrid.leafView

    def do_basis(self, i, kind, gi):
        g = self.get(gi, 'grid')
        if not g: return False
        b = dune.functions.defaultGlobalBasis(g.obj, C.ROOTS[kind][0]())
        self.add(i, 'basis', b, what=kind, grid=g.model, root=i, state={'mesh': (g.model.nx, g.model.ny, g.model.level), 'epoch': 0, 'root': i})
        self.checkBasis(self.h[i])

    def do_sub(self, i, kind, bi):
        b = self.get(bi, 'basis')
        if not b or C.SUBS[kind][0] != b.what: return False
        s = dune.functions.subspaceBasis(b.obj, *C.SUBS[kind][1])
        self.add(i, 'basis', s, what=kind, grid=b.grid, state=b.state)
        self.checkBasis(self.h[i])

    def do_update(self, bi, gi):
        b, g = self.h.get(bi), self.get(gi, 'grid')
        if not b or b.kind != 'basis' or b.what not in C.ROOTS or not g: return False
        b.obj.gridView = g.obj
        b.state['mesh'] = (g.model.nx, g.model.ny, g.model.level)
        b.state['epoch'] += 1
        for h in self.h.values():
            if getattr(h, 'state', None) is b.state and (h.kind != 'gv' or hasattr(h, 'alias')):
                h.stale = h.kind != 'basis'
                h.grid = g.model
        self.checkBasis(b)

    def checkBasis(self, b):
        e = self.exp(b)
        self.same(f'len({b.what})', len(b.obj), e['dimension'])
        self.same(f'{b.what}.dimension', b.obj.dimension, e['dimension'])
        self.same(f'{b.what}.size()', b.obj.size(), e['size'])
        for p, n in sorted(e['prefixes'].items())[:6]:
            self.same(f'{b.what}.size({list(p)})', b.obj.size(list(p)), n)
        self.same(f'elements of {b.what}.gridView', b.obj.gridView.size(0), len(e['elements']))

    def do_checkbasis(self, bi):
        b = self.get(bi, 'basis')
        if not b: return False
        self.checkBasis(b)

    def do_gv(self, i, bi):
        b = self.get(bi, 'basis')
        if not b: return False
        self.add(i, 'gv', b.obj.gridView, grid=b.grid, state=b.state, what=b.what, mesh=self.mesh(b))
    def do_checkgv(self, i):
        v = self.get(i, 'gv')
        if not v: return False
        e = expected(v.what, v.mesh)
        self.same('elements of the grid view', v.obj.size(0), len(e['elements']))
        for k, x in enumerate(v.obj.elements):
            self.same('center', list(x.geometry.center), e['elements'][k]['center'], 1e-14)

    # local views, trees and finite elements
    def do_lv(self, i, bi):
        b = self.get(bi, 'basis')
        if not b: return False
        self.add(i, 'lv', b.obj.localView(), what=b.what, grid=b.grid, state=b.state, at={'e': None})
    def element(self, h, k):
        """An element of the grid of h, which nobody but the callee keeps."""
        es = list(h.obj.gridView.elements) if h.kind == 'basis' else None
        return es[k % len(es)], k % len(es)
    def do_bind(self, li, bi, k):
        l, b = self.get(li, 'lv'), self.get(bi, 'basis')
        if not l or not b or b.state is not l.state: return False
        x, k = self.element(b, k)
        self.track('element', x)
        l.obj.bind(x)
        l.at['e'] = k
    def do_unbind(self, li):
        l = self.get(li, 'lv')
        if not l or l.at['e'] is None: return False
        l.obj.unbind()
        l.at['e'] = None
    def do_badbind(self, li, what):
        l = self.get(li, 'lv')
        if not l: return False
        x = [None, 7, 'element', l.obj][what]
        self.fault('argument_of_wrong_type')
        try: l.obj.bind(x)
        except (TypeError, RuntimeError, ValueError) as e: self.see(type(e).__name__)
        else: raise Violation('missing-error', f'a local view can be bound to {x!r}')
    def do_checklv(self, li):
        l = self.get(li, 'lv')
        if not l: return False
        e = expected(l.what, l.state['mesh'])
        self.same('maxSize', l.obj.maxSize(), e['max'])
        if l.at['e'] is None: return
        x = e['elements'][l.at['e']]
        self.same(f'len(local view of {l.what})', len(l.obj), len(x['indices']))
        self.same(f'local view of {l.what}: size()', l.obj.size(), len(x['indices']))
        self.same(f'indices of {l.what} on element {l.at["e"]}', [tuple(l.obj.index(k)) for k in range(len(x['indices']))], x['indices'])
        self.same('center of the bound element', list(l.obj.element().geometry.center), x['center'], 1e-14)
    def do_tree(self, i, li):
        l = self.get(li, 'lv')
        if not l: return False
        self.add(i, 'tree', l.obj.tree(), what=l.what, grid=l.grid, state=l.state, at=l.at, path=())
    def do_child(self, i, ti, k):
        t = self.get(ti, 'tree')
        if not t: return False
        s = self.shape(t)
        if s == 'leaf': return False
        k %= len(s)
        self.add(i, 'tree', t.obj.child(k), what=t.what, grid=t.grid, state=t.state, at=t.at, path=t.path + (k,))
    def do_badchild(self, ti):
        t = self.get(ti, 'tree')
        if not t: return False
        s = self.shape(t)
        if s == 'leaf': return False
        self.fault('argument_out_of_range')
        try: t.obj.child(len(s))
        except (IndexError, TypeError, ValueError) as e: self.see(type(e).__name__)
        else: raise Violation('missing-error', f'child {len(s)} of a node with {len(s)} children exists')
    def shape(self, t):
        s = C.SHAPE[t.what]
        for k in t.path: s = s[k]
        return s
    def node(self, t):
        return expected(t.what, t.state['mesh'])['elements'][t.at['e']]['nodes'][t.path]
    def do_checktree(self, ti):
        t = self.get(ti, 'tree')
        if not t: return False
        s = self.shape(t)
        name = f'node {t.path} of {t.what}'
        leaf = s == 'leaf'
        power = (t.what, t.path) in C.POWER
        self.same(f'{name}: isLeaf, isPower, isComposite, degree', (t.obj.isLeaf, t.obj.isPower, t.obj.isComposite, t.obj.degree()), (leaf, power, not leaf and not power, 0 if leaf else len(s)))
        if t.at['e'] is None: return
        n = self.node(t)
        self.same(f'{name}: size', (len(t.obj), t.obj.size()), (n['size'],) * 2)
        self.same(f'{name}: local indices', [t.obj.localIndex(k) for k in range(n['size'])], n['local'])
    def do_fe(self, i, ti):
        t = self.get(ti, 'tree')
        if not t or self.shape(t) != 'leaf' or t.at['e'] is None: return False
        # what it describes is the element of this moment
        self.add(i, 'fe', t.obj.finiteElement(), grid=t.grid, state=t.state, node=self.node(t), at=t.at, e=t.at['e'], name=f'{t.what}{t.path}', mesh=t.state['mesh'])
    def do_lb(self, i, fi):
        f = self.get(fi, 'fe')
        if not f: return False
        self.add(i, 'lb', f.obj.localBasis, grid=f.grid, state=f.state, node=f.node, at=f.at, e=f.e, name=f.name)
    def do_checkfe(self, fi):
        f = self.get(fi, 'fe')
        if not f or f.at['e'] != f.e: return False
        self.same(f'size of the finite element of {f.name}', (len(f.obj), f.obj.size()), (f.node['size'],) * 2)
        self.checkLocalBasis(f.obj.localBasis, f)
    def do_checklb(self, fi):
        f = self.get(fi, 'lb')
        if not f or f.at['e'] != f.e: return False
        self.checkLocalBasis(f.obj, f)
    def checkLocalBasis(self, lb, f):
        self.same(f'size and order of the local basis of {f.name}', (len(lb), lb.order), (f.node['size'], f.node['order']))
        for p, want in zip(POINTS, f.node['values']):
            got = [list(v) for v in lb.evaluateFunction(p)]
            self.same(f'{f.name}: number of shape functions', len(got), len(want))
            for g, w in zip(got, want): self.same(f'{f.name}: shape function at {p}', g, w, 1e-13)
        got = [[float(m[r][c]) for r in range(len(m)) for c in range(2)] for m in lb.evaluateJacobian(POINTS[1])]
        for g, w in zip(got, f.node['jacobians']): self.same(f'{f.name}: Jacobian', g, w, 1e-12)

    # coefficient vectors and functions
    def vector(self, n, style, salt, dtype=float):
        r = random.Random(salt)
        if style == 'strided':
            base = np.zeros(2 * n + 1, dtype=dtype); v = base[1::2]
        elif style == 'slice':
            base = np.zeros(n + 3, dtype=dtype); v = base[2:n + 2]
        else:
            v = np.zeros(n, dtype=dtype)
        v[:] = [r.randrange(-8, 9) / 4 for _ in range(n)]
        return v
    def do_vec(self, i, bi, style, salt):
        b = self.get(bi, 'basis')
        if not b: return False
        n = self.rootSize(b)
        self.add(i, 'vec', self.vector(n, style, salt), state=b.state, epoch=b.state['epoch'], n=n, gen=0)
    def rootSize(self, b):
        return expected(C.root(b.what), self.mesh(b))['size']
    def do_setvec(self, vi, salt):
        v = self.h.get(vi)
        if not v or v.kind != 'vec': return False
        r = random.Random(salt)
        v.obj[:] = [r.randrange(-8, 9) / 4 for _ in range(v.n)]
        self.outdated(v.obj)
    def outdated(self, vec):
        # local functions load the coefficients when they are bound
        for h in self.h.values():
            if h.kind == 'lf' and h.v is vec: h.at = None
    def fits(self, b, v):
        return v and b and v.state is b.state and v.n == self.rootSize(b)
    def do_fun(self, i, bi, vi, how):
        b, v = self.get(bi, 'basis'), self.h.get(vi)
        if not b or not v or v.kind != 'vec' or not self.fits(b, v) or b.what not in C.RANGE: return False
        f = b.obj.asFunction(v.obj)
        if how == 1: f = type(f)(b.obj, v.obj)
        self.add(i, 'fun', f, what=b.what, grid=b.grid, state=b.state, v=v.obj)
    def want(self, f, k, p):
        e = expected(f.what, f.state['mesh'])['elements'][k]
        r = [0.0] * C.RANGE[f.what]
        for j, ix in enumerate(e['indices']):
            for c in range(len(r)): r[c] += float(f.v[ix[0]]) * e['range'][p][j][c]
        return r
    def value(self, y):
        return [float(y)] if np.ndim(y) == 0 and not hasattr(y, '__len__') else [float(c) for c in y]
    def do_eval(self, fi, k, p):
        f = self.get(fi, 'fun')
        if not f: return False
        es = list(f.obj.grid.elements); k %= len(es)
        self.same(f'value of a function of {f.what}', self.value(f.obj(es[k], POINTS[p])), self.want(f, k, p), 1e-12)
    def do_fungrid(self, i, fi):
        f = self.get(fi, 'fun')
        if not f: return False
        self.add(i, 'gv', f.obj.grid, grid=f.grid, state=f.state, what=f.what, mesh=f.state['mesh'], alias=True)
    def do_funbasis(self, i, fi):
        f = self.get(fi, 'fun')
        if not f: return False
        self.add(i, 'basis', f.obj.basis, what=f.what, grid=f.grid, state=f.state)
        self.refs.pop()                                    # the object itself is owned elsewhere
        self.checkBasis(self.h[i])
    def do_lf(self, i, fi, k):
        f = self.get(fi, 'fun')
        if not f: return False
        at = None
        if k is None: l = f.obj.localFunction()
        else:
            es = list(f.obj.grid.elements); at = k % len(es)
            self.track('element', es[at])
            l = f.obj.localFunction(es[at])
        self.add(i, 'lf', l, what=f.what, grid=f.grid, state=f.state, v=f.v, at=at)
    def do_lfbind(self, i, bi, k):
        l, b = self.get(i, 'lf'), self.get(bi, 'basis')
        if not l or not b or b.state is not l.state: return False
        x, k = self.element(b, k)
        l.obj.bind(x); l.at = k
    def do_lfunbind(self, i):
        l = self.get(i, 'lf')
        if not l or l.at is None: return False
        l.obj.unbind(); l.at = None
    def do_lfeval(self, i, p):
        l = self.get(i, 'lf')
        if not l or l.at is None: return False
        self.same(f'value of a local function of {l.what}', self.value(l.obj(POINTS[p])), self.want(l, l.at, p), 1e-12)
    def do_gvf(self, i, fi, mod):
        f = self.get(fi, 'fun')
        if not f: return False
        g = gvfClasses[C.RANGE[f.what]](f.obj)
        self.add(i, 'gvf', g, what=f.what, grid=f.grid, state=f.state, v=f.v)
    def do_gvfeval(self, i, k, p):
        g = self.get(i, 'gvf')
        if not g: return False
        n = len(expected(g.what, g.state['mesh'])['elements']); k %= n
        ev = getattr(C.consumer(), f'eval{C.RANGE[g.what]}')
        self.same(f'value of an erased function of {g.what}', list(ev(g.obj, k, *POINTS[p])), self.want(g, k, p), 1e-12)
    def do_funcall(self, fi, k, p):
        """Passes a discrete function to C++ code that expects an erased one."""
        f = self.get(fi, 'fun')
        if not f: return False
        n = len(expected(f.what, f.state['mesh'])['elements']); k %= n
        ev = getattr(C.consumer(), f'eval{C.RANGE[f.what]}')
        self.same(f'value of a converted function of {f.what}', list(ev(f.obj, k, *POINTS[p])), self.want(f, k, p), 1e-12)

    # interpolation and loops with callbacks
    def callback(self, dim, scale, kind, at, actions):
        """A user's function, which misbehaves in its at-th call."""
        state = {'n': 0}
        error = Injected(f'call {at}')
        def f(x):
            n = state['n']; state['n'] += 1
            if n == at:
                if kind == 'raise':
                    self.fault('callback_raises'); raise error
                if kind == 'type':
                    self.fault('callback_returns_wrong_type'); return 'not a number'
                if kind == 'act':
                    self.fault('callback_changes_the_pool'); actions()
            if dim == 1: return poly(0, scale, x)
            return [FieldVector, tuple, list][scale_style]((poly(0, scale, x), poly(1, scale, x))) if scale_style else FieldVector([poly(0, scale, x), poly(1, scale, x)])
        scale_style = 0
        return f, error, state
    def do_interp(self, bi, vi, scale, kind, at, drop):
        b, v = self.get(bi, 'basis'), self.h.get(vi)
        if not b or not v or v.kind != 'vec' or not self.fits(b, v) or b.what not in C.RANGE: return False
        e = self.exp(b)
        new = e['interpolated']
        own = {x['indices'][l][0] for x in e['elements'] for l in x['nodes'][()]['local']}
        old = [float(c) for c in v.obj]
        want = [scale * new[k] if k in own else old[k] for k in range(v.n)]
        def actions():
            # the handles of everything involved go away while the loop runs
            for d in drop: self.h.pop(d, None)
            gc.collect()
        f, error, state = self.callback(C.RANGE[b.what], scale, kind, at, actions)
        self.track('callback', f)
        obj, vec, what = b.obj, v.obj, b.what
        del b, v
        raised = None
        try: obj.interpolate(vec, f)
        except Injected as x:
            if x is not error: raise Violation('wrong-exception', f'interpolate raises {x!r} instead of the exception of the callback')
            raised = 'raise'
        except (TypeError, RuntimeError, ValueError) as x:
            if kind != 'type' or state['n'] <= at: raise
            raised = 'type'
        x = None; error.__traceback__ = None
        hit = state['n'] > at
        self.outdated(vec)
        got = [float(c) for c in vec]
        if hit and kind in ('raise', 'type'):
            if raised != kind: raise Violation('missing-error', f'interpolate returns although its callback failed ({kind})')
            for k, g in enumerate(got):
                if g != old[k] and abs(g - want[k]) > 1e-10 * max(1, abs(want[k])):
                    raise Violation('torn-coefficient', f'interpolate({what}) failed and left coefficient {k} = {g!r}, which was {old[k]!r} and should become {want[k]!r}')
            self.comparisons += 1
            self.see(got)
        else:
            if raised: raise Violation('unexpected-error', f'interpolate fails ({raised}) although its callback does not')
            self.same(f'coefficients after interpolate({what})', got, want, 1e-11)
    def do_interpdtype(self, bi, vi, dtype, scale):
        """A vector of another type than double: filled correctly, or refused."""
        b, v = self.get(bi, 'basis'), self.h.get(vi)
        if not b or not v or v.kind != 'vec' or not self.fits(b, v) or b.what not in C.RANGE: return False
        n, e = v.n, self.exp(b)
        one = C.RANGE[b.what] == 1
        own = {x['indices'][l][0] for x in e['elements'] for l in x['nodes'][()]['local']}
        dt = np.dtype(dtype)
        x = np.zeros(n, dtype=dt)
        self.fault('vector_of_other_type')
        val = (lambda y: scale) if one else (lambda y: FieldVector([scale, scale]))
        before = [c for c in x.tolist()]
        try: b.obj.interpolate(x, val)
        except (TypeError, ValueError, RuntimeError) as err:
            self.see('refused', type(err).__name__)
            self.same('a refused vector', x.tolist(), before)
            return
        y = np.zeros(n); b.obj.interpolate(y, val)
        want = [int(c) if dt.kind in 'iu' else bool(c) if dt.kind == 'b' else c for c in y.tolist()]
        if b.what in ('NE', 'RT0'): return                 # no integers
        self.same(f'interpolate({b.what}) into an array of {dtype}', x.tolist(), want)
    def do_badvec(self, bi, what):
        b = self.get(bi, 'basis')
        if not b or b.what not in C.RANGE: return False
        n = self.rootSize(b)
        self.fault('vector_that_does_not_fit')
        x = [np.ones(n + 1), np.ones(n - 1), np.ones((n, 2)), np.ones((1, n)), np.ones(n), np.zeros(0)][what]
        if what == 4: x.flags.writeable = False
        if what == 5 and n == 0: return False
        before = x.tolist()
        f = (lambda y: 0.0) if C.RANGE[b.what] == 1 else (lambda y: FieldVector([0.0, 0.0]))
        try: b.obj.interpolate(x, f)
        except (TypeError, ValueError, RuntimeError, IndexError) as e: self.see(type(e).__name__)
        else: raise Violation('missing-error', f'interpolate({b.what}) accepts an array of shape {x.shape}{", read-only" if what == 4 else ""} for {n} coefficients')
        self.same('an unsuitable vector', x.tolist(), before)
    def do_badfun(self, bi, what):
        b = self.get(bi, 'basis')
        if not b or b.what not in C.RANGE: return False
        n = self.rootSize(b)
        self.fault('vector_that_does_not_fit')
        x = [np.ones(n, dtype='float32'), np.ones((n, 2)), None, [0.0] * n, np.ones(n, dtype='int32')][what]
        try: b.obj.asFunction(x)
        except (TypeError, ValueError, RuntimeError, BufferError) as e: self.see(type(e).__name__)
        else: raise Violation('missing-error', f'asFunction accepts {type(x).__name__} {getattr(x, "dtype", "")} {getattr(x, "shape", "")}')
    def do_badcallback(self, bi, vi, what):
        b, v = self.get(bi, 'basis'), self.h.get(vi)
        if not b or not v or v.kind != 'vec' or not self.fits(b, v) or b.what not in C.RANGE: return False
        self.fault('argument_of_wrong_type')
        before = v.obj.tolist()
        try: b.obj.interpolate(v.obj, [3, 'f', lambda: 0.0][what])
        except TypeError as e: self.see(type(e).__name__)
        else: raise Violation('missing-error', 'interpolate accepts something that is no function of one argument')
        self.same('a vector after a refused call', v.obj.tolist(), before)
    def do_boundary(self, bi, kind, at):
        b = self.get(bi, 'basis')
        if not b or b.what not in C.BOUNDARY: return False
        want = self.exp(b)['boundary']
        seen = []; error = Injected('boundary')
        def f(i):
            if len(seen) == at and kind == 'raise':
                self.fault('callback_raises'); raise error
            seen.append(i)
        self.track('callback', f)
        try: dune.functions.forEachBoundaryDOF(b.obj, f)
        except Injected as x:
            if x is not error: raise Violation('wrong-exception', f'forEachBoundaryDOF raises {x!r}')
            error.__traceback__ = None
            if not set(seen) <= set(want): raise Violation('wrong-result', f'boundary degrees of freedom {seen}, expected {want}')
            return
        if kind == 'raise' and len(seen) >= at: raise Violation('missing-error', 'forEachBoundaryDOF returns although its callback failed')
        self.same(f'boundary degrees of freedom of {b.what}', sorted(set(seen)), want)

    def do_drop(self, i):
        if self.h.pop(i, None) is None: return False
        self.fault('handle_dropped')
    def do_isolate(self, i):
        """Everything but one object goes away."""
        if i not in self.h: return False
        for k in list(self.h):
            if k != i: self.h.pop(k)
        gc.collect()
        self.fault('all_but_one_dropped')
    def do_gc(self):
        gc.collect()
        self.fault('garbage_collection')

    def finish(self):
        """Releases everything; nothing may stay behind."""
        ids = list(self.h)
        random.Random(len(ids)).shuffle(ids)
        for i in ids: self.h.pop(i)
        gc.collect(); gc.collect()
        left = {}
        for what, r in self.refs:
            if r() is not None: left[what] = left.get(what, 0) + 1
        self.comparisons += 1
        if left: raise Violation('leak', f'still alive after everything was released: {left}')

    # ---------------------------------------------------------- generation
    WEIGHTS = dict(grid=3, refine=1, basis=6, sub=6, update=4, checkbasis=2, gv=2, checkgv=3, lv=8, bind=14, unbind=4, badbind=1, checklv=12, tree=7, child=8, badchild=1,
                   checktree=9, fe=5, lb=3, checkfe=4, checklb=4, vec=5, setvec=3, fun=7, eval=7, fungrid=1, funbasis=2, lf=5, lfbind=4, lfunbind=1, lfeval=7, gvf=3, gvfeval=5,
                   funcall=2, interp=8, interpdtype=2, badvec=2, badfun=1, badcallback=1, boundary=2, drop=18, gc=2)
    def propose(self, focus):
        r = self.rng
        def pick(l): return r.choice(l) if l else None
        names = list(self.WEIGHTS)
        for attempt in range(60):
            n = 'grid' if not self.of('grid') and attempt < 5 and r.random() < .7 else 'basis' if not self.of('basis') and attempt < 5 and r.random() < .7 else r.choices(names, [self.WEIGHTS[k] * focus.get(k, 1) for k in names])[0]
            new = self.next
            B, V, L, T, F, G = self.of('basis'), [i for i, h in self.h.items() if h.kind == 'vec'], self.of('lv'), self.of('tree'), self.of('fun'), self.of('grid')
            pool = len(self.h)
            if n in ('grid', 'basis', 'sub', 'gv', 'lv', 'tree', 'child', 'fe', 'lb', 'vec', 'fun', 'fungrid', 'funbasis', 'lf', 'gvf') and pool > 24: continue
            same = lambda l, i: [k for k in l if self.h[k].state is self.h[i].state]
            s = None
            if n == 'grid' and len(G) < 3: s = [n, new, r.randint(1, 3), r.randint(1, 2)]
            elif n == 'refine' and G: s = [n, pick(G)]
            elif n == 'basis' and G and len(B) < 6: s = [n, new, pick([k for k in C.ROOTS if k in kinds]), pick(G)]
            elif n == 'sub' and B:
                bi = pick(B); ks = [k for k in C.SUBS if C.SUBS[k][0] == self.h[bi].what and k in kinds]
                if ks: s = [n, new, pick(ks), bi]
            elif n == 'update' and G:
                bs = [i for i, h in self.h.items() if h.kind == 'basis' and h.what in C.ROOTS]
                if bs: s = [n, pick(bs), pick(G)]
            elif n in ('checkbasis',) and B: s = [n, pick(B)]
            elif n in ('gv', 'lv') and B: s = [n, new, pick(B)]
            elif n == 'checkgv': x = pick(self.of('gv')); s = x is not None and [n, x]
            elif n == 'bind' and L:
                li = pick(L); bi = pick(same(B, li))
                if bi is not None: s = [n, li, bi, r.randrange(24)]
            elif n in ('unbind', 'checklv') and L: s = [n, pick(L)]
            elif n == 'badbind' and L: s = [n, pick(L), r.randrange(4)]
            elif n == 'tree' and L: s = [n, new, pick(L)]
            elif n == 'child' and T: s = [n, new, pick(T), r.randrange(2)]
            elif n in ('badchild', 'checktree') and T: s = [n, pick(T)]
            elif n == 'fe' and T: s = [n, new, pick(T)]
            elif n == 'lb': x = pick(self.of('fe')); s = x is not None and [n, new, x]
            elif n == 'checkfe': x = pick(self.of('fe')); s = x is not None and [n, x]
            elif n == 'checklb': x = pick(self.of('lb')); s = x is not None and [n, x]
            elif n == 'vec' and B: s = [n, new, pick(B), pick(['plain', 'plain', 'strided', 'slice']), r.randrange(1000)]
            elif n == 'setvec' and V: s = [n, pick(V), r.randrange(1000)]
            elif n == 'fun' and B:
                bi = pick(B); vi = pick(same(V, bi))
                if vi is not None: s = [n, new, bi, vi, r.randrange(2)]
            elif n in ('eval', 'funcall') and F: s = [n, pick(F), r.randrange(24), r.randrange(4)]
            elif n in ('fungrid', 'funbasis') and F: s = [n, new, pick(F)]
            elif n == 'lf' and F: s = [n, new, pick(F), pick([None, r.randrange(24)])]
            elif n == 'lfbind':
                li = pick(self.of('lf')); bi = pick(same(B, li)) if li is not None else None
                if bi is not None: s = [n, li, bi, r.randrange(24)]
            elif n == 'lfunbind': x = pick(self.of('lf')); s = x is not None and [n, x]
            elif n == 'lfeval': x = pick(self.of('lf')); s = x is not None and [n, x, r.randrange(4)]
            elif n == 'gvf' and F: s = [n, new, pick(F), 0]
            elif n == 'gvfeval': x = pick(self.of('gvf')); s = x is not None and [n, x, r.randrange(24), r.randrange(4)]
            elif n in ('interp', 'interpdtype', 'badcallback') and B:
                bi = pick(B); vi = pick(same(V, bi))
                if vi is None: continue
                if n == 'interp':
                    kind = pick(['ok', 'ok', 'raise', 'type', 'act'])
                    s = [n, bi, vi, pick([1.0, 0.5, -2.0]), kind, r.choice([0, 1, 3, 9, 30]), r.sample(list(self.h), min(len(self.h), r.randint(0, 4))) + ([bi] if r.random() < .5 else []) if kind == 'act' else []]
                elif n == 'interpdtype': s = [n, bi, vi, pick(['float32', 'int64', 'int32', 'int16', 'float64', 'complex128', '>f8']), pick([1, 2, -3])]
                else: s = [n, bi, vi, r.randrange(3)]
            elif n == 'badvec' and B: s = [n, pick(B), r.randrange(6)]
            elif n == 'badfun' and B: s = [n, pick(B), r.randrange(5)]
            elif n == 'boundary' and B: s = [n, pick(B), pick(['ok', 'raise']), r.randrange(5)]
            elif n == 'drop' and len(self.h) > r.randrange(4, 20): s = [n, pick(list(self.h))]
            elif n == 'gc': s = [n]
            if s: return s
        return ['gc']

    def generate(self, steps):
        focus = {n: self.rng.choice([.3, 1, 1, 3]) for n in self.WEIGHTS}
        for _ in range(steps):
            s = self.propose(focus)
            self.next += 1
            self.perform(s)
        # what is left alone has to be usable
        r = self.rng
        while len(self.h) > 1 and r.random() < .8:
            last = [i for i, h in self.h.items() if not h.stale and h.kind in self.ALONE]
            if not last: break
            kind = r.choice(sorted({self.h[i].kind for i in last}))
            i = r.choice([k for k in last if self.h[k].kind == kind])
            derive = dict(fun='fungrid', basis='gv').get(kind)
            if derive and r.random() < .5:
                self.perform([derive, self.next, i]); i = self.next; kind = 'gv'; self.next += 1
            self.perform(['isolate', i])
            for _ in range(3):
                k, p = r.randrange(24), r.randrange(4)
                self.perform([self.ALONE[kind], i] + dict(fun=[k, p], gvf=[k, p], lf=[p]).get(kind, []))
                self.perform(['gc'])
    ALONE = dict(basis='checkbasis', gv='checkgv', lv='checklv', tree='checktree', fe='checkfe', lb='checklb', fun='eval', lf='lfeval', gvf='gvfeval')
    def perform(self, s):
        if self.record: self.record(s)
        self.run(s)

kinds = []
gvfClasses = {}
def gvfClass(basis):
    import sys
    return getattr(sys.modules[type(basis).__module__], 'GridViewFunction', None)
def make(kind, grid):
    if kind in C.ROOTS: return dune.functions.defaultGlobalBasis(grid, C.ROOTS[kind][0]())
    return dune.functions.subspaceBasis(make(C.SUBS[kind][0], grid), *C.SUBS[kind][1])

