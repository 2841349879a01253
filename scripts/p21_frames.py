"""P21: coordinate frames of the beamlines, Earth and atmosphere models, insertion of background sectors (Python side)."""
import sys, os, math, types, importlib.util
sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from pymon import Mon, REPO
import numpy as np
M = Mon(sys.argv)
def load(name, path, pkg=None):
    spec = importlib.util.spec_from_file_location(name, os.path.join(REPO, path), submodule_search_locations=[os.path.join(REPO, pkg)] if pkg else None)
    m = importlib.util.module_from_spec(spec); sys.modules[name] = m; spec.loader.exec_module(m); return m
# stand-ins for the compiled classes: they only record what they were given
class Rec:
    def __init__(self, *a): self.a = a
def cls(n): return type(n, (Rec,), {})
class Sector:
    def __init__(self): self.name = ''; self.level = 0; self.material_id = 0; self.geo = None; self.density = None
    def __repr__(self): return '%s@%s' % (self.name, self.level)
sm = types.ModuleType('siren'); sm.__path__ = []; sys.modules['siren'] = sm
for n, cs in (('math', ['Vector3D']), ('geometry', ['Sphere', 'Placement']), ('detector', ['RadialAxis1D', 'PolynomialDistribution1D', 'RadialAxisPolynomialDensityDistribution', 'ConstantDensityDistribution', 'ExponentialDistribution1D', 'RadialAxisExponentialDensityDistribution'])):
    mod = types.ModuleType('siren.' + n); sys.modules['siren.' + n] = mod; setattr(sm, n, mod)
    for c in cs: setattr(mod, c, cls(c))
sys.modules['siren.detector'].DetectorSector = Sector
geo = load('siren._sbn.sbn_geometry', 'resources/detectors/SBN/SBN-v1/sbn_geometry.py')
earth = load('siren.earth', 'python/earth/__init__.py', 'python/earth')
import siren.earth.prem as prem, siren.earth.atmosphere as atm, siren.earth.sectors as sec

def rot(r):
    q = np.array([r.gauss(0, 1) for _ in range(4)]); q /= np.linalg.norm(q); w, x, y, z = q
    return np.array([[1 - 2 * (y * y + z * z), 2 * (x * y - z * w), 2 * (x * z + y * w)], [2 * (x * y + z * w), 1 - 2 * (x * x + z * z), 2 * (y * z - x * w)], [2 * (x * z - y * w), 2 * (y * z + x * w), 1 - 2 * (x * x + y * y)]])
def vec(r, s=1000.): return np.array([r.uniform(-s, s) for _ in range(3)])

def graphs(m, r):
    """random frame graphs whose frames have known absolute poses"""
    g = geo.FrameGraph(); n = r.randrange(2, 9); pose = {'F%d' % i: (rot(r) if r.random() < .8 else np.eye(3), vec(r)) for i in range(n)}; names = list(pose); parts = r.choice([1, 1, 1, 2]); comp = {}
    def edge(a, b): # r_b = R r_a + t with world = P r + o
        (Ra, oa), (Rb, ob) = pose[a], pose[b]; R = Rb.T @ Ra; t = Rb.T @ (oa - ob)
        if r.random() < .3 and np.allclose(R, np.eye(3)): return geo.Transform.translation(a, b, t)
        return geo.Transform(a, b, R, t, 'e')
    for i, f in enumerate(names):
        g.add_frame(geo.Frame(f, '', '', '', '', '')); comp[f] = i % parts
        prev = [p for p in names[:i] if comp[p] == comp[f]]
        if prev:
            a, b = f, r.choice(prev)
            if r.random() < .5: a, b = b, a
            g.add_transform(edge(a, b))
    for _ in range(r.randrange(0, 3)):  # redundant edges agree with the rest
        a, b = r.sample(names, 2)
        if comp[a] == comp[b]: g.add_transform(edge(a, b))
    ne = len(g.edges)
    for _ in range(8):
        a, b = r.choice(names), r.choice(names); p = vec(r)
        if comp[a] != comp[b]:
            try: g.convert(p, a, b); ok = False
            except ValueError: ok = True
            m.check('unconnected-frames-refused', ok, '%s %s' % (a, b)); continue
        w = pose[a][0] @ p + pose[a][1]; exp = pose[b][0].T @ (w - pose[b][1]); got = g.convert(p if r.random() < .5 else list(p), a, b); m.check('conversion-matches-poses', np.allclose(got, exp, rtol=0, atol=1e-8), lambda: '%s->%s of %s: %s expected %s' % (a, b, p, got, exp)); t = g.compose(a, b)
        m.check('transform-names', (t.source, t.target) == (a, b), '%s %s' % (t.source, t.target)); i = t.inverse(); m.check('inverse-undoes', np.allclose(i.apply(t.apply(p)), p, rtol=0, atol=1e-8) and (i.source, i.target) == (b, a), lambda: str(i))
        c = r.choice([x for x in names if comp[x] == comp[a]]); u = t.compose(g.compose(b, c)); m.check('composition-agrees', np.allclose(u.apply(p), g.convert(p, a, c), rtol=0, atol=1e-7) and (u.source, u.target) == (a, c), lambda: '%s %s %s' % (a, b, c)); m.seen('%d frames %d edges %d apart' % (n, ne, a != b))
    R, t = rot(r), vec(r); R0, t0 = R.copy(), t.copy(); x = geo.Transform('a', 'b', R, t); R[0, 0] = 9; t[0] = 9; m.check('transform-immutable', np.array_equal(x.R, R0) and np.array_equal(x.t, t0), 'shares the caller\'s arrays')
    try: x.R[0, 0] = 1; ok = False
    except ValueError: ok = True
    m.check('transform-immutable', ok, 'writable'); m.check('graph-unchanged-by-queries', len(g.edges) == ne and set(g.frames) == set(names), 'graph changed')

# documented anchor points: (frame, point, frame, point, tolerance)
ANCHORS = [('ICARUS_LArSoft', (0, 0, 0), 'BNB', (0, 0, 600), 1e-9), ('SBND_LArSoft', (0, 0, 0), 'BNB', (.7378, 0, 110), 1e-9), ('MicroBooNE_LArSoft', (0, 0, 0), 'BNB', (0, 0, 470), 1e-9), ('MiniBooNE_local', (0, 0, 0), 'BNB', (0, 1.89614, 541.34), 1e-9),
    ('ICARUS_LArSoft', (0, 0, 0), 'NuMI', (4.503730, 80.153901, 795.112945), 1e-9), ('DUNE_ND', (0, .05387, 6.66), 'LBNF', (0, 0, 562.1179), 1e-6), ('ProtoDUNE_ND_2x2', (0, 0, 0), 'NuMI', (0, 0, 1036.48837), 1e-9), ('LBNF', (0, 0, 0), 'BNB', (261.5, 8.369, 35.8), 1e-9)]
def shipped(m, r):
    G = geo.GRAPH; F = list(G.frames); a, b, c = (r.choice(F) for _ in range(3)); p, q = vec(r), vec(r); T = geo.transform(a, b)
    m.check('shipped-rotation-proper', np.allclose(T.R @ T.R.T, np.eye(3), atol=2e-8) and abs(np.linalg.det(T.R) - 1) < 2e-8, lambda: '%s->%s: %s' % (a, b, T.R)); d0, d1 = np.linalg.norm(p - q), np.linalg.norm(geo.convert(p, a, b) - geo.convert(q, a, b)); m.check('distances-kept', abs(d0 - d1) < 1e-6 * d0, '%s->%s %g %g' % (a, b, d0, d1))
    m.check('composition-agrees', np.allclose(geo.convert(geo.convert(p, a, b), b, c), geo.convert(p, a, c), atol=2e-4), lambda: '%s %s %s' % (a, b, c)); m.check('inverse-undoes', np.allclose(geo.convert(geo.convert(p, a, b), b, a), p, atol=2e-4), '%s %s' % (a, b))
    for f, x, t, y, tol in ANCHORS: m.check('documented-anchor', np.allclose(geo.convert(x, f, t), y, rtol=0, atol=tol), lambda: '%s %s in %s is %s, documented %s' % (f, x, t, geo.convert(x, f, t), y)); m.seen('anchor %s %s' % (f, t))
    z = geo.transform('LBNF', 'BNB').R @ np.array([0, 0, 1.]); m.check('documented-anchor', abs(z[1] + math.sin(.101)) < 1e-9 and abs((math.degrees(math.atan2(-z[0], z[2])) % 360) - 287.79) < 1e-6, lambda: 'LBNF beam direction %s' % z)
    y = geo.transform('LBNF', 'BNB').R @ np.array([0, 1., 0]); m.check('documented-anchor', y[1] > .9, 'LBNF up axis %s' % y)
    for n, d in geo.DETECTORS.items():
        m.check('detector-box', np.all(d.active_min < d.active_max) and np.all(d.center_native >= d.active_min) and np.all(d.center_native <= d.active_max) and np.allclose(d.active_size(), d.active_max - d.active_min), n); m.check('detector-box', np.allclose((d.active_min + d.active_max) / 2, d.center_native, atol=.011), '%s: box is not centred' % n)
        m.check('detector-placement', np.allclose(geo.detector_center(n, a), geo.convert(d.center_native, d.native_frame, a)) and np.allclose(geo.detector_origin(n, a), geo.convert((0, 0, 0), d.native_frame, a)) and np.allclose(geo.detector_transform(n, a).apply(p), geo.convert(p, d.native_frame, a)), '%s in %s' % (n, a)); m.seen('%s in %s' % (n, a))
        try: d.center_native[0] = 5; ok = False
        except ValueError: ok = True
        m.check('transform-immutable', ok, 'detector box writable')
    m.seen('%s %s %s' % (a, b, c))

def gl(f, a, b, n=20):
    x, w = np.polynomial.legendre.leggauss(n); x = .5 * (b - a) * x + .5 * (a + b); return .5 * (b - a) * sum(wi * f(xi) for xi, wi in zip(x, w))
def layers(r):
    out, lo = [], 0.
    for i in range(r.randrange(1, 7)):
        hi = lo + r.uniform(1e3, 2e6); k = r.choice(['constant', 'polynomial', 'polynomial']); p = r.uniform(.1, 13) if k == 'constant' else [r.uniform(2, 13)] + [r.uniform(-1, 1) * 10.0 ** (-7 * j) for j in range(1, r.randrange(1, 5))]; out.append(('L%d' % i, hi, 'M%d' % i, k, p)); lo = hi
    return out
def rho(kind, p, x): return p if kind == 'constant' else sum(c * x ** k for k, c in enumerate(p))
def earth_models(m, r):
    given = r.random() < .6; ls = layers(r) if given else prem.CANONICAL_PREM_LAYERS; out = prem.collapse_to_constant(ls) if given else prem.collapse_to_constant(); lo = 0.; m.check('layers-kept', len(out) == len(ls), '%d' % len(out)); total = 0
    for (n, hi, mat, k, p), o in zip(ls, out):
        mass = gl(lambda x: rho(k, p, x) * x * x, lo, hi); vol = (hi ** 3 - lo ** 3) / 3; m.check('layers-kept', o[0] == n and o[1] == hi and o[2] == mat and o[3] == 'constant', str(o)); m.check('collapsed-layer-keeps-mass', abs(o[4] * vol - mass) <= 1e-6 * abs(mass) + 1e-9 * vol, lambda: '%s: %.10g, mean %.10g' % (n, o[4], mass / vol)); total += 4 * math.pi * mass * 1e3; lo = float(hi); m.seen('%s %s' % (k, n))
    if not given: m.check('earth-mass', abs(total / 5.973e24 - 1) < 3e-3, '%.6g kg' % total); ps = prem.canonical_prem(); m.check('layers-kept', [(q.name, q.outer_radius_m, q.material, q.density.kind, q.density.params) for q in ps] == [(a, float(b), c, d, e) for a, b, c, d, e in ls] and all(x.outer_radius_m < y.outer_radius_m for x, y in zip(ps, ps[1:])) and ps[-1].outer_radius_m == prem.R_PREM, 'canonical layers')
    # atmosphere
    H, r0 = r.uniform(2e3, 2e4), r.uniform(1e-4, 1e-2); A = atm.Atmosphere(r0, H) if r.random() < .7 else atm.USStandard1976(); r0, H = A.rho0, A.scale_height; top = r.choice([180000., 1., 4000., 4001., r.uniform(1, 2.5e5)]); bands = None if r.random() < .5 else []
    if bands is not None:
        h = r.uniform(0, 1000)
        for i in range(r.randrange(1, 6)): h2 = h + r.uniform(1000, 30000); bands.append((h, h2)); h = h2
    form = atm.AtmosphereForm(model=A, mode=r.choice(['exponential', 'shells']), top_m=top, bands=bands); R = r.uniform(6.3e6, 6.4e6); res = form.resolve(R)
    if bands is None: b = atm.default_boundaries(top); m.check('bands-cover', b and b[0][0] == 0 and b[-1][1] == min(top, 180000.) and all(x[1] == y[0] for x, y in zip(b, b[1:])) and all(x[0] < x[1] for x in b), lambda: 'top %g: %s' % (top, b)); bands = b
    m.check('bands-cover', len(res) == len(bands), '%d %d' % (len(res), len(bands)))
    for (h1, h2), q in zip(bands, res):
        col = gl(lambda h: r0 * math.exp(-h / H), h1, h2, 40); m.check('band-geometry', abs(q.r_base - R - h1) < 1e-6 and abs(q.r_top - R - h2) < 1e-6 and q.material == 'AIR', str(q)); m.check('band-density', abs(A.shell_mean_density(h1, h2) * (h2 - h1) - col) <= 1e-8 * col + 1e-15 * r0 * H, lambda: 'mean %g over %s, column %g' % (A.shell_mean_density(h1, h2), (h1, h2), col))
        if q.mode == 'exponential': m.check('band-density', form.mode == 'exponential' and abs(q.rho_base - r0 * math.exp(-h1 / H)) <= 1e-12 * r0 and q.scale_height == H, str(q))
        else: m.check('band-density', form.mode == 'shells' and q.mode == 'constant' and abs(q.rho_base * (h2 - h1) - col) <= 1e-8 * col + 1e-15 * r0 * H, str(q))
        m.seen('band %s %d' % (q.mode, h1 // 10000))
    cl = atm.constant_shell_layers(A, R, bands); m.check('band-density', len(cl) == len(bands) and all(c[1] == int(R + b[1]) and c[2:4] == ('AIR', 'constant') and c[4] == A.shell_mean_density(*b) for c, b in zip(cl, bands)), str(cl))

class Model:
    def __init__(s, ss): s._s = ss
    Sectors = property(lambda s: list(s._s), lambda s, v: setattr(s, '_s', list(v)))
    def GetMaterials(s): return types.SimpleNamespace(GetMaterialId=lambda n: 'id:' + n)
def mk(n, l): s = Sector(); s.name = n; s.level = l; return s
def insertion(m, r):
    base = [mk('UNIVERSE', -2147483648 if r.random() < .5 else -1)] if r.random() < .6 else []; lv = r.sample(range(0, 30), r.randrange(1, 8)); off = r.choice([0, 1, 5]); old = [mk('S%d' % i, l + off) for i, l in enumerate(lv)]; r.shuffle(old); mod = Model(base + old); order = [s.name for s in sorted(old, key=lambda s: s.level)]
    anchor = r.choice(order); new = [mk('N%d' % i, 0) for i in range(r.randrange(0, 5))]; sec.insert_sectors_above(mod, anchor, new); got = [s.name for s in mod.Sectors if s.name != 'UNIVERSE']; exp = list(order); k = exp.index(anchor) + 1; exp[k:k] = [s.name for s in new]
    m.check('inserted-just-above', got == exp and len({s.level for s in mod.Sectors}) == len(mod.Sectors), lambda: 'anchor %s: %s expected %s' % (anchor, mod.Sectors, exp)); m.check('inserted-just-above', [s.level for s in mod.Sectors] == sorted(s.level for s in mod.Sectors), 'not sorted')
    try: sec.insert_sectors_above(mod, 'nope', [mk('Z', 0)]); ok = False
    except RuntimeError: ok = True
    m.check('unknown-anchor-refused', ok, 'accepted'); m.seen('insert %d into %d at %d' % (len(new), len(old), k))
    # whole Earth
    ls = layers(r) if r.random() < .6 else None; use = ls or prem.CANONICAL_PREM_LAYERS; atmo = None if r.random() < .4 else atm.AtmosphereForm(mode=r.choice(['exponential', 'shells'])); ex = []
    for i in range(r.randrange(0, 4)): ex.append(sec.PositionedSector('X%d' % i, 'ICE', 'geo%d' % i, density=None if r.random() < .5 else 'dens%d' % i, density_const=1.5 + i, insert_before=r.choice([None, 'no such layer', use[0][0], use[-1][0], r.choice(use)[0]])))
    mod = Model([s for s in mod.Sectors]); before = [s.name for s in mod.Sectors if s.name != 'UNIVERSE']; so = r.uniform(-2000, 2000); up = r.choice([(0., 1., 0.), (0., 0., 1.), (1., 0., 0.)]); R = r.choice([6371000., 6371324.]); uni = [s.level for s in mod.Sectors if s.name == 'UNIVERSE']
    sec.build_earth_sectors(mod, surface_offset=so, prem_layers=ls, atmosphere=atmo, extra_sectors=ex, up_axis=up, r_prem=R); S = mod.Sectors; by = {s.name: s for s in S}
    m.check('every-sector-once', sorted(s.name for s in S) == sorted([s for s in before] + ['UNIVERSE'] * len(uni) + [l[0] for l in use] + [x.name for x in ex] + [b.name for b in (atmo.resolve(R) if atmo else [])]), lambda: 'sectors %s; extras %s' % (S, [(x.name, x.insert_before) for x in ex]))
    pos = [s for s in S if s.name != 'UNIVERSE']; m.check('levels-distinct', len({s.level for s in pos}) == len(pos) and [s.level for s in S] == sorted(s.level for s in S), lambda: str(S)); m.check('detector-above-background', [s.name for s in pos][-len(before):] == before and min(by[n].level for n in before) == len(pos) - len(before), lambda: '%s %s' % (S, before)); m.check('universe-level-kept', [s.level for s in S if s.name == 'UNIVERSE'] == uni, str(S))
    chain = []
    for l in use:
        chain += [x.name for x in ex if x.insert_before == l[0]] + [l[0]]
    chain += [x.name for x in ex if x.insert_before is None or x.insert_before == 'no such layer']; rest = {b.name: b for b in (atmo.resolve(R) if atmo else [])}; have = [s.name for s in reversed(pos) if s.name not in before]; ci = [n for n in have if n not in rest]; m.check('inner-shells-win', [n for n in ci if not n.startswith('X') or by[n] and True] == ci and [n for n in ci if n in [l[0] for l in use]] == [l[0] for l in use] and have[len(have) - len(rest):] == list(rest), lambda: str(have))
    for x in ex:
        if x.insert_before not in (None, 'no such layer') and x.name in by: i = have.index(x.name); j = have.index(x.insert_before); m.check('extra-just-before-its-layer', i < j and all(n.startswith('X') for n in have[i:j]), lambda: '%s before %s: %s' % (x.name, x.insert_before, have))
        if x.name in by: s = by[x.name]; m.check('sector-contents', s.geo == x.geo and s.material_id == 'id:ICE' and (s.density == x.density if x.density is not None else s.density.a == (x.density_const,)), x.name)
    cen = tuple(-u * (R - so) for u in up)
    for n, hi, mat, k, p in use:
        s = by[n]; pl, ro, ri = s.geo.a; c = pl.a[0].a; ok = s.material_id == 'id:' + mat and ro == float(hi) and ri == 0 and np.allclose(c, cen) and ((s.density.a == (float(p),)) if k == 'constant' else (np.allclose(s.density.a[0].a[0].a, cen) and s.density.a[1].a == (list(p),))); m.check('sector-contents', ok, lambda: '%s %s' % (n, s.geo.a))
    for n, b in rest.items(): s = by[n]; ok = s.geo.a[1] == b.r_top and ((s.density.a == (b.rho_base,)) if b.mode == 'constant' else s.density.a[1].a == (-1.0 / b.scale_height, b.rho_base, b.r_base)); m.check('sector-contents', ok and s.material_id == 'id:AIR', n)
    try: sec.build_earth_sectors(mod, surface_offset=so, prem_layers=ls); ok = False
    except RuntimeError: ok = True
    m.check('second-application-refused', ok, 'accepted twice'); m.seen('earth %d %d %s' % (len(use), len(ex), atmo and atmo.mode))
M.run('graphs', graphs, 400, 10000); M.run('shipped', shipped, 200, 4000); M.run('earth_models', earth_models, 400, 10000); M.run('insertion', insertion, 600, 15000)
M.done()
