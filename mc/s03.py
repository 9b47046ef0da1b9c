import inspect
import math

import numpy as np

from .core import Exc, call

RULE = '''State = (pool of shared objects, history of operations). The pool holds arrays, lists and tuples, constitutive laws of every
kind (also nested), materials of every code, geometries of every kind, profiles and two sections that share them. Operations: every
public evaluation, construction, transformation, combination and analysis on members of the pool. Explored: every operation alone and the ordered
pairs of operations (quick tier: every third pair within a group and every 13th across groups; thorough: all, also repeated). Transition = one operation; after each history the values, types and
behaviour of the whole pool are compared with the snapshot made before; returned arrays must not alias an argument.'''
ASSUMPTIONS = [
    'behaviour of laws is observed on 23 strains (scalar and array), of materials through all public properties, of geometries through coordinates and attributes',
]
EPS = [-0.02, -0.0051, -0.0035, -0.0034, -0.002, -0.0011, -0.0007, -1e-5, 0.0, 1e-5, 5e-5, 0.0001, 0.0004, 0.001, 0.00217, 0.0022, 0.003, 0.01, 0.0249, 0.025, 0.03, 0.049, 0.06]


def make():
    import shapely
    from shapely import LineString, MultiPolygon, Polygon

    from structuralcodes import geometry as G
    from structuralcodes.geometry import profiles
    from structuralcodes.materials import basic, concrete, reinforcement
    from structuralcodes.materials import constitutive_laws as cl
    from structuralcodes.sections import GenericSection

    p = {}
    # values
    p['strain list'] = [0.0004, -2e-6, 1e-6]
    p['strain int list'] = [0, 0, 0]
    p['strain tuple'] = (-0.0005, -1e-6, 0.0)
    p['strain array'] = np.array([0.0002, -3e-6, 2e-6])
    p['strain fixed array'] = np.array([-0.0004, 0.0, 2e-6])
    p['strain int array'] = np.array([0, 0, 0])
    p['strain gradient free'] = np.array([-0.0003, 0.0, 0.0])
    for k, e in enumerate((-0.0035 + 3e-7, 0.025 - 2e-7, -0.003 - 1e-7, 0.02 + 1e-7, 0.006 + 2e-7, 0.024 + 1e-7, -0.0031 + 1e-7)):
        p[f'limit {k}'] = [e, 0.0]
        p[f'limit plane {k}'] = [e, 0.0, 0.0]
        p[f'limit array {k}'] = np.array([e, 0.0, 0.0])
    p['eps list'] = [-0.0035 + 3e-7, 0.025 - 1e-7, 0.0, -0.001, 0.0021]
    p['eps tuple'] = (-0.0035 - 2e-7, 0.001, 0.05)
    p['eps int list'] = [0, -1, 0]
    p['eps array'] = np.array([-0.0035 + 5e-7, 0.0, 0.025 + 5e-7, 0.002, -0.002 + 1e-7, 0.07])
    p['eps 2d'] = np.array([[-0.001, 0.0], [0.0250004, -0.0035004]])
    p['eps int array'] = np.array([0, 0, -1])
    p['eps zeros'] = np.zeros(3)
    p['chi list'] = [-1e-6, -3e-6]
    p['chi array'] = np.array([-1e-6, -3e-6])
    p['chi unsorted'] = np.array([-2e-6, -3e-6, -1e-6, -2e-6])
    p['chi signs'] = np.array([1e-6, -1e-6, 0.0, 2e-7])
    p['chi int'] = np.array([0, 0])
    p['chi int list'] = [0, 0]
    p['chi tuple'] = (2e-6, -1e-6)
    p['xs list'] = [-0.003, 0.0, 0.006]
    p['ys list'] = [-20.0, 0.0, 30.0]
    p['xs array'] = np.array([0.0, 0.002, 0.02])
    p['ys array'] = np.array([0.0, 400.0, 600.0])
    p['eps_u list'] = (0.01, -0.004)
    p['weights'] = [0.4, 0.6]
    p['weights array'] = np.array([2, 3])
    p['point list'] = [10.0, 20.0]
    p['point array'] = np.array([30, -20])
    p['origin list'] = [5.0, 7.0]
    p['line'] = LineString([(-500, 30), (500, 80)])
    p['line2'] = LineString([(-500, -100), (500, -100)])
    p['poly'] = Polygon([(0, 0), (200, 0), (200, 300), (0, 300)], [[(50, 50), (50, 100), (120, 100), (120, 50)]])
    p['multipoly'] = MultiPolygon([Polygon([(0, 0), (50, 0), (50, 60)]), Polygon([(100, 0), (180, 0), (180, 60)])])
    # laws
    p['el'] = cl.Elastic(30000.0, eps_u=(-0.0035, 0.025))
    p['el0'] = cl.Elastic(200000.0)
    p['ep'] = cl.ElasticPlastic(200000.0, 435.0, 900.0, 0.025)
    p['pr'] = cl.ParabolaRectangle(20.0, -0.002, -0.0035)
    p['bc'] = cl.BilinearCompression(20.0, -0.00175, -0.0035)
    p['sa'] = cl.Sargin(38.0, -0.0023, -0.0035, 2.04)
    p['po'] = cl.Popovics(38.0)
    p['ud'] = cl.UserDefined(p['xs list'], p['ys list'], 'f', flag=1)
    p['ud2'] = cl.UserDefined(p['xs array'], p['ys array'])
    p['is'] = cl.InitialStrain(p['ep'], 0.001)
    p['is2'] = cl.InitialStrain(p['pr'], -0.0004, False)
    p['laws'] = [p['ep'], p['ud']]
    p['pa'] = cl.Parallel(p['laws'], p['weights'])
    p['pa2'] = cl.Parallel([p['is'], p['pa'], p['bc']])
    # materials
    p['c04'] = concrete.create_concrete(30.0, design_code='ec2_2004')
    p['c23'] = concrete.create_concrete(35.0, design_code='ec2_2023', constitutive_law='sargin')
    p['c10'] = concrete.create_concrete(60.0, design_code='mc2010', constitutive_law='bilinearcompression')
    p['claw'] = concrete.create_concrete(60.0, design_code='mc2010', constitutive_law=p['pr'])
    kw = dict(fyk=500.0, Es=200000.0, ftk=540.0, epsuk=0.05)
    p['r04'] = reinforcement.create_reinforcement(design_code='ec2_2004', **kw)
    p['r23'] = reinforcement.create_reinforcement(design_code='ec2_2023', constitutive_law='elasticplastic', **kw)
    p['r10'] = reinforcement.create_reinforcement(design_code='mc2010', initial_stress=200.0, **kw)
    p['rlaw'] = reinforcement.create_reinforcement(design_code='mc2010', constitutive_law=p['ep'], **kw)
    p['gen'] = basic.GenericMaterial(density=7850, constitutive_law=p['ep'])
    p['gen2'] = basic.GenericMaterial(density=7850, constitutive_law=p['ep'], initial_strain=0.0005)
    p['elm'] = basic.ElasticMaterial(210000.0, 7850)
    # geometries
    p['rect'] = G.RectangularGeometry(300, 500, p['c04'], origin=p['origin list'], name='R', group_label='g')
    p['circ'] = G.CircularGeometry(400, p['claw'], n_points=12, name='C')
    p['surf'] = G.SurfaceGeometry(p['poly'], p['gen'], name='S', group_label='h')
    p['bar'] = G.PointGeometry(p['point list'], 20, p['r04'], name='B', group_label='b')
    rc = G.add_reinforcement_line(p['rect'], (-100, -200), (110, -200), 20, p['r04'], n=3, group_label='bot')
    rc = G.add_reinforcement_circle(rc, (0, 0), 90, 12, p['rlaw'], n=4)
    p['rc'] = rc + p['bar']
    p['comp'] = G.CompoundGeometry([p['surf'].translate(-400, 10), p['circ'], p['bar']])
    p['mp'] = G.CompoundGeometry(p['multipoly'], p['elm'])
    p['geos'] = [p['rect'], p['bar']]
    p['ipe'] = profiles.IPE('IPE100')
    p['steel'] = G.SurfaceGeometry(p['ipe'].polygon, p['gen2'])
    p['sec'] = GenericSection(p['rc'])
    p['fib'] = GenericSection(p['rc'], integrator='fiber', mesh_size=0.05)
    p['mix'] = GenericSection(p['comp'])
    return p


def table():
    import shapely
    from shapely import LineString, MultiLineString

    from structuralcodes import geometry as G
    from structuralcodes.geometry import profiles
    from structuralcodes.materials import basic, concrete, reinforcement
    from structuralcodes.materials import constitutive_laws as cl
    from structuralcodes.sections import FiberIntegrator, GenericSection, MarinIntegrator, calculate_elastic_cracked_properties

    o = []
    laws = ['el', 'el0', 'ep', 'pr', 'bc', 'sa', 'po', 'ud', 'ud2', 'is', 'is2', 'pa', 'pa2']
    for l in laws:
        for fn in ('get_stress', 'get_tangent', 'get_secant'):
            def f(p, l=l, fn=fn):
                outs = []
                for a in ('eps list', 'eps tuple', 'eps int list', 'eps array', 'eps 2d', 'eps int array', 'eps zeros'):
                    r = getattr(p[l], fn)(p[a])
                    alias(r, p[a], f'{l}.{fn}({a})')
                    if isinstance(r, np.ndarray):
                        r *= 0  # a caller may use the result as it likes
                    outs.append(r)
            o.append(('laws', f'{fn} {l}', f))

        def g(p, l=l):
            for s in ('strain list', 'strain tuple', 'strain array', 'strain int list', 'strain gradient free'):
                p[l].__marin__(strain=p[s][:2])
                p[l].__marin_tangent__(strain=p[s][:2])
                if isinstance(p[s], np.ndarray):
                    st = p[s][:2]
                    keep = st.copy()
                    p[l].__marin__(strain=st)
                    p[l].__marin_tangent__(strain=st)
                    if not np.array_equal(st, keep):
                        raise Changed(f'{l}.__marin__ changed the strain {keep} to {st}')
            for k in range(7):
                p[l].__marin__(strain=p[f'limit {k}'])
                p[l].__marin_tangent__(strain=p[f'limit {k}'])
        o.append(('laws', f'polynomial {l}', g))
        o.append(('laws', f'limits {l}', lambda p, l=l: (p[l].get_ultimate_strain(), p[l].get_ultimate_strain(yielding=True), p[l].get_ultimate_strain())))
        if l not in ('is', 'is2', 'pa', 'pa2'):
            o.append(('laws', f'wrap {l}', lambda p, l=l: cl.Parallel([cl.InitialStrain(p[l], 0.001), cl.InitialStrain(p[l], -0.0002, False), p[l]]).get_stress(p['eps array'])))
    o += [
        ('laws', 'user law from lists', lambda p: cl.UserDefined(p['xs list'], p['ys list'], flag=2).get_stress(0.001)),
        ('laws', 'user law from arrays', lambda p: cl.UserDefined(p['xs array'], p['ys array'], flag=1).get_stress(p['eps array'])),
        ('laws', 'set ultimate strains of another user law', lambda p: cl.UserDefined(p['xs list'], p['ys list'], flag=0, eps_u=p['eps_u list']).set_ultimate_strain(p['eps_u list'])),
        ('laws', 'user law from integer arrays', lambda p: cl.UserDefined(np.array([0, 1]), np.array([0, 7]), flag=1).get_tangent(p['eps array'])),
        ('laws', 'parallel of lists', lambda p: cl.Parallel(p['laws'], p['weights']).get_tangent(p['eps array'])),
        ('laws', 'parallel of arrays', lambda p: cl.Parallel(p['laws'], p['weights array']).get_stress(p['eps array'])),
        ('laws', 'elastic limits of a list', lambda p: cl.Elastic(1e4, eps_u=p['eps_u list']).get_stress(p['eps list'])),
    ]
    M = 'materials'
    o += [
        (M, 'concrete with law', lambda p: concrete.create_concrete(30.0, design_code='ec2_2004', constitutive_law=p['pr'])),
        (M, 'concrete with law and strain', lambda p: concrete.create_concrete(30.0, design_code='ec2_2023', constitutive_law=p['pr'], initial_strain=-0.0004)),
        (M, 'concrete with law and stress', lambda p: concrete.create_concrete(30.0, design_code='mc2010', constitutive_law=p['bc'], initial_stress=-5.0, strain_compatibility=False)),
        (M, 'reinforcement with law', lambda p: reinforcement.create_reinforcement(500, 2e5, 550, 0.05, design_code='ec2_2004', constitutive_law=p['ep'])),
        (M, 'reinforcement with law and stress', lambda p: reinforcement.create_reinforcement(500, 2e5, 550, 0.05, design_code='mc2010', constitutive_law=p['ep'], initial_stress=300.0)),
        (M, 'reinforcement with law and strain', lambda p: reinforcement.create_reinforcement(500, 2e5, 550, 0.05, design_code='ec2_2023', constitutive_law=p['ud'], initial_strain=0.001)),
        (M, 'generic with stress', lambda p: basic.GenericMaterial(7850, p['ep'], initial_stress=100.0)),
        (M, 'generic with strain', lambda p: basic.GenericMaterial(7850, p['pa'], initial_strain=0.001, strain_compatibility=False)),
        (M, 'elastic material', lambda p: basic.ElasticMaterial(1e4, 10, ultimate_strain=(-0.01, 0.02), initial_stress=3.0)),
        (M, 'elastic from material', lambda p: [basic.ElasticMaterial.from_material(p[m]) for m in ('c04', 'c23', 'c10', 'claw', 'r04', 'r10', 'rlaw', 'gen', 'gen2')]),
        (M, 'elastic plastic from material', lambda p: [basic.ElasticPlasticMaterial(2e5, 400, 7850, 1000, 0.03, initial_strain=0.001)]),
        (M, 'read all', lambda p: [material(p[m]) for m in ('c04', 'c23', 'c10', 'claw', 'r04', 'r23', 'r10', 'rlaw', 'gen', 'gen2', 'elm')]),
    ]
    for m in ('c04', 'c23', 'c10', 'r04', 'r23', 'r10', 'elm'):
        for n in ('elastic', 'elasticplastic', 'parabolarectangle', 'sargin', 'bilinearcompression', 'popovics', 'elasticperfectlyplastic'):
            o.append((M, f'law {n} of {m}', lambda p, m=m, n=n: call(cl.create_constitutive_law, n, p[m])))
    K = 'geometry'
    ax = lambda p: p['line']
    for g in ('rect', 'circ', 'surf', 'bar', 'rc', 'comp', 'mp', 'steel'):
        o += [
            (K, f'translate {g}', lambda p, g=g: p[g].translate(10, -20)),
            (K, f'rotate {g}', lambda p, g=g: p[g].rotate(0.3).rotate(20, p['point list'], use_radians=False)),
            (K, f'mirror {g}', lambda p, g=g: p[g].mirror(p['line']).mirror(p['line2'])),
            (K, f'add {g}', lambda p, g=g: (p[g] + p['bar']) + (p['comp'] + p[g])),
            (K, f'from {g}', lambda p, g=g: (type(p[g]).from_geometry(p[g], p['elm']), type(p[g]).from_geometry(p[g]))),
        ]
        if g != 'bar':
            o += [
                (K, f'subtract {g}', lambda p, g=g: ((p[g] - p['circ']), (p['comp'] - p[g]), p['rect'] - p[g], (p[g] - p['bar']))),
                (K, f'bar in {g}', lambda p, g=g: G.add_reinforcement(p[g], p['point list'], 10, p['r04'])),
                (K, f'bar array in {g}', lambda p, g=g: G.add_reinforcement(p[g], p['point array'], 10, p['r04'], group_label='x')),
                (K, f'line in {g}', lambda p, g=g: G.add_reinforcement_line(p[g], p['point list'], p['point array'], 10, p['r04'], n=3)),
                (K, f'centred line in {g}', lambda p, g=g: G.add_reinforcement_line(p[g], p['point array'], p['point list'], 10, p['r04'], n=2, s=10, first=False)),
                (K, f'integer line in {g}', lambda p, g=g: G.add_reinforcement_line(p[g], p['point array'], np.array([90, 40]), 10, p['r04'], s=7, last=False)),
                (K, f'circle in {g}', lambda p, g=g: G.add_reinforcement_circle(p[g], p['point list'], 50, 10, p['r04'], s=40)),
                (K, f'extents {g}', lambda p, g=g: p[g].calculate_extents()),
                (K, f'section of {g}', lambda p, g=g: GenericSection(p[g], integrator='fiber', mesh_size=0.2).gross_properties),
            ]
        if g in ('rect', 'circ', 'surf', 'steel'):
            o += [
                (K, f'split {g}', lambda p, g=g: (p[g].split(p['line']), p[g].split((p['point list'], 1.0)))),
                (K, f'split two {g}', lambda p, g=g: (p[g].split_two_lines((p['line'], p['line2'])), p[g].split_two_lines(MultiLineString([p['line'], p['line2']])))),
            ]
        if g in ('rc', 'comp', 'mp'):
            o.append((K, f'change a list of a new compound {g}', lambda p, g=g: G.CompoundGeometry([p[g]]).geometries.clear()))
            o.append((K, f'change a sum {g}', lambda p, g=g: ((p[g] + p['bar']).point_geometries.clear(), (p[g].translate(1, 1)).geometries.append(p['rect']))))
    o += [
        (K, 'compound of a list', lambda p: G.CompoundGeometry(p['geos']) + p['bar']),
        (K, 'compound of a multipolygon', lambda p: G.CompoundGeometry(p['multipoly'], [p['elm'], p['c04']])),
        (K, 'point of a list', lambda p: G.PointGeometry(p['point list'], 10, p['r04']).translate(1, 2)),
        (K, 'point of an array', lambda p: G.PointGeometry(p['point array'], 10, p['r04']).rotate(1)),
        (K, 'rectangle at a list', lambda p: G.RectangularGeometry(10, 20, p['c04'], origin=p['origin list'])),
        (K, 'circle at an array', lambda p: G.CircularGeometry(10, p['c04'], origin=p['point array'])),
        (K, 'profile', lambda p: (profiles.IPE('IPE100').Iy, profiles.IPE('IPE100').polygon, profiles.IPE.get_polygon('IPE100'), profiles.IPE.profiles())),
        (K, 'all profile classes', lambda p: [(getattr(profiles, n)(nm).A, getattr(profiles, n).get_polygon(nm)) for n, nm in PROFILES]),
        (K, 'change profile list', lambda p: list(profiles.IPE.profiles()).clear()),
        (K, 'profile properties', lambda p: (p['ipe'].A, p['ipe'].Wply, p['ipe'].theta)),
    ]
    A = 'analysis'
    for s in ('sec', 'fib', 'mix'):
        c = lambda p, s=s: p[s].section_calculator
        for st in ('strain list', 'strain tuple', 'strain array', 'strain fixed array', 'strain int list', 'strain int array', 'strain gradient free'):
            def f(p, c=c, st=st):
                r = c(p).integrate_strain_profile(p[st])
                k = c(p).integrate_strain_profile(p[st], 'modulus')
                alias(k, p[st], st)
                k *= 0
            def lim(p, c=c):
                for k in range(7):
                    for w in ('limit plane', 'limit array'):
                        c(p).integrate_strain_profile(p[f'{w} {k}'])
                        c(p).integrate_strain_profile(p[f'{w} {k}'], 'modulus')
            if st == 'strain list':
                o.append((A, f'integrate {s} at limits', lim))
            o.append((A, f'integrate {s} {st}', f))
        o += [
            (A, f'bending {s}', lambda p, c=c: c(p).calculate_bending_strength(0.5, -1e5)),
            (A, f'bending infeasible {s}', lambda p, c=c: call(c(p).calculate_bending_strength, 0.5, -1e9)),
            (A, f'nm {s}', lambda p, c=c: c(p).calculate_nm_interaction_domain(0.3, num_1=1, num_2=1, num_3=1, num_4=1, num_5=1, num_6=1)),
            (A, f'mm {s}', lambda p, c=c: c(p).calculate_mm_interaction_domain(-1e5, 2)),
            (A, f'curvatures list {s}', lambda p, c=c: c(p).calculate_moment_curvature(0.3, -1e5, chi=p['chi list'])),
            (A, f'curvatures array {s}', lambda p, c=c: change(c(p).calculate_moment_curvature(2.3, -1e5, chi=p['chi array']))),
            (A, f'curvatures unsorted {s}', lambda p, c=c: change(c(p).calculate_moment_curvature(0.0, -1e5, chi=p['chi unsorted']))),
            (A, f'curvatures of both signs {s}', lambda p, c=c: (change(c(p).calculate_moment_curvature(1.3, -1e5, chi=p['chi signs'])), c(p).calculate_moment_curvature(chi=p['chi tuple']))),
            (A, f'curvatures integer {s}', lambda p, c=c: (change(c(p).calculate_moment_curvature(-0.4, -1e5, chi=p['chi int'])), c(p).calculate_moment_curvature(chi=p['chi int list']))),
            (A, f'curvatures {s}', lambda p, c=c: c(p).calculate_moment_curvature(1.3, -1e5, num_pre_yield=2, num_post_yield=1)),
            (A, f'profile {s}', lambda p, c=c: c(p).calculate_strain_profile(-1e5, 1e6, 2e6)),
            (A, f'profile initial {s}', lambda p, c=c: call(c(p).calculate_strain_profile, -1e5, 1e6, 2e6, initial=True, max_iter=50)),
            (A, f'cracked {s}', lambda p, s=s: call(calculate_elastic_cracked_properties, p[s], 0.4, True)),
            (A, f'limits {s}', lambda p, c=c: (c(p).n_min, c(p).n_max)),
        ]
    for I in (MarinIntegrator, FiberIntegrator):
        for st in ('strain list', 'strain array', 'strain fixed array', 'strain gradient free', 'strain int array'):
            for g in ('rc', 'comp'):
                def f(p, I=I, st=st, g=g):
                    r = I().integrate_strain_response_on_geometry(p[g], p[st], mesh_size=0.1)
                    I().integrate_strain_response_on_geometry(p[g], p[st], 'modulus', integration_data=r[-1], mesh_size=0.1)
                o.append((A, f'{I.__name__} {g} {st}', f))
    return o


PROFILES = []


def catalogues():
    from structuralcodes.geometry import profiles

    for n in sorted(profiles.__all__):
        c = getattr(profiles, n)
        if inspect.isclass(c) and hasattr(c, 'profiles'):
            ns = list(c.profiles())
            PROFILES.extend((n, x) for x in (ns[0], ns[len(ns) // 2]))


class Changed(Exception):
    pass


def change(r):
    for k in ('m_y', 'm_z', 'eps_axial', 'chi_y', 'chi_z'):
        a = getattr(r, k)
        if isinstance(a, np.ndarray):
            a *= 0


def alias(r, a, lab):
    if isinstance(r, np.ndarray) and isinstance(a, np.ndarray) and np.shares_memory(r, a):
        raise Changed(f'the result of {lab} shares its memory with the argument')


def law(l):
    f = lambda v: v.tolist() if isinstance(v, np.ndarray) else v
    with np.errstate(all='ignore'):
        return repr((
            type(l).__name__, l.name, l.get_ultimate_strain(), [float(np.real(l.get_stress(e))) for e in EPS],
            f(l.get_stress(np.array(EPS))), f(l.get_tangent(np.array(EPS))), [float(np.real(l.get_tangent(e))) for e in EPS[::3]],
        ))


def material(m):
    out = {}
    for n in dir(type(m)):
        if not n.startswith('_') and isinstance(inspect.getattr_static(type(m), n), property):
            v = call(getattr, m, n)
            out[n] = law(v) if n == 'constitutive_law' else repr(v)
    return repr((type(m).__name__, out))


class Ids:
    def __init__(self):
        self.keep = []

    def __call__(self, o):
        self.keep.append(o)
        return id(o)


def geo(g, ids):
    if hasattr(g, 'point_geometries'):
        return (type(g).__name__, [geo(x, ids) for x in g.geometries], [geo(x, ids) for x in g.point_geometries], g.reinforced_concrete, g.area, g.geom.wkb)
    if hasattr(g, 'polygon'):
        return (type(g).__name__, g.polygon.wkb, ids(g.material), g.name, g.group_label, g.concrete, g.area, g.density)
    return (type(g).__name__, g.point.wkb, g.diameter, g.area, ids(g.material), g.name, g.group_label)


def snapshot(p, ids):
    out = {}
    for k, v in p.items():
        if isinstance(v, np.ndarray):
            out[k] = ('array', str(v.dtype), v.shape, v.tobytes(), v.flags.writeable)
        elif isinstance(v, (list, tuple)):
            out[k] = (type(v).__name__, [(type(x).__name__, x if isinstance(x, (int, float)) else id(x)) for x in v])
        elif hasattr(v, 'wkb'):
            out[k] = v.wkb
        elif hasattr(v, 'get_stress'):
            out[k] = law(v)
        elif hasattr(v, 'constitutive_law'):
            out[k] = material(v)
        elif hasattr(v, 'section_calculator'):
            out[k] = (v.name, geo(v.geometry, ids), id(v.geometry))
        elif hasattr(v, 'geometries') or hasattr(v, 'material'):
            out[k] = geo(v, ids)
        else:  # a profile
            out[k] = (v.polygon.wkb, v.A, v.Iy, v.Iz)
    from structuralcodes.geometry import profiles

    out['profile catalogues'] = repr([(n, x, getattr(getattr(profiles, n), 'parameters', {}).get(x)) for n, x in PROFILES])
    return out


def jobs(tier):
    n = len(table())
    # chunks of first operations
    return [(tier, i, 24) for i in range(24)]


def run(job, R):
    tier, k, nk = job
    if not PROFILES:
        catalogues()
    O = table()
    p = make()
    p['strain fixed array'].flags.writeable = False
    ids = Ids()
    base = snapshot(p, ids)
    first = list(range(k, len(O), nk))
    hist = []

    def do(seq):
        """Operations one after the other on the pool, then the pool compared."""
        nonlocal p, base, ids, hist
        bad = None
        for i in seq:
            g, nm, f = O[i]
            hist = (hist + [nm])[-3:]
            r = call(f, p)
            R.step()
            R.state((k, nm, tuple(hist)))
            R.outcome((nm, type(r).__name__))
            if isinstance(r, Exc):
                # an operation may refuse its input, but not try to write to it
                if r.type is Changed or 'read-only' in r.msg:
                    bad = f'{r}'
                    break
        R.trace()
        if not bad:
            now = snapshot(p, ids)
            for key in base:
                if now[key] != base[key]:
                    bad = f'{key} changed: {str(base[key])[:300]} -> {str(now[key])[:300]}'
                    break
        if bad:
            R.fail(' > '.join(hist), f'after {hist}: {bad}')
            p = make()
            p['strain fixed array'].flags.writeable = False
            ids = Ids()
            base = snapshot(p, ids)
            hist = []
            return True
        return False

    bad_ops = set()
    for i in first:
        if do([i]):
            bad_ops.add(i)
    # every ordered pair (a, b) with a in this chunk
    for a in first:
        for b in range(len(O)):
            if tier == 'quick' and (a + b) % (3 if O[a][0] == O[b][0] else 13):
                continue
            if {a, b} & bad_ops:
                continue
            if tier == 'quick':
                do([a, b])
            else:
                for c in ([a, b], [b, a, b], [a, b, b, a]):
                    do(c)
    R.sample({'operations': len(O), 'first': [O[i][1] for i in first[:4]]})
