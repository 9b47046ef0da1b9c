"""Reference models of the concrete and reinforcement materials."""
from .ref_codes import EC2, EC23, MC
from .ref_laws import Ref

CODES = ('ec2_2004', 'ec2_2023', 'mc2010')
LAWS_C = ('elastic', 'parabolarectangle', 'bilinearcompression', 'sargin', 'popovics')
LAWS_S = ('elastic', 'elasticperfectlyplastic', 'elasticplastic')

OVR = {
    'ec2_2004': ('fcm', 'fctm', 'fctk_5', 'fctk_95', 'Ecm', 'eps_c1', 'eps_cu1', 'k_sargin', 'eps_c2', 'eps_cu2', 'n_parabolic_rectangular', 'eps_c3', 'eps_cu3'),
    'ec2_2023': ('fcm', 'fctm', 'fctk_5', 'fctk_95', 'Ecm', 'eps_c1', 'eps_cu1', 'k_sargin', 'eps_c2', 'eps_cu2', 'n_parabolic_rectangular'),
    'mc2010': ('fcm', 'fctm', 'fctkmin', 'fctkmax', 'Eci', 'Gf', 'eps_c1', 'eps_cu1', 'k_sargin', 'eps_c2', 'eps_cu2', 'n_parabolic_rectangular', 'eps_c3', 'eps_cu3'),
}


def classes(code):
    from structuralcodes.materials import concrete, reinforcement

    s = {'ec2_2004': 'EC2_2004', 'ec2_2023': 'EC2_2023', 'mc2010': 'MC2010'}[code]
    return getattr(concrete, 'Concrete' + s), getattr(reinforcement, 'Reinforcement' + s)


def fcd23(fck, gamma_c, t_ref=28, t0=91, ref=40, dev='CN'):
    return EC23.eta_cc(fck, ref) * EC23.k_tc(t_ref, t0, dev.strip().upper()) * fck / gamma_c


def ref_concrete(code, fck, ovr=None, gamma_c=None, alpha_cc=None, kE=9500, dev='CN'):
    """Every property of the object, by name."""
    fck = abs(fck)
    o = dict(ovr or {})
    for k in o:
        if k not in ('k_sargin', 'n_parabolic_rectangular'):
            o[k] = abs(o[k])
    p = {'fck': fck, 'gamma_c': 1.5 if gamma_c is None else gamma_c}

    def put(name, f):
        p[name] = o[name] if name in o else f()

    C = {'ec2_2004': EC2, 'ec2_2023': EC23, 'mc2010': MC}[code]
    put('fcm', lambda: fck + 8)
    put('fctm', lambda: C.fctm(fck))
    if code == 'mc2010':
        put('fctkmin', lambda: 0.7 * p['fctm'])
        put('fctkmax', lambda: 1.3 * p['fctm'])
        put('Eci', lambda: MC.Eci(p['fcm']))
        put('Gf', lambda: MC.Gf(fck))
        put('eps_c1', lambda: MC.eps_c1(fck))
        put('eps_cu1', lambda: MC.eps_clim(fck))
        put('k_sargin', lambda: MC.k_sargin(fck))
        E = p['Eci']
    else:
        put('fctk_5', lambda: 0.7 * p['fctm'])
        put('fctk_95', lambda: 1.3 * p['fctm'])
        put('Ecm', lambda: EC2.Ecm(p['fcm']) if C is EC2 else EC23.Ecm(p['fcm'], kE))
        put('eps_c1', lambda: C.eps_c1(p['fcm']))
        put('eps_cu1', lambda: EC2.eps_cu1(fck) if C is EC2 else EC23.eps_cu1(p['fcm']))
        put('k_sargin', lambda: 1.05 * p['Ecm'] * p['eps_c1'] / p['fcm'])
        E = p['Ecm']
    if C is EC23:
        put('eps_c2', lambda: 0.002)
        put('eps_cu2', lambda: 0.0035)
        put('n_parabolic_rectangular', lambda: 2.0)
        p['fcd()'] = fcd23(fck, p['gamma_c'], dev=dev)
        p['fctd()'] = EC23.k_tt(28, dev.strip().upper()) * p['fctk_5'] / p['gamma_c']
    else:
        put('eps_c2', lambda: EC2.eps_c2(fck))
        put('eps_cu2', lambda: EC2.eps_cu2(fck))
        put('n_parabolic_rectangular', lambda: EC2.n(fck))
        put('eps_c3', lambda: EC2.eps_c3(fck))
        put('eps_cu3', lambda: EC2.eps_cu3(fck))
        p['alpha_cc'] = 1.0 if alpha_cc is None else alpha_cc
        p['fcd()'] = p['alpha_cc'] * fck / p['gamma_c']
    laws = {
        'elastic': ('Elastic', E, None),
        'parabolarectangle': ('ParabolaRectangle', p['fcd()'], p['eps_c2'], p['eps_cu2'], p['n_parabolic_rectangular']),
        'sargin': ('Sargin', p['fcm'], p['eps_c1'], p['eps_cu1'], p['k_sargin']),
        'popovics': ('Popovics', p['fcd()'], abs(p['eps_c1']), p['eps_cu1'], E),
    }
    if 'eps_c3' in p:
        laws['bilinearcompression'] = ('BilinearCompression', p['fcd()'], p['eps_c3'], p['eps_cu3'])
    return p, laws


def ref_steel(code, fyk, Es, ftk, epsuk, gamma_s=None, gamma_eps=None):
    fyk, Es, ftk, epsuk = abs(fyk), abs(Es), abs(ftk), abs(epsuk)
    gs = 1.15 if gamma_s is None else gamma_s
    ge = 0.9 if gamma_eps is None else gamma_eps
    p = {
        'fyk': fyk, 'Es': Es, 'ftk': ftk, 'epsuk': epsuk, 'epsyk': fyk / Es, 'gamma_s': gs,
        'fyd()': fyk / gs, 'ftd()': ftk / gs, 'epsyd': fyk / gs / Es,
        'epsud()': epsuk / gs if code == 'ec2_2023' else ge * epsuk,
    }
    if code != 'ec2_2023':
        p['gamma_eps'] = ge
    fy, ft, eu, ey = p['fyd()'], p['ftd()'], p['epsud()'], p['epsyd']
    laws = {
        'elastic': ('Elastic', Es, None),
        'elasticperfectlyplastic': ('ElasticPlastic', Es, fy, 0.0, eu),
    }
    if eu != ey:
        laws['elasticplastic'] = ('ElasticPlastic', Es, fy, (ft - fy) / (eu - ey), eu)
    return p, laws


def read(obj, name):
    return getattr(obj, name[:-2])() if name.endswith('()') else getattr(obj, name)


def same(a, b, rtol=1e-9):
    """Equality of magnitudes (the sign of a strain property is a convention
    of the code)."""
    try:
        a, b = float(a), float(b)
    except (TypeError, ValueError):
        return False
    return abs(abs(a) - abs(b)) <= rtol * max(abs(a), abs(b), 1e-12)


def law_points(spec, n=7):
    """Strains inside and outside the limits, away from the limits themselves."""
    r = Ref(spec)
    pts = {0.0}
    ks = sorted(k for k in r.allkinks() if abs(k) < 1) or [0.0]
    ks = [min(ks) - 1e-3] + ks + [max(ks) + 1e-3]
    for a, b in zip(ks, ks[1:]):
        for i in range(1, n + 1):
            pts.add(a + (b - a) * i / (n + 1))
    return r, sorted(pts)
