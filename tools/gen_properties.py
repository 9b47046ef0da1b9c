"""Writes /verif/properties.jsonl (run by hand when the list changes)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mechanism, state=(), observe=(), hook=None):
    assert len(title) <= 80, title
    a = {'files': files, 'mechanism': [{'name': n, 'where': w} for n, w in mechanism]}
    if state:
        a['state'] = [{'name': n, 'meaning': m, 'where': w} for n, m, w in state]
    if observe:
        a['observe_at'] = list(observe)
    a['hook_needed'] = hook
    P.append({'id': id, 'title': title, 'statement': statement,
              'quantifier': {'over': over, 'text': text},
              'why_tests_cant': why, 'anchors': a})
R = 'structuralcodes/'
GEN = R + 'sections/_generic.py'
MAR = R + 'sections/section_integrators/_marin_integrator.py'
FIB = R + 'sections/section_integrators/_fiber_integrator.py'
GEO = R + 'geometry/_geometry.py'
RNF = R + 'geometry/_reinforcement.py'
LAW = R + 'materials/constitutive_laws/'
BASE = R + 'core/base.py'

# ---------------------------------------------------------------- histories
prop('S01', 'Section analysis results do not depend on earlier analyses',
 'Every analysis of a section (strengths, axial limits, interaction domains, moment-curvature, strain profiles, stress integration, gross and cracked properties) returns the same result whichever analyses were run on that section before, in whichever order and however often, as it returns on a newly built identical section. This holds for both the Marin and the fibre integrator, and when results handed out earlier are still held by the caller, those results do not change either.',
 ['histories', 'configurations'], 'every sequence of public section-calculator operations up to a depth, on a matrix of sections and integrators',
 'Tests run one or two operations on a freshly built section; order-dependence lives in caches rotated in place (integration data, triangulation, axial limits) that only particular sequences expose.',
 [GEN, FIB, MAR, R+'sections/_rc_utils.py'],
 [('cached triangulated_data / integration_data passed between operations', GEN), ('_rotate_integration_data and its inverse rotation', GEN)],
 [('integration_data', 'cached triangulation or rotated geometry reused across calls', GEN), ('_n_min/_n_max', 'cached limit axial loads', GEN)],
 ['GenericSectionCalculator public methods'])
prop('S02', 'A failed analysis leaves the section and its materials usable',
 'When an analysis raises (an infeasible axial load, an exception raised by a material law, a non-converging search), the section, its geometry and its materials are left in a state in which every later analysis gives exactly the result a newly built identical section gives. An infeasible request is reported by an exception and not by a silently wrong number.',
 ['fault_sequences', 'histories'], 'every point at which a material law evaluation can raise during every analysis, followed by every analysis',
 'No test injects a fault inside an analysis and then continues with the same section.',
 [GEN, FIB, MAR], [('integration data rotated and rotated back around the solution loop', GEN)],
 [('integration_data', 'may be left rotated if the analysis does not complete', GEN)], ['GenericSectionCalculator public methods'])
prop('S03', 'Analyses and transformations never modify what the caller passed in',
 'No library call changes the arrays, lists, geometries, materials or constitutive laws handed to it: evaluating laws, integrating strains, transforming geometries, adding reinforcement, building sections and analysing them leave all inputs with the values and behaviour they had. Consequently the same material, geometry or law object can be shared between sections and sequences of calls without one use influencing another.',
 ['inputs', 'histories'], 'all public operations over all geometry/material/law kinds, array and list inputs, and sharing patterns',
 'Tests inspect returned values only; in-place edits of arguments and of shared sub-objects are invisible to them unless the argument is used again.',
 [BASE, MAR, FIB, GEO, LAW+'_initial_strain.py', LAW+'_parallel.py'], [('preprocess_strains_with_limits', BASE), ('geometry transformations return new objects', GEO)], (), ['public constructors and functions'])
prop('S04', 'Concurrent use of separate sections gives the sequential results',
 'Analyses of different section objects run at the same time in several threads, even when the sections share materials, laws or geometries, give the same results as when they are run one after another. No interleaving of the threads makes one analysis observe an intermediate state of another.',
 ['schedules'], 'all interleavings of 2 threads up to a preemption bound at line granularity in library code',
 'The test suite is single-threaded; a module-level or shared scratch buffer would never be noticed.',
 [GEN, MAR, FIB, R+'core/_marin_integration.py', BASE], [('per-object state only; pure functions elsewhere', GEN)], (), ['GenericSectionCalculator public methods'])

# ---------------------------------------------------------------- analysis
prop('A01', 'Marin integration of a strain state is the exact stress resultant',
 'For any polygonal section (holes and reinforcement included) and any plane strain state, the axial force and the two bending moments returned by the Marin integrator equal the exact area integral of the material stress (and its first moments), with sign conventions N>0 tension, My = integral of sigma*z, Mz = -integral of sigma*y; point reinforcements contribute stress times area, and zero stress outside the law limits. This includes uniform strains, strains parallel to either axis, section edges lying exactly on a limit of the law, and several geometries at once.',
 ['inputs'], 'section shapes x material laws x an exhaustive grid of strain planes with limits placed on and beside vertices/edges',
 'Tests compare a few strain states with loose tolerance; degenerate splits (edge on a limit, neutral axis parallel to an axis, uniform strain) are not enumerated.',
 [MAR, R+'core/_marin_integration.py', GEO], [('split of the polygon at the law strain limits and moment-of-area integration', MAR)], (), ['integrate_strain_response_on_geometry', 'calculate integrate_strain_profile'])
prop('A02', 'Fibre integration conserves the section and converges to the exact value',
 'For any section, mesh size and plane strain state, the fibres used by the fibre integrator cover exactly the area of each surface (first moments included) with no fibre larger than the requested mesh fraction, the resultants are the sums of stress times area over the fibres (points exact), and the result approaches the exact area integral as the mesh is refined. Mesh sizes outside (0, 1] are rejected.',
 ['inputs', 'configurations'], 'section shapes x laws x mesh sizes x strain planes',
 'Tests use one mesh size and compare two integrators with loose tolerance on few sections.',
 [FIB], [('triangulation and fibre sums', FIB)], (), ['integrate_strain_response_on_geometry'])
prop('A03', 'Section tangent stiffness is the derivative of the stress resultants',
 'For both integrators the stiffness matrix returned for a strain state equals the derivative of the stress resultants with respect to axial strain and the two curvatures wherever the laws are differentiable, is symmetric, and is additive over the geometries of the section. The secant-free elastic stiffness at zero strain equals the elastic rigidities of the section.',
 ['inputs'], 'sections x laws x integrators x strain planes (uniform, axis-parallel and skew)',
 'Tests check the tangent in few configurations; sign and cross-term errors in skew bending pass them.',
 [MAR, FIB, R+'core/_marin_integration.py'], [('integrate modulus', MAR)], (), ['integrate_strain_profile(integrate="modulus")'])
prop('A04', 'Analysis results follow the section when it is moved, turned or mirrored',
 'Rotating a section about the origin rotates the results of every analysis by the same angle, mirroring it mirrors them, translating it changes moments only by the axial force times the offset, and re-ordering the geometries or splitting a geometry in pieces changes nothing (up to the tolerance of the equilibrium search). Scaling of units (all lengths or all stresses) scales integrations, domains and gross properties accordingly.',
 ['inputs', 'configurations'], 'sections x group of rotations/mirrors/translations/partitions x analyses',
 'Tests check hand-picked directions of symmetric sections; an error in one quadrant or sign combination is not sampled.',
 [GEN, MAR, FIB, GEO], [('rotation of the section for each neutral axis angle and back-rotation of results', GEN)], (), ['calculate_bending_strength', 'calculate_moment_curvature', 'interaction domains'])
prop('A05', 'Bending strength is an equilibrium state on the failure boundary',
 'For every axial load n inside the limit loads and every neutral-axis angle theta the reported ultimate state (axial strain, curvatures) has the neutral axis inclined as requested with compression on the side the angle designates, its integrated stresses equal n and the reported moments, no point of the section is strained beyond the ultimate strain of its material and at least one point is at it. The state returned is the same for the same request whatever route (single strength, interaction domain) asks for it.',
 ['inputs'], 'sections x integrators x theta over a full turn x axial loads across the feasible range',
 'Tests sample a few sections, angles and loads; which pivot governs and the bracketing branches depend on the combination.',
 [GEN], [('balanced failure, fixed-pivot equilibrium by bisection', GEN)], (), ['calculate_bending_strength'])
prop('A06', 'Limit axial loads are the true extremes and gate every analysis',
 'The minimum and maximum axial loads reported are the resultants of the largest uniform compression and tension the materials allow in which no material exceeds its ultimate strain, and axial loads outside this interval are rejected with ValueError by the analyses that take an axial load, while loads inside it are accepted (loads nearer than 1e-4 relative to a limit are not prescribed). The reported limits bound the axial force of every point of the interaction domains.',
 ['inputs'], 'sections x integrators x material combinations x axial loads around both limits',
 'Tests check the limits on a couple of sections with one material ranking.',
 [GEN], [('calculate_limit_axial_load, check_axial_load', GEN)], (), ['calculate_limit_axial_load', 'check_axial_load'])
prop('A07', 'Every moment-curvature point is in equilibrium with the requested axial load',
 'Each returned point of a moment-curvature analysis satisfies equilibrium with the requested axial load and its moments equal the integrated stresses of its strain state; curvatures are those requested (or start near zero and increase to the ultimate curvature given by the bending strength for the same load and angle when not given), all arrays have the same length and the direction of curvature matches theta. Where an equilibrium without failed material exists for a curvature it is the one returned, so that a curve up to the ultimate curvature ends in the state of the bending strength. User options (number of points before and after yielding, explicit curvature list, spacing type) are honoured exactly.',
 ['inputs'], 'sections x integrators x theta x axial loads x option combinations',
 'Tests check shapes or single values for few options.',
 [GEN], [('find_equilibrium_fixed_curvature, yield curvature search', GEN)], (), ['calculate_moment_curvature'])
prop('A08', 'Interaction domains consist of valid ultimate states of the section',
 'Every point of the N-M, N-M-M and M-M domains pairs a strain state with exactly the forces that state produces, lies at the failure boundary (some point at its ultimate strain, none beyond), carries the requested neutral-axis angle, and the domain has the requested number of points with correct field numbers (1 to 6, non-decreasing from tension to compression, field 6 of reinforced concrete turning about the point where the concrete reaches its peak strain). M-M points have the requested axial load and equal the bending strengths for the same angles, and the complete N-M domain is the union of the domains for theta and theta+pi.',
 ['inputs', 'configurations'], 'sections x integrators x theta x numbers of points x discretisation options',
 'Tests mostly check that domains can be computed and compare a few points.',
 [GEN, R+'core/_section_results.py'], [('_compute_ultimate_strain_profiles', GEN)], (), ['calculate_nm_interaction_domain', 'calculate_nmm_interaction_domain', 'calculate_mm_interaction_domain'])
prop('A09', 'The strain profile found for given forces reproduces those forces',
 'Whenever a strain profile is returned for requested (n, my, mz), integrating it gives these forces within the requested tolerance, with either tangent or initial stiffness; if the requested forces cannot be balanced within the iteration limit an exception is raised instead of returning a profile. For linear elastic materials the result is the exact linear solution.',
 ['inputs'], 'sections x integrators x grid of forces inside and outside the domain x solver options',
 'Tests check few load combinations and one failure.',
 [GEN], [('calculate_strain_profile Newton iteration', GEN)], (), ['calculate_strain_profile'])
prop('A10', 'Gross section properties equal the geometric and material integrals',
 'For any composition of surfaces (with holes, disjoint or mirrored, any orientation of vertices) and point reinforcements, area, reinforcement area, mass, perimeter (outer boundary of a connected section), first and second moments about origin and centroid, principal moments and angle, and the elastic rigidities equal their defining integrals. Principal moments satisfy the transformation law at the reported angle. Two records of properties are close exactly when every property is within the tolerances, and a record prints every property with its own value.',
 ['inputs'], 'section compositions x transforms x materials',
 'Tests use symmetric sections where sign and axis mix-ups cancel.',
 [GEN, R+'core/_section_results.py'], [('_calculate_gross_section_properties', GEN)], (), ['gross_properties'])
prop('A11', 'Cracked elastic properties are those of the cracked linear section',
 'The cracked properties of a reinforced concrete section for a bending direction are the elastic properties of the section made of the concrete in compression and all reinforcement, with a neutral axis through which the transformed first moment balances (zero axial force). They are consistent under rotation of the section together with the direction, and do not change the section.',
 ['inputs'], 'rc sections x bending angles x reinforcement layouts',
 'Tests check two angles of rectangular sections.',
 [R+'sections/_rc_utils.py'], [('calculate_elastic_cracked_properties', R+'sections/_rc_utils.py')], (), ['calculate_elastic_cracked_properties'])

# ---------------------------------------------------------------- geometry
prop('G01', 'Translate, rotate and mirror are exact isometries keeping all attributes',
 'Translating, rotating and mirroring any geometry (point, surface, compound) gives a new geometry of the same kind whose points are the exact images, with material, density, names, group labels, point diameters and concrete/reinforcement classification preserved and the original unchanged; inverse transformations restore the original and compositions combine as in the Euclidean group.',
 ['histories', 'inputs'], 'every sequence of transformations up to a depth on every kind of geometry',
 'Tests check one transformation at a time on few attributes.',
 [GEO], [('translate/rotate/mirror', GEO)], (), ['translate', 'rotate', 'mirror_x', 'mirror_y', 'mirror'])
prop('G02', 'Combining, subtracting and splitting geometries conserves area and material',
 'Adding geometries keeps every part once and in order, subtracting removes exactly the overlapped area and keeps material and names, splitting with one line yields polygons above and below that partition the surface, and splitting with two lines returns exactly the part between them, for any line direction and position including lines touching vertices and edges.',
 ['inputs', 'histories'], 'surfaces x cutting lines from a grid including degenerate positions x operation sequences',
 'Tests split a few shapes with a few lines.',
 [GEO], [('split, split_two_lines, __add__, __sub__', GEO)], (), ['SurfaceGeometry.split', 'split_two_lines', '__add__', '__sub__', 'from_geometry'])
prop('G03', 'Reinforcement is placed exactly where and as often as requested',
 'Adding reinforcement as single bars, along a line or along a circle arc creates bars with the requested diameter, material and group label at exactly the requested, equally spaced positions (first/last options honoured, never two bars at the same place on a closed circle) while leaving the original geometry untouched and keeping all of its parts.',
 ['inputs', 'histories'], 'all combinations of counts, spacings, first/last flags, angles and sequences of additions',
 'Tests cover a few combinations of n, s, first and last.',
 [RNF], [('add_reinforcement*, spacing arithmetic', RNF)], (), ['add_reinforcement', 'add_reinforcement_line', 'add_reinforcement_circle'])
prop('G04', 'Geometry constructors describe the requested shape or refuse it',
 'Rectangular, circular, polygonal, point and compound geometries have exactly the requested dimensions, centroid, area, density and classification (a compound is reinforced concrete exactly when it contains a concrete surface; a circle is the inscribed regular polygon); invalid inputs (non-positive dimensions, wrong types) are rejected. Deriving a geometry from another keeps everything except what was explicitly changed.',
 ['inputs'], 'constructor argument combinations over valid, boundary and invalid values',
 'Tests cover typical dimensions and some invalid values.',
 [GEO, R+'geometry/_rectangular.py', R+'geometry/_circular.py'], [('constructors', GEO)], (), ['PointGeometry', 'SurfaceGeometry', 'CompoundGeometry', 'RectangularGeometry', 'CircularGeometry'])
prop('G05', 'Every catalogue steel profile is geometrically consistent',
 'For every profile in every catalogue the polygon has the tabulated outer dimensions and thicknesses, its area and second moments (also principal ones) and elastic and plastic moduli equal the integrals over that polygon, and all of these values and the polygon are the same whichever property is read first and however often. Unknown names are rejected.',
 ['inputs', 'histories'], 'all catalogue profiles x orders of property access',
 'Tests compare with tables at 2 percent, in one order of access.',
 [R+'geometry/profiles/_base_profile.py', R+'geometry/profiles/_common_functions.py'], [('lazy properties', R+'geometry/profiles/_base_profile.py')], (), ['profile classes'])

# ---------------------------------------------------------------- laws
prop('L01', 'Each constitutive law returns the stress its definition prescribes',
 'For every strain, constitutive laws (elastic, elastic-plastic, parabola-rectangle, bilinear compression, Sargin, Popovics, user defined) return the stress given by their documented definition, including at and beyond every branch point, and give zero (or the documented extension) outside the ultimate strains. Scalars, lists and arrays of any shape give the same values element by element.',
 ['inputs'], 'laws x parameter grid x strain grid containing every branch point and its neighbours, as scalar, list, int and array inputs',
 'Tests check a handful of strains per law.',
 [LAW+'_elastic.py', LAW+'_elasticplastic.py', LAW+'_parabolarectangle.py', LAW+'_bilinearcompression.py', LAW+'_sargin.py', LAW+'_popovics.py', LAW+'_userdefined.py', BASE], [('get_stress', LAW), ('preprocess_strains_with_limits', BASE)], (), ['get_stress'])
prop('L02', 'Tangent and secant moduli are consistent with the stress curve',
 'The tangent modulus of every law is the derivative of its stress wherever that exists (and one of the one-sided derivatives at a kink inside the limits), is zero where the stress is cut off, and the secant modulus is stress over strain with the initial tangent at zero strain. Scalar and array evaluation agree element by element.',
 ['inputs'], 'laws x parameters x strain grid with branch points', 'Tests check few strains and rarely the array/scalar agreement at branch points.',
 [LAW, BASE], [('get_tangent, get_secant', BASE)], (), ['get_tangent', 'get_secant'])
prop('L03', 'Ultimate and yield strains bound exactly the admissible range',
 'The ultimate strains reported by a law (ordered compression, tension) are exactly the limits given to it and those up to which a law that cuts off carries stress, the yielding option gives the strains at which the plastic branch starts, and user-set ultimate strains (none, one value, two values in any order) are honoured or rejected as documented. Values just inside the limits are evaluated on the curve and values just outside are not.',
 ['inputs'], 'laws x ultimate-strain specifications x strains around limits', 'Tests check default limits only for some laws.',
 [LAW, BASE], [('get_ultimate_strain, set_ultimate_strain', BASE)], (), ['get_ultimate_strain', 'set_ultimate_strain'])
prop('L04', 'The polynomial form of each law reproduces its stress and tangent',
 'For every law and every linear strain distribution eps0 + eps1*z, the piecewise polynomial coefficients and strain limits a law supplies for sectional integration reproduce the stress (and the tangent modulus) of the law at every z (laws without a polynomial form: within their discretisation into linear pieces), cover the whole admissible strain range without gaps or overlaps, and give no stress outside. This includes zero gradient and negative gradients.',
 ['inputs'], 'laws (including wrapped and discretised ones) x strain planes x z grid', 'Tests compare coefficients for a few strain planes.',
 [LAW, BASE], [('__marin__, __marin_tangent__', LAW)], (), ['law polynomial interface used by the Marin integrator'])
prop('L05', 'Wrapped and combined laws behave as the algebra of their components',
 'A law with an initial strain behaves as the base law shifted by that strain (limits shifted likewise when strain compatibility is kept, constant stress when it is not), and a parallel law is the weighted sum of its components, each within its own limits, with limits spanning those of all components; nesting them composes, the components are not modified and both integrators see the same behaviour.',
 ['inputs', 'programs'], 'all nestings of wrappers up to depth 3 over base laws x strains', 'Tests exercise single wrappers at few strains.',
 [LAW+'_initial_strain.py', LAW+'_parallel.py'], [('InitialStrain, Parallel', LAW)], (), ['InitialStrain', 'Parallel'])
prop('L06', 'Materials with initial strain or stress carry exactly that preload',
 'A material created with an initial stress carries that stress at zero applied strain and one created with an initial strain carries the stress of the base law at that strain, with strain compatibility as chosen; at most one may be given, an initial stress the law cannot reach is rejected, and materials without them behave as the plain law. This holds for every material type and code, and creating a material never changes a law object the user passed in.',
 ['inputs'], 'material kinds x laws x initial strain/stress grid x strain compatibility', 'Tests use few stress levels for few materials.',
 [BASE, R+'materials'], [('_apply_initial_strain, _initial_strain_from_stress', BASE)], (), ['create_concrete', 'create_reinforcement', 'material classes'])

# ---------------------------------------------------------------- materials
prop('M01', 'Concrete derives every property from its code or the value given',
 'For each design code, every derived property of a concrete equals the code formula evaluated with the values in force for that object (values given by the user take precedence, at most with a warning, and propagate to the properties derived from them as documented), independent of the order in which properties are read; invalid values are rejected. The automatically created constitutive law matches these properties.',
 ['inputs', 'histories'], 'codes x fck grid x subsets of overrides x read orders x law names', 'Tests read properties one by one for a few strengths.',
 [R+'materials/concrete/_concreteEC2_2004.py', R+'materials/concrete/_concreteEC2_2023.py', R+'materials/concrete/_concreteMC2010.py', R+'materials/concrete/_concrete.py'], [('lazy properties with overrides', R+'materials/concrete')], (), ['ConcreteEC2_2004', 'ConcreteEC2_2023', 'ConcreteMC2010'])
prop('M02', 'Reinforcement derives its design values from its characteristic ones',
 'For each design code, design yield strength, design tensile strength and design strains of a reinforcement are the code formulas of the given characteristic values and safety factor, and the automatically created law (elastic, perfectly plastic, hardening) has exactly these stresses at yield and ultimate; invalid values are rejected.',
 ['inputs'], 'codes x strengths x factors x law names', 'Tests use one or two steels.',
 [R+'materials/reinforcement'], [('properties and law presets', R+'materials/reinforcement')], (), ['ReinforcementEC2_2004', 'ReinforcementEC2_2023', 'ReinforcementMC2010'])
prop('M03', 'Factories and the design-code registry select what was asked for',
 'After any sequence of setting design codes and creating materials, the active code is the one last set, materials created without an explicit code belong to the active code, materials created with an explicit code belong to that code, and unknown codes, laws or missing active code raise ValueError without changing anything. Every registered law and material name creates the corresponding type, incompatible materials are rejected, and names given to laws and materials are kept.',
 ['histories', 'inputs'], 'all sequences of registry and factory operations up to a depth', 'Tests set one code per test.',
 [R+'codes/__init__.py', R+'materials/concrete/__init__.py', R+'materials/reinforcement/__init__.py', LAW+'__init__.py', R+'sections/section_integrators/_factory.py'], [('_use_design_code, factories', R+'codes/__init__.py')],
 [('_CODE', 'active design code', R+'codes/__init__.py'), ('_NATIONAL_ANNEX', 'active national annex', R+'codes/__init__.py')], ['set_design_code', 'create_concrete', 'create_reinforcement'])

# ---------------------------------------------------------------- codes
def code(id, title, st, files, what):
    prop(id, title, st, ['inputs'], what, 'Tests evaluate sampled inputs from tables; branch thresholds, combinations of switches and out-of-range values between samples are not settled.',
         files, [('formula functions', files[0])], (), ['public functions of the module'])
E4 = R+'codes/ec2_2004/'; E23 = R+'codes/ec2_2023/'; M10 = R+'codes/mc2010/'
code('C01', 'EN 1992-1-1:2004 concrete and steel property formulas',
 'For all admissible strengths, ages, cement classes, partial factors and ductility classes, the EN 1992-1-1:2004 concrete and reinforcement property functions equal the formulas and tables of the standard on both sides of every threshold (fck 50, fctm branch, strength classes); times given as a scalar, list or array give the same values; a compressive strength given as a negative number counts by its magnitude, and inadmissible input raises ValueError.',
 [E4+'_concrete_material_properties.py', E4+'_reinforcement_material_properties.py'], 'argument grids containing every threshold and its neighbours')
code('C02', 'EN 1992-1-1:2004 creep and shrinkage formulas',
 'Creep coefficients, their time development, and drying and autogenous shrinkage equal the Annex B / section 3.1.4 formulas for every combination of strength, humidity, notional size, cement class, loading age and time, on both sides of fcm 35, age and size thresholds; times given as a scalar, list or array give the same values; they start at zero, never decrease with time and approach their final value.',
 [E4+'_concrete_creep_and_shrinkage.py'], 'argument grids containing every threshold and its neighbours')
code('C03', 'EN 1992-1-1:2004 crack control formulas',
 'Crack width, minimum reinforcement, maximum bar diameters and spacing, effective area and mean strain functions equal sections 7.3.1-7.3.4 (and Annex restraint formulas) for every combination of inputs, including interpolation of tables, bounds (0.6 sigma/Es, spacing limits, h* factors) and exposure classes (XD and XS: decompression under the frequent combination); inadmissible input raises ValueError.',
 [E4+'_section_7_3_crack_control.py', E4+'_cracking_restraint_imposed_deformations.py'], 'argument grids containing every threshold and its neighbours')
code('C04', 'EN 1992-1-1:2004 shear formulas',
 'Shear resistance functions (without and with shear reinforcement, inclined stirrups, compression strut with and without prestress, required reinforcement, detailing) equal section 6.2 for every combination of inputs on both sides of every cap (k=2, rho=0.02, sigma_cp=0.2fcd, cot theta limits, alpha_cw branches), and inadmissible input is rejected as documented.',
 [E4+'shear.py'], 'argument grids containing every threshold and its neighbours')
code('C05', 'EN 1992-1-1:2023 material formulas',
 'The EN 1992-1-1:2023 concrete, reinforcing and prestressing steel functions (strengths, moduli, strains, curing, creep and shrinkage basics, stress-strain relations, ductility tables, Annex B time development) equal the standard for every admissible input on both sides of each threshold; inadmissible input raises ValueError.',
 [E23+'_section5_materials.py', E23+'_annexB_time_dependent.py'], 'argument grids containing every threshold and its neighbours')
code('C06', 'EN 1992-1-1:2023 serviceability formulas',
 'Crack width, minimum reinforcement, tension stiffening, effective area, deflection-related and crack spacing functions of EN 1992-1-1:2023 section 9 equal the standard for every combination of inputs, including both load types, all bounds and exposure conditions.',
 [E23+'_section9_sls.py'], 'argument grids containing every threshold and its neighbours')
code('C07', 'Model Code 2010 concrete and steel property formulas',
 'Model Code 2010 concrete and reinforcement property functions (mean and characteristic strengths, fracture energy, strains, moduli with aggregate and age effects, time development, design values) equal the code for every admissible strength, aggregate, cement class and age on both sides of every threshold; times given as a scalar, list or array give the same values; a compressive strength given as a negative number counts by its magnitude where the code takes the magnitude; inadmissible input raises an exception.',
 [M10+'_concrete_material_properties.py', M10+'_reinforcement_material_properties.py'], 'argument grids containing every threshold and its neighbours')
code('C08', 'Model Code 2010 creep and shrinkage formulas',
 'Model Code 2010 basic and drying creep, shrinkage and compliance functions equal the code for every combination of strength, humidity, notional size, cement class, temperature history and time; development functions start at zero, never decrease with time and approach their limit, times given as a scalar, list or array give the same values, and validity limits produce the documented warning or error.',
 [M10+'_concrete_creep_and_shrinkage.py'], 'argument grids containing every threshold and its neighbours')
code('C09', 'Model Code 2010 shear, torsion and interface shear formulas',
 'Shear resistance at every level of approximation, torsion resistance and interface shear functions of Model Code 2010 equal the code for every combination of level, strength, strain, angle, aggregate size and reinforcement, on both sides of each threshold, and design values use each partial factor exactly once; unknown levels of approximation raise ValueError.',
 [M10+'_concrete_shear.py', M10+'_concrete_torsion.py', M10+'_concrete_interface_different_casting_times.py'], 'argument grids containing every threshold and its neighbours')
code('C10', 'Model Code 2010 punching formulas',
 'Punching resistance, rotations at all levels of approximation, control perimeters, eccentricity and shear-reinforcement contributions equal Model Code 2010 for every combination of column position, level and load, on both sides of each threshold, and invalid options are rejected.',
 [M10+'_concrete_punching.py'], 'argument grids containing every threshold and its neighbours')
code('C11', 'Model Code 2010 bond formulas',
 'Bond coefficient, bond and splitting strengths, confinement coefficient, characteristic slips of the bond law, steel stress and yield bond stress equal Model Code 2010 section 6.1 for every combination of bond condition, failure mode, confinement, cover and bar size, with a warning exactly outside the validity range, and invalid options raise ValueError whatever their letter case or type.',
 [M10+'_interface_concrete_steel_rebar.py'], 'argument grids containing every threshold and its neighbours')
out = os.path.join(os.path.dirname(__file__), '..', 'properties.jsonl')
with open(out, 'w') as f:
    for p in P:
        f.write(json.dumps(p) + '\n')
print(len(P))
