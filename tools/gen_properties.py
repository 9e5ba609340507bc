"""Writes /verif/properties.jsonl (the single source of the property list)."""
import json, os
S = 'structuralcodes/'
P = []


def add(id, title, statement, over, text, why, files, mech, state=None, observe=None):
    anchors = {'files': [S + f for f in files],
               'mechanism': [{'name': n, 'where': w} for n, w in mech],
               'hook_needed': 'none'}
    if state:
        anchors['state'] = [{'name': x, 'meaning': x, 'where': S} for x in state]
    if observe:
        anchors['observe_at'] = observe
    P.append({'id': id, 'title': title, 'statement': statement,
              'quantifier': {'over': over, 'text': text},
              'why_tests_cant': why, 'anchors': anchors})


CL = 'materials/constitutive_laws/'
LAWS = [CL + f for f in ('_elastic.py', '_elasticplastic.py', '_parabolarectangle.py',
                         '_bilinearcompression.py', '_sargin.py', '_popovics.py', '_userdefined.py')]

add('L01', 'Constitutive laws give the documented stress at every strain',
    'For every law (Elastic, ElasticPlastic, ParabolaRectangle, BilinearCompression, Sargin, Popovics, UserDefined with every end flag) and any valid parameters, get_stress returns the stress of the documented formula of the branch the strain lies in. '
    'The stress is zero beyond the ultimate strain of laws that have one (a strain equal to the limit, or within round-off of it, still carries stress), and compression-only laws carry no tension. '
    'UserDefined interpolates its points (reflected when only one side is given) and, outside them, follows flag 0-3 (zero, constant, last tangent, last secant, up to 100 times the last strain); '
    'arguments can be given by position or keyword, and omitted ones take the documented defaults.',
    ['inputs'], 'all law parameters (signs of concrete arguments irrelevant) and all strains, including strains at and next to branch limits',
    'the formula has to hold on a continuum of strains and parameters; tests sample a few parameter sets',
    LAWS + ['core/base.py'], [('get_stress of each law', S + CL), ('preprocess_strains_with_limits', S + 'core/base.py')])

add('L02', 'Tangent and secant moduli are consistent with the stress',
    'For every constitutive law, away from branch limits, get_tangent(eps) is the derivative of get_stress at eps; at a branch limit it is one of the two one-sided derivatives. '
    'get_secant(eps)*eps equals get_stress(eps) for every non-zero strain, and get_secant(0) equals get_tangent(0).',
    ['inputs'], 'all laws incl. Parallel and compatible InitialStrain wrappers, all strains',
    'derivative relation over a continuum; a wrong branch bound or coefficient only shows for particular parameters',
    LAWS + [CL + '_parallel.py', CL + '_initial_strain.py', 'core/base.py'],
    [('get_tangent', S + CL), ('get_secant', S + 'core/base.py')])

add('L03', 'Laws answer scalars and arrays alike and never modify their input',
    'get_stress, get_tangent and get_secant give for an array (float or integer, list or ndarray, any order, duplicates allowed) the element-wise scalar answers. '
    'They leave the array, list or strain profile passed by the caller unchanged, and repeating a call gives the same answer.',
    ['inputs', 'histories'], 'all laws, all arrays of strains incl. values at ultimate limits and at zero, repeated calls',
    'scalar and array paths are separate code; aliasing shows only for particular values in an array',
    LAWS + [CL + '_parallel.py', CL + '_initial_strain.py', 'core/base.py'],
    [('scalar/array branches', S + CL), ('preprocess_strains_with_limits', S + 'core/base.py')])

add('L04', 'Composite laws are exact compositions of the laws they wrap',
    'Parallel gives the weighted sum of the wrapped stresses and tangents, InitialStrain gives the wrapped law at the shifted strain, and (with strain_compatibility False) a stress that stays at the initial stress whatever the strain. '
    'Their ultimate and yield strain limits follow from the wrapped ones: envelope for Parallel, limits minus the initial strain for InitialStrain. '
    'Nesting composes.',
    ['inputs'], 'any list of laws with weights, any initial strain, nesting to depth 3, all strains',
    'compositions are combinatorial; tests exercise a few pairs',
    [CL + '_parallel.py', CL + '_initial_strain.py'], [('Parallel', S + CL + '_parallel.py'), ('InitialStrain', S + CL + '_initial_strain.py')])

add('L05', 'Marin coefficients represent the same law as get_stress/get_tangent',
    'For every law and strain profile eps = e0 + chi*z, the piecewise polynomials returned by __marin__ and __marin_tangent__ evaluate, at every z inside the law\'s strain limits, to get_stress and get_tangent at that strain (exactly for piecewise-polynomial laws, within the error of a ten-segment linearisation for Sargin, Popovics and ParabolaRectangle with n != 2). '
    'The strain ranges returned do not overlap and cover all strains with non-zero stress, and a profile with chi = 0 gives the stress and tangent at that strain.',
    ['inputs'], 'all laws incl. Parallel/InitialStrain compositions, all profiles with positive, zero and negative curvature',
    'two independent encodings of each law must agree everywhere on a continuum',
    LAWS + [CL + '_parallel.py', CL + '_initial_strain.py', 'core/base.py'],
    [('__marin__ / __marin_tangent__', S + CL), ('_discretize_law', S + 'core/base.py')])

add('L06', 'Ultimate and yield strain limits bound the usable strain range',
    'get_ultimate_strain() returns (negative, positive) limits: the documented ones for each law, with yield limits no wider than ultimate ones where the law distinguishes them (yielding=True). '
    'User-set ultimate strains (a number or a pair in any order, for Elastic and UserDefined) are returned with proper signs and order; a pair whose limits are both positive or both negative is rejected with ValueError, as is any invalid law argument the documentation lists.',
    ['inputs'], 'all laws and parameters, all eps_u arguments',
    'argument order/sign/None combinations are many',
    LAWS, [('get_ultimate_strain', S + CL), ('_set_ultimate_strain', S + CL)])

add('N01', 'Polygon area moments are exact',
    'marin_integration(y, z, m, n) equals the integral of y^m z^n over the polygon for every simple closed polygon (convex or not, any position) and non-negative integers m, n. '
    'It changes sign with the vertex orientation, does not depend on the start vertex and adds up over a cut of the polygon.',
    ['inputs'], 'all simple polygons, all orders up to m+n = 8', 'integral identity over all polygons and orders',
    ['core/_marin_integration.py'], [('marin_integration', S + 'core/_marin_integration.py')])

add('N02', 'Marin integration returns the true stress resultants',
    'For any section (polygons with holes, several materials, overlapping bars, any position relative to the origin) and any strain plane, N, My and Mz from the Marin integrator are the integrals of sigma, sigma*z and -sigma*y over surfaces plus the bar forces, where strain is ea + ky*z - kz*y. '
    'The result is exact for piecewise-polynomial laws and within the linearisation error for the others, whatever the orientation of the plane, including uniform strain.',
    ['inputs'], 'all geometries x laws x strain planes (uniform, uniaxial, biaxial, limits inside/outside the section)',
    'agreement with an independent integral over a continuum of shapes and planes',
    ['sections/section_integrators/_marin_integrator.py', 'sections/_generic.py', 'geometry/_geometry.py', 'core/_marin_integration.py'],
    [('MarinIntegrator', S + 'sections/section_integrators/_marin_integrator.py'), ('split_two_lines', S + 'geometry/_geometry.py')])

add('N03', 'Fibre integration partitions the section and agrees with the exact integral',
    'For any section and any admissible mesh_size, the fibre integrator partitions each surface: fibre areas add up to the net area (holes excluded), fibre centroids lie inside the material, and no fibre is larger than mesh_size times the surface area; bars are one fibre each. '
    'Its stress resultants and stiffness are the sums over fibres, match the exact integrals to within the mesh error (exactly N and first moments for linear laws), and mesh_size outside (0, 1] is rejected with ValueError.',
    ['inputs'], 'all geometries with (possibly non-convex) holes, coordinates of any scale, all mesh sizes, all strain planes',
    'meshing depends on geometry in ways a few tests cannot cover',
    ['sections/section_integrators/_fiber_integrator.py', 'sections/_generic.py'],
    [('FiberIntegrator.triangulate', S + 'sections/section_integrators/_fiber_integrator.py')])

add('N04', 'Tangent section stiffness is the Jacobian of the stress resultants',
    'For any section and strain plane, integrate_strain_profile(..., integrate="modulus") returns the symmetric 3x3 matrix of the integrals of the tangent modulus times 1, z, -y and their products. Where no stress of a surface jumps inside the section and no bar is at a branch limit, it is the derivative of (N, My, Mz) with respect to (ea, ky, kz). '
    'For elastic sections it reproduces the resultants exactly (K @ strain), for both integrators.',
    ['inputs'], 'all sections, laws, strain planes and both integrators', 'derivative identity over a continuum',
    ['sections/section_integrators/_marin_integrator.py', 'sections/section_integrators/_fiber_integrator.py'],
    [('integrate_modulus', S + 'sections/section_integrators/')])

add('S01', 'Gross section properties are the exact integrals',
    'gross_properties reports, for any geometry, area, reinforcement area, E-weighted area (each material weighted with its constitutive law\'s modulus at zero strain), mass, outer perimeter, first moments, centroid, second moments about the origin and about the centroid, and principal moments and direction equal to independently computed integrals over the surfaces and bars. '
    'i11 >= i22, they are the eigenvalues of the centroidal inertia tensor and theta is the inclination of the axis that belongs to i11 (same for the E-weighted values).',
    ['inputs'], 'all geometries (holes, several materials, bars, any position and orientation)', 'integral identities for all shapes',
    ['sections/_generic.py', 'core/_section_results.py'], [('_calculate_gross_section_properties', S + 'sections/_generic.py')])

add('S02', 'Limit axial loads are the resultants of the limit uniform strains',
    'n_min and n_max of the section calculator (calculate_limit_axial_load) equal the axial force under the uniform compression and tension strain at which the first material fails, n_min <= n_max, and the returned strains are those limits. '
    'calculate_bending_strength, calculate_moment_curvature and calculate_mm_interaction_domain reject an axial load clearly outside [n_min, n_max] with ValueError and accept loads inside (a load within about 0.1 % of a limit may also be given up with ValueError); the limits do not depend on the order of calls. '
    'Bars and surfaces are taken to have laws with ultimate strains that agree on which one governs, as concrete sections with bars, steel sections and single-material sections do.',
    ['inputs', 'histories'], 'all sections and axial loads', 'the admissible range must be right for every section and load',
    ['sections/_generic.py'], [('calculate_limit_axial_load / _check_axial_load', S + 'sections/_generic.py')])

add('S03', 'Bending strength is a true ultimate state in equilibrium',
    'For any section, inclination theta and admissible axial load n, calculate_bending_strength returns a strain plane whose integrated axial force is n (to the solver tolerance) and whose integrated moments are the reported m_y and m_z. '
    'The neutral axis has inclination theta and the curvature stretches the bottom fibre of the rotated section; for reinforced concrete, steel and single-material sections no material point exceeds its ultimate strain and at least one reaches it. '
    'For any other section the answer is in equilibrium, or the calculation raises ValueError; a strain plane out of equilibrium is never returned.',
    ['inputs'], 'all reinforced/steel sections x theta x n, both integrators', 'solver correctness for every section and load',
    ['sections/_generic.py'], [('calculate_bending_strength', S + 'sections/_generic.py'), ('find_equilibrium_fixed_pivot', S + 'sections/_generic.py'), ('get_balanced_failure_strain', S + 'sections/_generic.py')])

add('S04', 'Results follow rigid motions of the section',
    'Rotating the geometry by an angle and theta with it rotates the strength, domain and moment-curvature results; shifting the geometry leaves curvatures and failure state unchanged and changes moments by n times the shift; mirroring mirrors the results. '
    'Integrated stress resultants transform as a force and a moment vector under the same motions.',
    ['inputs'], 'all sections, motions, theta and n', 'metamorphic relation over continuous groups',
    ['sections/_generic.py', 'geometry/_geometry.py', 'sections/section_integrators/'],
    [('rotate / translate', S + 'geometry/_geometry.py'), ('_rotate_triangulated_data', S + 'sections/_generic.py')])

add('S05', 'Results scale with the chosen units',
    'Geometry, laws and section calculators are unitless: expressing lengths or stresses in other consistent units scales areas, section properties, stress resultants, limit loads, bending strength and domains by the corresponding powers and leaves strains unchanged. '
    'Equilibrium is accepted to 0.01 units of force, so units in which 0.01 is not small against the forces, or is below double precision, are outside.',
    ['inputs'], 'all sections and power-of-ten unit changes (within which the absolute solver tolerance stays negligible)', 'relation between whole runs',
    ['sections/_generic.py', 'geometry/_geometry.py', 'geometry/_reinforcement.py'], [('section calculator', S + 'sections/_generic.py')])

add('S06', 'Every point of a moment-curvature result is in equilibrium',
    'For any section, theta and admissible n, each point of calculate_moment_curvature has an axial force equal to n and the reported moments when its strain plane (eps_axial, chi_y, chi_z) is integrated, with the curvature vector inclined by theta. '
    'Default curvatures increase in magnitude from near zero to the ultimate curvature of calculate_bending_strength, with the requested numbers of points before and after yield; curvatures given by the caller are used as given and in order. '
    'Next to a limit load or to the ultimate curvature the search may end with ValueError instead; it never reports a point out of equilibrium, and the yield point is that of the first bar or fibre to yield, for reinforced concrete and steel sections without prestress.',
    ['inputs', 'histories'], 'all sections x theta x n x discretisation arguments, both integrators', 'solver correctness at each step of each curve',
    ['sections/_generic.py', 'core/_section_results.py'], [('calculate_moment_curvature', S + 'sections/_generic.py'), ('find_equilibrium_fixed_curvature', S + 'sections/_generic.py')])

add('S07', 'N-M domain points are ultimate states of the section',
    'Every point of calculate_nm_interaction_domain is the integral of its reported strain plane, and that plane is an ultimate one: some material point is at its ultimate strain and none is beyond it. '
    'The number of points and their field numbers follow the discretisation arguments, the points run from pure tension to pure compression, complete_domain adds the opposite bending direction (for section types with fields on that side), and for an axial load of the domain calculate_bending_strength gives the same moment.',
    ['inputs'], 'all sections x theta x discretisation, both integrators', 'each point of each domain must be a valid ultimate state',
    ['sections/_generic.py', 'core/_section_results.py'], [('calculate_nm_interaction_domain / _compute_ultimate_strain_profiles', S + 'sections/_generic.py')])

add('S08', 'N-My-Mz and My-Mz domains agree with the single-axis results',
    'calculate_nmm_interaction_domain consists, for theta in linspace(0, 2*pi, num_theta), of the points of calculate_nm_interaction_domain at that theta, with one force, strain and field number per point; calculate_mm_interaction_domain consists of the bending strengths at the given n for each theta, all at that axial force.',
    ['inputs'], 'all sections, num_theta, discretisations, axial loads', 'agreement of independent computations',
    ['sections/_generic.py', 'core/_section_results.py'], [('calculate_nmm_interaction_domain', S + 'sections/_generic.py'), ('calculate_mm_interaction_domain', S + 'sections/_generic.py')])

add('S09', 'calculate_strain_profile inverts integrate_strain_profile',
    'For loads (N, My, Mz) that the section can carry within the stable range of its laws, calculate_strain_profile either returns a strain plane whose integrated resultants are those loads to the tolerance (on the last strain increment), or raises; it never returns a plane that has not converged. '
    'For linear elastic sections it always succeeds and returns the unique plane, for both the initial-stiffness and tangent iterations.',
    ['inputs'], 'all sections, load triples, solver options, both integrators', 'inverse relation over a continuum',
    ['sections/_generic.py'], [('calculate_strain_profile', S + 'sections/_generic.py')])

add('S10', 'Elastic cracked properties are those of the cracked section',
    'calculate_elastic_cracked_properties returns, for a reinforced section and theta, the gross properties of the section made of the elastic compressed concrete and all bars, where the uncracked part is exactly the concrete on the compressed side of the neutral axis of pure bending (all surfaces being concrete; None without concrete). '
    'The neutral axis passes through the E-weighted centroid of the cracked section; with return_cracked_section the returned section has these properties.',
    ['inputs'], 'all reinforced sections and theta', 'root-finding result for every section',
    ['sections/_rc_utils.py'], [('calculate_elastic_cracked_properties', S + 'sections/_rc_utils.py')])

add('S11', 'Sections of code materials behave like sections of their laws',
    'A section built in the ways the documentation shows - concrete and reinforcement of any design code (made by class or factory, with any parameters, partial factors, density, constitutive law and initial strain), in rectangles, circles, polygons, cut geometries or rolled profiles, with bars placed one by one, in lines or circles, then rotated and translated - gives the gross properties, limit loads, bending strengths, moment-curvature relations, interaction domains, strain profiles and cracked properties of the polygon, bars and design stress-strain laws that these inputs stand for.',
    ['inputs'], 'all codes, parameters, geometries and orders of construction', 'the examples of the tests use few materials and shapes; an error in how parts are passed on shows only in combinations',
    ['materials/', 'geometry/', 'sections/_generic.py'], [('factories', S + 'materials/concrete/__init__.py'), ('geometries', S + 'geometry/_geometry.py'), ('GenericSection', S + 'sections/_generic.py')])

add('S12', 'Section calculations do not depend on earlier calls',
    'Any sequence of public section-calculator calls on one section, including calls that raise or are interrupted, gives for each call the answer that the same call gives on a freshly built section, for both integrators and any mesh_size. '
    'Calls do not modify the geometry, materials or arrays passed in.',
    ['histories', 'fault_sequences'], 'all sequences of calls with valid and invalid arguments', 'history dependence shows only for particular sequences',
    ['sections/_generic.py', 'sections/section_integrators/'], [('integration_data cache', S + 'sections/_generic.py')],
    state=['GenericSectionCalculator.integration_data', 'cached n_min/n_max', 'GenericSection gross properties cache'])

add('G01', 'Rigid transformations preserve geometry and its attributes',
    'translate, rotate and mirror of surface, point and compound geometries return new objects in which every coordinate is moved by that isometry (about the documented origin, rotation counter-clockwise, angle in radians unless degrees are chosen), so areas, distances and bar diameters are preserved and the transformation followed by its inverse restores the geometry. '
    'Material, concrete flag, name and group label are kept, and the original is not modified.',
    ['inputs', 'histories'], 'all geometries and sequences of transformations', 'group laws over continuous parameters',
    ['geometry/_geometry.py'], [('translate / rotate / mirror', S + 'geometry/_geometry.py')])

add('G02', 'Splitting a geometry partitions it',
    'SurfaceGeometry.split by any line (given as a LineString or as a point and angle) returns the parts above and below it: each part lies on its side, they do not overlap and together have the area of the original; a line that misses the geometry leaves it whole on one side. '
    'split_two_lines returns exactly the part between two parallel lines, and create_line_point_angle returns a line through the given point with the given inclination that spans the bounding box.',
    ['inputs'], 'all polygons (non-convex, holes) and all lines incl. vertical, tangent and missing ones', 'partition property for all shapes and lines',
    ['geometry/_geometry.py'], [('split / split_two_lines / create_line_point_angle', S + 'geometry/_geometry.py')])

add('G03', 'Geometries combine like sets and keep their identity',
    'Adding geometries yields a compound holding exactly the surfaces and points of the operands in order; subtracting removes exactly the overlapping area from surfaces (splitting into several surfaces where needed) and keeps points, material and concrete flag. '
    'CompoundGeometry built from a list or MultiPolygon, from_geometry, calculate_extents, area and the reinforced_concrete flag agree with the parts, and the operands are not modified.',
    ['inputs', 'histories'], 'all expression trees of geometry operations', 'combinatorial set of compositions',
    ['geometry/_geometry.py'], [('CompoundGeometry', S + 'geometry/_geometry.py'), ('__add__/__sub__', S + 'geometry/_geometry.py')])

add('G04', 'Reinforcement helpers place exactly the documented bars',
    'add_reinforcement, add_reinforcement_line and add_reinforcement_circle return the original geometry plus the documented number of bars, each with the given diameter, material and group label, on the line or circle, at the given spacing or evenly from the first to the last point (both included unless first/last is False; a full circle has no coincident bars). '
    'Contradictory, missing or impossible n/s arguments are rejected with ValueError.',
    ['inputs'], 'all lines/circles, n, s, first/last, start/stop angles', 'combinations of n, s, first, last and angles',
    ['geometry/_reinforcement.py', 'geometry/_geometry.py'], [('add_reinforcement_line / _circle', S + 'geometry/_reinforcement.py')])

add('G05', 'Steel profiles report the properties of the polygon they describe',
    'Every profile of every family can be built by name; its polygon is a valid counter-clockwise polygon with the catalogue width and depth and the area (or mass) of the section it is named after, placed at the documented origin, and A, Iy, Iz, Iyz, principal moments and angle, elastic and plastic moduli and radii of gyration are those of that polygon. '
    'Reading properties in any order gives the same values and does not change the polygon; an unknown name raises ValueError.',
    ['inputs', 'histories'], 'all profiles of all families, all reading orders', 'hundreds of profiles times reading orders; several catalogues have entries no test reads',
    ['geometry/profiles/_base_profile.py', 'geometry/profiles/_common_functions.py', 'geometry/profiles/'],
    [('BaseProfile', S + 'geometry/profiles/_base_profile.py')])

add('G06', 'Rectangular and circular geometries have the requested shape',
    'RectangularGeometry has exactly the four corners given by width, height and origin; CircularGeometry is a regular polygon with vertices on the circle and its area converges to that of the circle with n_points. '
    'Point geometries have area pi*d^2/4; density, name, group label and material are those given, and non-positive sizes of rectangles and circles are rejected with ValueError.',
    ['inputs'], 'all sizes, origins, discretisations and keyword combinations', 'continuous inputs and argument combinations',
    ['geometry/_rectangular.py', 'geometry/_circular.py', 'geometry/_geometry.py'], [('RectangularGeometry / CircularGeometry / PointGeometry', S + 'geometry/')])

add('M01', 'Concrete materials expose code values and honour overrides',
    'For each concrete class (EC2 2004, EC2 2023, MC2010) and any fck and keyword arguments, every derived property equals the code function evaluated on the object\'s own (possibly overridden) inputs, an overridden attribute is returned as given (sign conventions documented), and the partial factors and coefficients enter fcd as the code defines. '
    'Invalid or inconsistent overrides (and existing=True, which is not implemented) are rejected with ValueError, and attributes cannot be changed after construction.',
    ['inputs'], 'all fck and all subsets of overrides', '2^k subsets of overrides times continuous values',
    ['materials/concrete/_concreteEC2_2004.py', 'materials/concrete/_concreteEC2_2023.py', 'materials/concrete/_concreteMC2010.py', 'core/base.py'],
    [('concrete classes', S + 'materials/concrete/')])

add('M02', 'Reinforcement and basic materials expose code values and initial strains',
    'For each reinforcement class and any fyk, Es, ftk, epsuk, gamma_s (gamma_eps), the derived fyd, ftd, epsud, epsyk, epsyd and densities follow the code functions. '
    'initial_strain or initial_stress given to any material shifts its law so that at zero strain it carries the corresponding initial stress; giving both raises ValueError.',
    ['inputs'], 'all parameter values and material classes', 'continuous inputs, iterative inversion of the initial stress',
    ['materials/reinforcement/', 'materials/basic/', 'core/base.py'],
    [('reinforcement classes', S + 'materials/reinforcement/'), ('_initial_strain_from_stress', S + 'core/base.py')])

add('M03', 'Constitutive laws built from a material carry its design values',
    'For each material and each law name the factory offers for it, create_constitutive_law and the constitutive_law keyword give the same law, whose strength, moduli and strain limits are the material\'s design values (e.g. peak stress -fcd at eps_c2, yield at fyd, ultimate strain -eps_cu2 or epsud). '
    'Law names are case-insensitive; unknown names and laws not available for or not accepted by the material raise ValueError.',
    ['inputs'], 'all materials x laws x parameter values', 'cross product of materials, laws and parameters',
    ['materials/constitutive_laws/__init__.py', 'materials/concrete/', 'materials/reinforcement/'],
    [('create_constitutive_law', S + CL + '__init__.py')])

add('M04', 'Design-code selection and factories are consistent',
    'After any sequence of set_design_code, create_concrete and create_reinforcement calls, factories without an explicit design_code create objects of the code last selected with set_design_code (nothing for codes without material classes), an explicit design_code argument decides the class of that object and its global selection is not changed by it, and unknown codes raise without changing the selection. '
    'get_design_codes lists exactly the codes that set_design_code accepts, in any letter case.',
    ['histories'], 'all sequences of selections, factory calls and invalid arguments', 'global state; depends on the history',
    ['codes/__init__.py', 'materials/concrete/__init__.py', 'materials/reinforcement/__init__.py'],
    [('_CODE / _use_design_code', S + 'codes/__init__.py')], state=['structuralcodes.codes._CODE', 'structuralcodes.codes._NATIONAL_ANNEX'])


def code(id, title, what, files, mech):
    add(id, title,
        'For every input in the documented domain, ' + what + ' return the value of the referenced code equation or table (with its branches and limits, and element-wise for array arguments where those are accepted). '
        'Inputs that the documentation excludes are rejected with the documented exception, and no call modifies its arguments.',
        ['inputs'], 'all documented input ranges incl. branch boundaries, all string options in any letter case where accepted',
        'formulas with branches and caps over continuous inputs; tests fix a few points',
        files, mech)


E4, E3, MC = 'codes/ec2_2004/', 'codes/ec2_2023/', 'codes/mc2010/'
code('K01', 'EC2:2004 concrete and steel property formulas', 'the EN 1992-1-1:2004 material property functions (fcm, fctm, fctkmin/max, Ecm, fcd, eps_*, n, k_sargin, fyd, epsud, ductility classes)',
     [E4 + '_concrete_material_properties.py', E4 + '_reinforcement_material_properties.py'], [('material functions', S + E4)])
code('K02', 'EC2:2004 creep and shrinkage', 'the EN 1992-1-1:2004 Section 3.1.4 / Annex B creep and shrinkage functions',
     [E4 + '_concrete_creep_and_shrinkage.py'], [('phi, eps_cs ...', S + E4 + '_concrete_creep_and_shrinkage.py')])
code('K03', 'EC2:2004 crack control and imposed deformations', 'the EN 1992-1-1:2004 Section 7.3 crack-control functions and EN 1992-3 restraint functions',
     [E4 + '_section_7_3_crack_control.py', E4 + '_cracking_restraint_imposed_deformations.py'], [('7.3 functions', S + E4)])
code('K04', 'EC2:2004 shear', 'the EN 1992-1-1:2004 Section 6.2 shear functions', [E4 + 'shear.py'], [('shear functions', S + E4 + 'shear.py')])
code('K05', 'EC2:2023 material formulas', 'the EN 1992-1-1:2023 Section 5 and Annex B material functions',
     [E3 + '_section5_materials.py', E3 + '_annexB_time_dependent.py'], [('section 5', S + E3)])
code('K06', 'EC2:2023 serviceability formulas', 'the EN 1992-1-1:2023 Section 9 crack-width, minimum-reinforcement and deflection functions',
     [E3 + '_section9_sls.py'], [('section 9', S + E3)])
code('K07', 'MC2010 concrete and steel property formulas', 'the fib Model Code 2010 material property functions',
     [MC + '_concrete_material_properties.py', MC + '_reinforcement_material_properties.py'], [('material functions', S + MC)])
code('K08', 'MC2010 creep and shrinkage', 'the fib Model Code 2010 creep and shrinkage functions',
     [MC + '_concrete_creep_and_shrinkage.py'], [('creep/shrinkage', S + MC)])
code('K09', 'MC2010 shear, torsion and interface shear', 'the fib Model Code 2010 shear, torsion and casting-interface functions, for every approximation level and with the given partial factors,',
     [MC + '_concrete_shear.py', MC + '_concrete_torsion.py', MC + '_concrete_interface_different_casting_times.py'], [('v_rd', S + MC + '_concrete_shear.py')])
code('K10', 'MC2010 punching', 'the fib Model Code 2010 punching functions', [MC + '_concrete_punching.py'], [('punching', S + MC + '_concrete_punching.py')])
code('K11', 'MC2010 bond stress-slip', 'the fib Model Code 2010 bond functions', [MC + '_interface_concrete_steel_rebar.py'], [('bond', S + MC + '_interface_concrete_steel_rebar.py')])

if __name__ == '__main__':
    out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'properties.jsonl')
    for p in P:
        assert len(p['title']) <= 80, p['title']
    with open(out, 'w') as f:
        for p in P:
            f.write(json.dumps(p) + '\n')
    print(len(P))
