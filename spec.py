"""The properties: statement, anchors, deciding rule.

`python3 tools/gen.py` writes properties.jsonl and MANIFEST.json from here.
"""

LAWS = 'structuralcodes/materials/constitutive_laws'
CONC = 'structuralcodes/materials/concrete'
REIN = 'structuralcodes/materials/reinforcement'
SEC = 'structuralcodes/sections'
GEO = 'structuralcodes/geometry'

VG = ('abstract interpretation of the source to a gated value graph; '
      'equality of normal forms per region of the input space')

P = {}


def prop(id, title, statement, over, quant, why, files, mech, rule,
         technique=VG, note='', entry=None, state=None, observe=None):
    a = {'files': files,
         'mechanism': [{'name': n, 'where': w} for n, w in mech]}
    if state:
        a['state'] = [{'name': n, 'meaning': m} for n, m in state]
    if observe:
        a['observe_at'] = observe
    P[id] = {
        'doc': {'id': id, 'title': title, 'statement': statement,
                'quantifier': {'over': over, 'text': quant},
                'why_tests_cant': why, 'anchors': a},
        'rule': rule, 'technique': technique, 'note': note, 'entry': entry}


prop('C01', 'Constitutive laws: scalar and array strains agree',
     'For every constitutive law and every strain, the stress, the tangent '
     'and the secant modulus obtained for a single number, for a list or an '
     'array that contains that number (of floats or of integers) are the '
     'same value. An array or list input gives an array.',
     ['inputs'], 'every strain (all regions of the law and the region '
     'boundaries themselves) and all admissible parameters of the law',
     'The tests call the laws on a few strains; every law has two separate '
     'code paths, and they can disagree exactly at a boundary, beyond it, '
     'or for integer arrays.',
     [f'{LAWS}/_{x}.py' for x in (
         'bilinearcompression', 'parabolarectangle', 'sargin', 'popovics',
         'elastic', 'elasticplastic', 'userdefined', 'initial_strain',
         'parallel')] + ['structuralcodes/core/base.py'],
     [('get_stress / get_tangent of each law', LAWS),
      ('get_secant, preprocess_strains_with_limits',
       'structuralcodes/core/base.py')],
     'in every region of the strain axis and at every breakpoint, the value '
     'graph of the scalar path equals the element of the value graph of the '
     'array, integer-array and list paths',
     entry='lawcheck:c01')

prop('C02', 'Constitutive laws: nothing is carried beyond the ultimate strain',
     'Beyond the ultimate strains a law reports, its stress and tangent are '
     'zero; a compression-only concrete law has no tensile stress; between '
     'the ultimate strains the stress of a linear, bilinear, '
     'parabola-rectangle or elastic-plastic law never has the sign opposite '
     'to the strain. The ultimate strains are ordered and contain the yield '
     'strains, and those given to a law, as one value or as a pair in either '
     'order, are those it reports.',
     ['inputs'], 'every strain and all admissible parameters of the law, '
     'scalar and array strains',
     'The tests sample strains; a wrong comparison only shows on one side '
     'of a limit or for one kind of input.',
     [f'{LAWS}', 'structuralcodes/core/base.py'],
     [('get_stress, get_tangent, get_ultimate_strain', LAWS),
      ('preprocess_strains_with_limits', 'structuralcodes/core/base.py')],
     'in every region decided to lie beyond the reported limits the value '
     'graph of stress and tangent is 0; sign analysis inside; order of the '
     'limits decided from the parameter facts',
     technique=VG + ', and sign analysis', entry='lawcheck:c02')

prop('C03', 'Marin coefficients represent the constitutive law exactly',
     'For every constitutive law with closed-form coefficients for Marin '
     'integration, the polynomials it returns over the strain ranges it '
     'returns reproduce its own stress (or tangent) at every strain of a '
     'constant and of a linear strain field, and nowhere else.  A law '
     'without closed form is represented by the piecewise linear law '
     'through its own stresses, from its last stressed strain in '
     'compression to that in tension.',
     ['inputs'], 'every strain, every linear strain distribution with '
     'non-zero slope, all admissible parameters of the law',
     'The tests integrate a few sections; a range boundary, a coefficient '
     'or a missing branch shows only when the neutral axis falls in that '
     'range.',
     [LAWS, f'{SEC}/section_integrators/_marin_integrator.py'],
     [('__marin__ / __marin_tangent__', LAWS)],
     'for each region of the strain axis the polynomial of the range that '
     'contains it equals the value graph of the stress/tangent as rational '
     'functions of strain, curvature and parameters',
     entry='lawcheck:c03')

prop('C04', 'The tangent is the derivative of the stress',
     'For every constitutive law the tangent modulus equals the derivative '
     'of the stress with respect to the strain wherever the stress is '
     'differentiable, and the stress is continuous at the breakpoints that '
     'lie within the ultimate strains.',
     ['inputs'], 'every strain that is not a breakpoint, all admissible '
     'parameters of the law',
     'The tests compare numbers for a few strains and parameters; the '
     'Newton solvers rely on this everywhere.',
     [LAWS], [('get_stress, get_tangent', LAWS)],
     'symbolic derivative of the value graph of the stress equals the value '
     'graph of the tangent in every open region; one-sided limits at the '
     'inner breakpoints equal the value',
     technique=VG + '; symbolic differentiation', entry='lawcheck:c04')

prop('C05', 'Compressive magnitudes may be given with either sign',
     'Concrete strengths and limit strains given to a material, to a '
     'compressive constitutive law or to the material functions of the '
     'codes are magnitudes: a value and its negative give the same '
     'material, the same law response and the same result. The same holds '
     'for the strengths, modulus and strains of reinforcement.',
     ['inputs'], 'all values of each magnitude and all strains',
     'The tests give one sign for most of the parameters.',
     [CONC, REIN, LAWS, 'structuralcodes/codes'],
     [('constructors', f'{CONC}, {REIN}, {LAWS}'),
      ('functions of fck', 'structuralcodes/codes/*/'
       '_concrete_material_properties.py')],
     'the value graphs obtained for p and for -p (p > 0) are equal: all '
     'properties and law hooks of a material, acceptance by the '
     'constructor, all regions of a law, the code functions',
     entry='matcheck:c05')

prop('C06', 'Composite laws respond as their definition',
     'A law with an initial strain responds as the wrapped law at the '
     'strain plus the initial strain (at the initial strain alone when '
     'strain compatibility is off), with limits shifted accordingly; '
     'parallel laws respond with the weighted sum of their components, '
     'with the weights given by the user, for single and array strains.',
     ['inputs'], 'every strain, initial strain, weight',
     'The tests use a few wrapped laws, strains and one pair of weights.',
     [f'{LAWS}/_initial_strain.py', f'{LAWS}/_parallel.py'],
     [('InitialStrain', f'{LAWS}/_initial_strain.py'),
      ('Parallel', f'{LAWS}/_parallel.py')],
     'value graph of the composite equals the value graph built from the '
     'components in every region', entry='lawcheck:c06')

prop('C09', 'Section data always in the frame of the section',
     'The discretisation a section calculator keeps between calculations '
     'describes the section as the user defined it: whenever it is used it '
     'is in the frame of the geometry it is used with, it is back in the '
     'frame of the section when a public calculation returns or raises, and '
     'it is created with the mesh size of the section. Results therefore do '
     'not depend on which calculations were done, or failed, before.',
     ['inputs', 'histories'],
     'every public calculation of a section, with and without stored data, '
     'every angle and load, every normal and exceptional exit',
     'The tests do not compare results after a failed calculation and the '
     'angles they use are few.',
     [f'{SEC}/_generic.py', f'{SEC}/_rc_utils.py'],
     [('GenericSectionCalculator', f'{SEC}/_generic.py')],
     'typestate of the stored data: its positions, as value-graph terms, '
     'equal the positions of the geometry at every use, and those of the '
     'section at every return and raise (call summaries for the equilibrium '
     'solvers, which are checked on their own)',
     note='loads are assumed finite; the integrator is summarised (C10)',
     entry='seccheck:c09')

prop('C10', 'Section integrators: resultants and stiffness of all parts',
     'For every strain profile (axial strain, curvature about y, curvature '
     'about z) the integrators return the exact sums over all surfaces '
     '(holes excluded) and all reinforcement bars of stress times (1, z, '
     '-y), with the stress taken at the strain e0 + ky z - kz y from the '
     'law of each part, and the stiffness is the symmetric matrix of the '
     'derivatives of these sums. Integration data returned by an integrator '
     'are in the frame of the section and give the same result when they '
     'are passed again. Unknown kinds of integration and mesh sizes outside '
     '(0, 1] raise ValueError.',
     ['inputs'],
     'every strain profile in the eight orientations of the neutral axis '
     'and without curvature, every polygon with holes, every set of bars '
     'and sharing of laws, every law',
     'The tests compare a few sections numerically with tolerances of '
     'percents; a sign, a forgotten hole or a wrong frame only shows for '
     'one orientation or composition.',
     [f'{SEC}/section_integrators', 'structuralcodes/core/'
      '_marin_integration.py'],
     [('FiberIntegrator', f'{SEC}/section_integrators/'
       '_fiber_integrator.py'),
      ('MarinIntegrator', f'{SEC}/section_integrators/'
       '_marin_integrator.py'),
      ('marin_integration', 'structuralcodes/core/_marin_integration.py')],
     'the code is interpreted on symbolic polygons, bars and uninterpreted '
     'laws; the value graphs of the results equal the independently written '
     'sums; the cutting lines lie where the strain equals the limits of the '
     'law; area moments equal Green\'s formula as polynomials; mesh input '
     'contains all edges and a point inside every hole',
     note='geometry predicates of shapely and the mesh generator are '
     'modelled, not analysed',
     entry='intcheck:c10')

prop('C14', 'User-supplied material data is returned and propagated',
     'A material property supplied by the user is the one the material '
     'returns; every property not supplied is what the design code computes '
     'from the current values of the other properties, including the '
     'supplied ones and the partial factors; and the constitutive law is '
     'built from exactly those values, whichever available law is asked '
     'for.  An initial strain given to the material acts on its law; an '
     'initial stress is reached by the law or refused; name, density, '
     'initial strain and strain compatibility reach every material, and an '
     'elastic material made from another one has its modulus at zero strain '
     'and its density.',
     ['inputs', 'configurations'],
     'all values, every subset of one / none / all of the optional '
     'properties, every available law',
     'The tests override a few properties and check them one at a time, '
     'not how they flow into the others.',
     [CONC, REIN, 'structuralcodes/materials/basic',
      'structuralcodes/core/base.py'],
     [('properties with user override', CONC),
      ('fyd, ftd, epsud, law hooks', REIN),
      ('create_constitutive_law', f'{LAWS}/__init__.py')],
     'value graph of each property of an object built with symbolic '
     'arguments equals the argument (if given) or the code function of the '
     'object\'s other properties; the law hook values equal the properties; '
     'the law object equals the law constructed from the hook',
     entry='matcheck:c14')

prop('C19', 'Equilibrium solvers return only strains in equilibrium',
     'A strain profile returned by the equilibrium searches is in '
     'equilibrium: with fixed curvature or pivot the axial force differs '
     'from the requested one by at most 0.01 and the given curvature (or '
     'the limit strain at the pivot) is kept; the strain profile for given '
     'N, My, Mz is the first Newton iterate whose increment is below the '
     'tolerance. If no such strain is found in the allowed iterations, an '
     'exception is raised instead.',
     ['inputs'],
     'every response of the section (an uninterpreted function of the '
     'strain), every load, curvature and start value, any number of '
     'iterations (up to three for the Newton iteration)',
     'The tests only see sections and loads for which the searches work.',
     [f'{SEC}/_generic.py'],
     [('find_equilibrium_fixed_pivot', f'{SEC}/_generic.py'),
      ('find_equilibrium_fixed_curvature', f'{SEC}/_generic.py'),
      ('calculate_strain_profile', f'{SEC}/_generic.py')],
     'relational loop invariants inferred over the search loops and proved '
     'inductive; the unbalance at every return is bounded under the facts '
     'of the path; where this fails, abstract paths of up to three '
     'iterations are searched for one that the conditions of the path do '
     'not exclude', entry='seccheck:c19')

prop('C20', 'Gross properties are those of all parts of the section',
     'The gross properties of a generic section are the sums over all its '
     'surfaces and bars: area, reinforcement area, axial rigidity, mass, '
     'first and second area moments with and without the elastic moduli, '
     'the elastic centroid and the moments about it.  The principal moments '
     'are the largest and the smallest moment about an axis through the '
     'centroid, and the moment about the axis at the reported angle is the '
     'largest one.',
     ['inputs'],
     'any shapes, positions, moduli and densities of the parts (sections of '
     'two surfaces and two bars stand for all)',
     'The tests use a few sections, mostly symmetric ones, where cross '
     'terms and the orientation of the axes do not show.',
     [f'{SEC}/_generic.py', 'structuralcodes/geometry'],
     [('_calculate_gross_section_properties', f'{SEC}/_generic.py'),
      ('from_geometry', 'structuralcodes/geometry/_geometry.py')],
     'value graph of every reported property on a section with symbolic '
     'shapes, moduli and densities, proved equal (as rational functions of '
     'the area moments of the shapes) to independently written sums; '
     'eigenvalues by their defining property',
     note='the section integrators are replaced by their meaning (C10)',
     entry='grosscheck:c20')

prop('C16', 'Geometry operations change nothing but what they are for',
     'Translating, rotating and mirroring a geometry moves every surface and '
     'every bar by exactly that map and keeps its material, density, '
     'diameter, area, concrete flag, name and group label; giving it another '
     'material keeps the shape, diameter, name and label (and the stiffness, '
     'if an elastic material is derived). Adding geometries keeps all parts; '
     'subtracting keeps material, flag, name and label and removes all '
     'surfaces of the subtracted geometry. Bars are added at the requested '
     'positions with the given diameter, material and label, none of the '
     'existing parts being lost. Parts above and below a line are told '
     'apart correctly. Area, extents and the reinforced concrete flag '
     'account for all surfaces. No operation changes its operands.',
     ['inputs', 'histories'],
     'all shapes, coordinates, angles (radians and degrees), axes, diameters '
     'and materials; one to four bars',
     'The tests transform a few simple geometries and mostly look at one '
     'attribute.',
     ['structuralcodes/geometry'],
     [('SurfaceGeometry, PointGeometry, CompoundGeometry',
       'structuralcodes/geometry/_geometry.py'),
      ('add_reinforcement_line, add_reinforcement_circle',
       'structuralcodes/geometry/_reinforcement.py'),
      ('RectangularGeometry', 'structuralcodes/geometry/_rectangular.py'),
      ('CircularGeometry', 'structuralcodes/geometry/_circular.py')],
     'operations interpreted on symbolic geometries; the affine map of '
     'every part of the result equals the independently written one, its '
     'attributes are those of the part it stems from, and the heap of the '
     'operands is unchanged',
     note='shapely itself is modelled, not analysed',
     entry='geocheck:c16')

prop('C17', 'Failure strain profiles respect every limit strain',
     'The balanced failure strain of a section reaches the negative limit '
     'strain of one part at its top and the positive limit strain of one '
     'part at its bottom and no pair of parts would allow only a smaller '
     'curvature; yield strains are used as documented (all limits for '
     'sections without concrete; tension limits and concrete for reinforced '
     'concrete). The strain profiles of the interaction domains start with '
     'uniform tension, run through fields 1 to 6 in order, pivot in each '
     'field on its limit strain, start each field where the previous one '
     'ends whatever the spacing, end with uniform compression and bend about '
     'the requested inclination; the field numbers match the profiles and '
     'the number of profiles per field is at least the requested one.',
     ['inputs'],
     'all limit strains, positions, inclinations; sections of two or three '
     'parts in seven arrangements; linear, geometric and quadratic spacing; '
     'small fixed numbers of profiles',
     'The tests compare a few resulting forces; pivots, field borders and '
     'the inclination are not looked at.',
     [f'{SEC}/_generic.py'],
     [('get_balanced_failure_strain', f'{SEC}/_generic.py'),
      ('_compute_ultimate_strain_profiles', f'{SEC}/_generic.py'),
      ('_process_num_strain_profiles', f'{SEC}/_generic.py')],
     'value graph of the returned strains with symbolic limits; every case '
     'of the comparisons is enumerated and the returned curvature shown to '
     'be the least element of the comparisons taken; every profile row is '
     'proved to satisfy the equation of its field',
     note='the minimum is over sections of up to three parts',
     entry='domcheck:c17')

prop('C18', 'Reported resultants belong to the reported strains',
     'Bending strength, moment-curvature and all interaction domains report '
     'forces that are the response of the section, in its own axes, to the '
     'strain and curvatures reported with them; the equilibrium is looked '
     'for in the section rotated by minus the inclination with the given '
     'axial load and the result is rotated back by it. The limit axial '
     'loads are the responses to the uniform limit strains, and loads '
     'outside of them are rejected (and only those). Inclination, axial '
     'load and numbers of points in the result are those asked for; '
     'generated curvatures start at the first value, hit the yield '
     'curvature at the documented point and end at the ultimate curvature; '
     'the named columns of a result are its columns.',
     ['inputs'],
     'all angles, axial loads, curvatures (also integer arrays and negative '
     'bending), with and without stored integration data',
     'The tests check a few strengths at angles 0 and 90 degrees.',
     [f'{SEC}/_generic.py', 'structuralcodes/core/_section_results.py'],
     [('GenericSectionCalculator', f'{SEC}/_generic.py'),
      ('InteractionDomain', 'structuralcodes/core/_section_results.py')],
     'the section response is an uninterpreted function of the strain in '
     'the section frame; every reported value is proved equal to that '
     'function at the reported strain',
     note='MM domains may report the requested axial load instead of the '
     'computed one', entry='domcheck:c18')

CODE = 'structuralcodes/codes'
CLAUSE = ('every function is interpreted abstractly, once per combination of '
          'its enumerated options, and its value graph is compared with the '
          'one of an independent restatement of the clause (sa/codespec): '
          'conditions for exceptions and warnings, and the value wherever no '
          'exception is raised')
CLAUSE_WHY = ('The tests check each function at a handful of values; the '
              'clauses are piecewise, with limits, caps and options whose '
              'combinations and boundaries are not sampled.')


def clause(id, title, what, files, mech, entry, note=''):
    prop(id, title,
         what + ' Every function returns the value of the clause it '
         'documents for every admissible input, on every branch and at '
         'every limit between branches (with default arguments and with '
         'given ones), and raises the documented exception exactly for the '
         'inputs it documents as invalid.',
         ['inputs'],
         'all real arguments (both sides of every limit and the limits '
         'themselves), all enumerated options in the spellings that are '
         'accepted, invalid options, arguments given and left out',
         CLAUSE_WHY, files, mech, CLAUSE,
         technique=VG + ' against a restatement of the clauses', note=note,
         entry=entry)


clause('C11', 'EC2:2004 material, creep and shrinkage functions',
       'Concrete and reinforcement properties, their development in time, '
       'creep and shrinkage of EN 1992-1-1:2004 (3.1, 3.2, annexes B and C).',
       [f'{CODE}/ec2_2004/_{x}.py' for x in (
           'concrete_material_properties', 'concrete_creep_and_shrinkage',
           'reinforcement_material_properties')],
       [('material functions',
         f'{CODE}/ec2_2004/_concrete_material_properties.py'),
        ('creep and shrinkage',
         f'{CODE}/ec2_2004/_concrete_creep_and_shrinkage.py')],
       'codecheck:c11')
clause('C12', 'EC2:2004 shear and crack control functions',
       'Shear resistance (6.2), minimum reinforcement and crack control '
       '(7.3) of EN 1992-1-1:2004 and restrained imposed deformations of '
       'EN 1992-3.',
       [f'{CODE}/ec2_2004/{x}.py' for x in (
           'shear', '_section_7_3_crack_control',
           '_cracking_restraint_imposed_deformations')],
       [('shear resistance', f'{CODE}/ec2_2004/shear.py'),
        ('crack control',
         f'{CODE}/ec2_2004/_section_7_3_crack_control.py')],
       'codecheck:c12')
clause('C13', 'EC2:2023 material and serviceability functions',
       'Materials (section 5), crack control and deflection (section 9) and '
       'time-dependent strains (annex B) of EN 1992-1-1:2023.',
       [f'{CODE}/ec2_2023/_{x}.py' for x in (
           'section5_materials', 'section9_sls', 'annexB_time_dependent')],
       [('section 5', f'{CODE}/ec2_2023/_section5_materials.py'),
        ('section 9', f'{CODE}/ec2_2023/_section9_sls.py'),
        ('annex B', f'{CODE}/ec2_2023/_annexB_time_dependent.py')],
       'codecheck:c13')
clause('C15', 'fib Model Code 2010 material, creep, shrinkage and bond '
       'functions',
       'Concrete and reinforcement properties, development in time, creep, '
       'shrinkage and the bond between concrete and rebar of the fib Model '
       'Code 2010 (5.1, 5.2, 6.1).',
       [f'{CODE}/mc2010/_{x}.py' for x in (
           'concrete_material_properties', 'concrete_creep_and_shrinkage',
           'reinforcement_material_properties',
           'interface_concrete_steel_rebar')],
       [('material functions',
         f'{CODE}/mc2010/_concrete_material_properties.py'),
        ('creep and shrinkage',
         f'{CODE}/mc2010/_concrete_creep_and_shrinkage.py'),
        ('bond', f'{CODE}/mc2010/_interface_concrete_steel_rebar.py')],
       'codecheck:c15')
clause('C21', 'fib Model Code 2010 shear, torsion, punching and interface '
       'functions',
       'Shear resistance at all levels of approximation, torsion, punching '
       'and shear in interfaces of the fib Model Code 2010 (7.3).',
       [f'{CODE}/mc2010/_concrete_{x}.py' for x in (
           'shear', 'torsion', 'punching',
           'interface_different_casting_times')],
       [('shear', f'{CODE}/mc2010/_concrete_shear.py'),
        ('torsion', f'{CODE}/mc2010/_concrete_torsion.py'),
        ('punching', f'{CODE}/mc2010/_concrete_punching.py')],
       'codecheck:c21')

prop('C22', 'Array-like arguments of design-code functions',
     'Design-code functions that take array-like arguments (times, strains '
     'and factors that depend on time) give for a list or an array, of '
     'floats or of integers, exactly the value they give for each of the '
     'numbers alone (the sums over temperature increments add up the values '
     'of the increments; arrays of different lengths are refused), and '
     'leave the argument as it was.',
     ['inputs'], 'all elements, on both sides of every limit (age below the '
     'age at loading or 28 days), lists, float and integer arrays',
     'Arrays take separate code paths (masks, in-place writes) which the '
     'tests sample at a few ages with float arrays.',
     [f'{CODE}/{x}.py' for x in (
         'ec2_2004/_concrete_material_properties',
         'ec2_2004/_concrete_creep_and_shrinkage',
         'mc2010/_concrete_material_properties',
         'mc2010/_concrete_creep_and_shrinkage')],
     [('time functions',
       f'{CODE}/mc2010/_concrete_creep_and_shrinkage.py'),
      ('strength with time',
       f'{CODE}/ec2_2004/_concrete_material_properties.py')],
     'the element of the value graph for arrays (generic element) equals '
     'the value graph of the restated clause for a number; the generic '
     'element of the argument after the call is the one before it',
     entry='codecheck:c22')

prop('C23', 'The public interface exists and design codes select as asked',
     'Every name a module exports and every name of the API documentation '
     'exists, and an exported name is the object defined under that name. '
     'A design code is selected by name in any case or by its module; an '
     'unknown one raises ValueError and leaves the choice as it was; a code '
     'given for one material does not change the one set globally. The '
     'factories give the material class of the selected code, the law or '
     'the integrator of the name, pass on every argument, and raise '
     'ValueError when no code is set or the name is unknown or not '
     'available for the material.',
     ['inputs', 'histories'],
     'all exported and documented names; all codes, spellings, and orders '
     'of setting and giving a code; all arguments of the factories',
     'Tests use a few names and create most materials through the classes; '
     'an export or a forwarded argument that no test uses may be missing.',
     ['structuralcodes/codes/__init__.py',
      'structuralcodes/materials/concrete/__init__.py',
      'structuralcodes/materials/reinforcement/__init__.py',
      'structuralcodes/materials/constitutive_laws/__init__.py',
      f'{SEC}/section_integrators/_factory.py'],
     [('set_design_code', 'structuralcodes/codes/__init__.py'),
      ('create_concrete', 'structuralcodes/materials/concrete/__init__.py'),
      ('create_constitutive_law',
       'structuralcodes/materials/constitutive_laws/__init__.py')],
     'name resolution over all modules and the documentation; abstract '
     'execution of the selection and factory functions, whose objects are '
     'compared with directly constructed ones',
     entry='apicheck:c23')

prop('C24', 'Steel profiles: dimensions and section properties',
     'For every designation of a profile class the object has the dimensions '
     'of its table entry, get_polygon(name) gives the polygon of the object, '
     'made from those dimensions (flange slopes: IPN 14 %, UPN 8 % or 5 % '
     'above h = 300, U 8 %), a number means the profile of that size, '
     'an unknown name raises ValueError, and the tables do not change. The '
     'tables agree with their designations (nominal size or mass per metre) '
     'and profiles of one series have one root radius. A, Iy, Iz, Iyz are '
     'the area and second moments of the polygon; Icsi, Ieta and theta its '
     'principal moments and their angle; Wel the moment over the largest '
     'distance; Wpl the sum of the absolute first moments of the halves '
     'about the axis that halves the area; i the radius of gyration. The '
     'answers do not depend on the queries made before, which leave the '
     'polygon as it is.',
     ['inputs', 'histories'],
     'all designations of all classes; any polygon whose bounding box holds '
     'the origin, any split into parts; any order of the queries',
     'Tests compare values of some classes with catalogues within 1 or 2 '
     'per cent, one property per object; mixed orders of queries, '
     'unsymmetric polygons and the remaining classes are not compared.',
     ['structuralcodes/geometry/profiles/_base_profile.py',
      'structuralcodes/geometry/profiles/_ubp.py',
      'structuralcodes/geometry/profiles/_upn.py'],
     [('section properties',
       'structuralcodes/geometry/profiles/_base_profile.py'),
      ('designations', 'structuralcodes/geometry/profiles/_upn.py')],
     'evaluation of the constructors on every literal of the tables, with '
     'the shape functions as atoms; abstract execution of the properties on '
     'a symbolic polygon; loop invariant (side of the bracket) and linear '
     'arithmetic for the search of the plastic axis',
     entry='profcheck:c24',
     note='the shape functions themselves (offset curves, polygonize) are '
     'not modelled')

prop('C25', 'Cracked properties: compressed concrete and all that reinforces',
     'The elastic cracked properties of a section are the gross properties '
     'of the part of its concrete surfaces on the compressed side of the '
     'neutral axis of pure bending (zero axial load) about the given axis, '
     'together with all its other surfaces and all bars, at their original '
     'places; every part behaves linearly with the stiffness of its material '
     'at zero strain and keeps its density, concrete carries no tension, and '
     'the integrator and mesh size of the section are used. The cracked '
     'geometry returned on request is the one of these properties, the '
     'section given does not change, and a section without concrete gives '
     'None.',
     ['inputs'],
     'all angles, laws, polygons, bar positions and diameters; two surfaces '
     'of which one or both are concrete, two bars; any parts cut off',
     'Tests use a rectangular concrete section; another angle, a composite '
     'section or a split concrete surface is not sampled.',
     [f'{SEC}/_rc_utils.py'],
     [('calculate_elastic_cracked_properties', f'{SEC}/_rc_utils.py')],
     'abstract execution of the calculation with the equilibrium search, the '
     'split and the gross properties as summaries: what each is given, the '
     'shape, material law and place of every part, and the result equal '
     'independently stated terms', entry='crackcheck:c25')

EFFECTS = ('interprocedural side-effect analysis (flow-sensitive may-alias '
           'summaries to a fixed point)')

prop('C07', 'Calls leave their arguments and the objects asked as they were',
     'No call of the public interface changes the objects, lists or arrays '
     'given as arguments, and objects do not keep an array or list of the '
     'caller as part of their own state. Queries, operators and calculations '
     'of an object leave that object as it was (apart from private '
     'intermediate results) and answer no matter which query came first.',
     ['inputs', 'histories'], 'every public function and method, every '
     'argument, every path through the functions reached by the call',
     'Tests rarely look at an argument after the call, and a change shows '
     'only when the caller uses the object again.',
     ['structuralcodes/core/base.py', f'{LAWS}/_userdefined.py',
      f'{LAWS}/_parallel.py', 'structuralcodes/geometry/_geometry.py',
      'structuralcodes/geometry/_reinforcement.py', f'{SEC}/_generic.py',
      f'{SEC}/_rc_utils.py'],
     [('strain arrays', 'structuralcodes/core/base.py'),
      ('geometry operations', 'structuralcodes/geometry/_geometry.py'),
      ('section calculations', f'{SEC}/_generic.py')],
     'no write (assignment, in-place operator, mutating method, out=) '
     'reaches an object that exists outside of the call; no constructor '
     'stores an array argument itself; every attribute read is set by the '
     'constructor', technique=EFFECTS, entry='effcheck:c07')

prop('C08', 'No hidden state shared between calls or objects',
     'Apart from the documented settings (design code and national annex) '
     'and counters for names, no call changes anything that other objects or '
     'later calls see: tables, registries, class attributes and default '
     'arguments stay as they are and are not handed out for the caller to '
     'change. Results do not depend on time, random numbers, the '
     'environment or the iteration order of sets.',
     ['inputs', 'histories'], 'every function and class of the package and '
     'every path through it, any number of earlier calls',
     'Tests start from a fresh state or use one object; shared state shows '
     'only after particular sequences of calls.',
     ['structuralcodes/codes/__init__.py',
      'structuralcodes/geometry/profiles/_upn.py',
      f'{LAWS}/__init__.py', 'structuralcodes/core/base.py',
      f'{SEC}/section_integrators/_factory.py'],
     [('code registry', 'structuralcodes/codes/__init__.py'),
      ('profile tables', 'structuralcodes/geometry/profiles/_upn.py'),
      ('law registry', f'{LAWS}/__init__.py')],
     'no write reaches a module variable, class attribute or default '
     'argument (counters and the two setters excepted); no such table is '
     'returned; no call of clocks, random numbers, environment or global '
     'numpy settings; no ordered use of a set', technique=EFFECTS,
     entry='effcheck:c08')

CONV = ('quantifies over runtime quantities (iterates, mesh, rounding) that no '
        'sound static argument in reach can bound')
for _id, _t, _s, _f, _why in (
    ('N01', 'Equilibrium searches converge for every attainable load',
     'For every load inside the resistance of a section the search for the '
     'strain profile converges, and the strains returned give the load back '
     'within the requested tolerance.', f'{SEC}/_generic.py',
     'convergence of Newton and bisection steps on piecewise laws depends on '
     'the run-time values; C19 decides the structural half (only strains in '
     'equilibrium are returned)'),
    ('N02', 'Fibre and Marin integration agree',
     'With decreasing mesh size the results of the fibre integrator approach '
     'those of Marin integration, for every section and strain profile.',
     f'{SEC}/section_integrators',
     'needs an error bound of a mesh made at run time by a C library; C10 '
     'decides that both sum the same parts and C03 that the coefficients are '
     'the law'),
    ('N03', 'Interaction domains enclose what is attainable',
     'Every point of an interaction domain is a resistance of the section: '
     'no admissible strain profile gives resultants outside of the domain, '
     'and the domain is closed.', f'{SEC}/_generic.py',
     'a statement over the continuum of strain profiles between the sampled '
     'ones; C17 and C18 decide the profiles sampled and their resultants'),
    ('N04', 'Strength does not depend on the frame',
     'Rotating or translating a section together with the load rotates the '
     'bending strength and leaves its size, up to the numerical tolerance.',
     f'{SEC}/_generic.py',
     'the tolerance of iterative results under rotated coordinates is a '
     'rounding question; C09 and C16 decide that frames are consistent'),
    ('N05', 'Profile tables equal the product standards',
     'The dimensions of every profile are those of the product standard, and '
     'the areas and moduli computed equal the published ones within their '
     'rounding.', 'structuralcodes/geometry/profiles',
     'the oracle (manufacturer tables) is not available offline and the '
     'outlines are made by shapely at run time; C24 decides the relations '
     'between the dimensions and the properties of a given outline'),
):
    prop(_id, _t, _s, ['inputs'], 'every admissible input', CONV, [_f],
         [('see the statement', _f)], _why, technique='none')
NOT_APPLICABLE = {
    'N01': CONV + ': convergence of Newton and bisection steps on piecewise '
    'laws; the structural half is C19',
    'N02': CONV + ': the error of a mesh made by a C library; the structural '
    'halves are C03 and C10',
    'N03': CONV + ': the continuum of profiles between the sampled ones; the '
    'structural halves are C17 and C18',
    'N04': CONV + ': rounding of iterative results in rotated coordinates; '
    'the structural halves are C09 and C16',
    'N05': 'the oracle (product standards) is not available offline and the '
    'outlines are made by shapely at run time; the relations between the '
    'dimensions are C24',
}
