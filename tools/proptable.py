prop('C01', 'Inner moments of a scaled solid scale as length to the degree',
     'Multiplying every length of a solid by a factor s, at fixed mass, multiplies each degree-l inner moment the '
     'generators return by exactly s to the power l. For the generators parameterised by density the same holds '
     'with the density divided by s cubed.',
     'every solid shape with an inner-moment generator, all parameter values, every degree limit, all (l, m)',
     'The tests compare a few moments at one or two parameter sets, often with unit lengths, where a wrong power of a '
     'length is invisible; the law quantifies over all lengths and all degrees.',
     ['newt/qlm.py', 'newt/qlmACH.py', 'newt/qlmNum.py'],
     [('closed forms and recursions of the inner moments', 'newt/qlm.py, newt/qlmACH.py'),
      ('volume integrands and their limits', 'newt/qlmNum.py')],
     [('degree l row', 'row l of the returned array holds the degree-l moments')],
     tech='dimensional (graded) typing by abstract interpretation of each generator',
     note='Every abstract cell of every returned array has its length exponent derived for symbolic degree, order and '
          'loop indices; a cell whose exponent is provably not l, or that provably adds different dimensions, is a '
          'violation. Constants and dimensionless factors are not checked. Trusts the transfer functions for numpy.')
prop('C02', 'Outer moments of a scaled solid scale as length to minus (degree+1)',
     'Multiplying every length of a solid (sizes and distances) by s at fixed mass multiplies each degree-l outer moment '
     'the generators return by exactly s to the power -(l+1). Where the generator takes a density, the density is divided '
     'by s cubed.',
     'every solid shape with an outer-moment generator, all parameter values, every degree limit, all (l, m)',
     'Tests check single parameter values with a tolerance; a missing factor of a length equal or close to one passes.',
     ['newt/bigQlm.py', 'newt/bigQlmNum.py'],
     [('closed forms of the outer moments', 'newt/bigQlm.py'), ('volume integrands', 'newt/bigQlmNum.py')],
     [('degree l row', 'row l of the returned array holds the degree-l outer moments')],
     tech='dimensional (graded) typing by abstract interpretation of each generator',
     note='As C01 with the law -(l+1); exponents exact for symbolic degree and order.')
prop('C03', 'Every moment is directly proportional to mass or density',
     'Every inner and outer moment a generator returns is homogeneous of degree one in the mass (or density) argument: '
     'doubling it doubles every element of the result, for every degree and order.',
     'all generators, all parameter values, all degrees and orders',
     'Most tests use unit mass or density, so a squared or missing factor of it is invisible.',
     GEN, [('mass or density prefactor of each moment', 'all generators')],
     [('moment array', 'element (l, m) carries exactly one factor of mass')],
     tech='graded typing in the mass unit by abstract interpretation',
     note='Mass exponent of every cell derived exactly; level of each result is an exact exponent, additive terms that '
          'lack the mass factor are reported.')
prop('C04', 'Azimuthal orientation enters moments only as a pure phase',
     'Turning a solid by an angle d about the vertical axis through its central-azimuth parameter multiplies each inner '
     'moment (l, m) by exp(-i m d) and each outer moment (l, m) by exp(+i m d), changing nothing else. For annular and '
     'conical sectors the half-opening angle h enters the order-m moment only through its m-th harmonic sin(m h) '
     '(through h itself when m = 0; with the mass rather than the density fixed, through sin(m h)/(m h)).',
     'every generator with a central azimuth, all angles, all degrees and orders',
     'Tests use central azimuth 0 or one angle, and mostly inner moments; the wrong sign or a wrong multiple of the angle '
     'is only visible for general angles and m > 1.',
     ['newt/qlm.py', 'newt/qlmACH.py', 'newt/bigQlm.py'],
     [('phase factor applied to each order', 'newt/qlm.py, newt/qlmACH.py, newt/bigQlm.py')],
     [('order m column', 'column L+m carries the m-th azimuthal harmonic')],
     tech='U(1)-graded typing (phase charge) by abstract interpretation',
     note='The phase charge and the Fourier degree of every cell are derived as polynomials in the order index.')
prop('C07', 'Moments equal the integrals of the solid harmonics over the stated solid',
     'Every inner moment returned by the closed-form generators (qlm, qlmACH) is, at every degree and order, mass divided by '
     'volume (or the density) times the integral of r^l conj(Y_lm) over the solid its docstring describes: its corners, radii, '
     'heights, half widths and position. The same moment comes out at every degree limit that includes it, for every solid '
     'the generator accepts. The numerical generators integrate that harmonic over that solid; outer moments (annulus, '
     'sphere, numerical) integrate r^(-l-1) Y_lm; moments of a cloud of points are the sums over its points.',
     'all degrees and orders, all dimensions and angles of a solid',
     'Tests compare a few moments of a few bodies with a cloud of points at tolerances of a per cent; a wrong coefficient of '
     'a high order, or one multiplying a dimension that is small or symmetric in the test body, is not seen.',
     ['newt/qlm.py', 'newt/qlmACH.py', 'newt/qlmNum.py', 'newt/bigQlm.py', 'newt/bigQlmNum.py', 'newt/pg2Multi.py'],
     [('closed-form generators', 'newt/qlm.py, newt/qlmACH.py, newt/bigQlm.py'),
      ('integrands and limits', 'newt/qlmNum.py, newt/bigQlmNum.py'), ('sums over points', 'newt/pg2Multi.py')],
     [('moments', '(L+1) x (2L+1), order m in column L+m')],
     tech='abstract interpretation with exact sums over loops; symbolic-integral normal forms at every degree up to 8',
     note='The term of every entry is derived for a symbolic degree limit (loops with recurrences: at fixed limits) and compared as a '
          'polynomial in the dimensions with the exact integral. Degrees up to 8 (quick) or 11 (thorough), 5 for the tabulated '
          'generators, polygons of 4 and 5 sides. Integrands of numerical generators are compared with the harmonic at every entry, '
          'their limits with the solid. The tabulated outer annulus is proved by differentiation. A difference is reported with '
          'dimensions at which the terms differ. cylhole and cylhole2 (elliptic integrals) are not decided.')
prop('C08', 'Moments respect the mirror and half-turn symmetries of the solid',
     'Reflecting a solid through the vertical plane that contains the x axis replaces every moment by its complex '
     'conjugate; a half turn about the vertical axis multiplies moment (l, m) by (-1)^m; reflecting it vertically '
     'multiplies it by (-1)^(l+m). This holds for every generator whose parameters can express the reflected solid '
     '(negated side, offset, height, azimuth or position).',
     'every generator with signed geometry parameters, all parameter values, all degrees and orders',
     'Tests exercise one orientation of most solids; a term with a wrong parity is invisible there.',
     GEN, [('signed geometry parameters of the solids', 'all generators')],
     [('parity', 'parity of a moment under the reflection of the solid')],
     tech='Z2-graded (parity) typing by abstract interpretation',
     note='Parities of every cell under conjugation with y-reflection, half turn and z-reflection are derived and '
          'compared with the law; cells whose parity is not derivable are counted undecided.')

ALLGEN = GEN + ['newt/pg2Multi.py']
prop('C05', 'Moments of a real mass distribution are conjugate-symmetric',
     'Every complete set of moments returned for a real mass distribution satisfies q(l, -m) = (-1)^m times the complex '
     'conjugate of q(l, m); in particular q(l, 0) is real, and it is counted once, not doubled by the completion of the '
     'negative orders.',
     'all solids and point clouds, all parameter values, every degree limit, all (l, m)',
     'Tests compare selected non-negative orders; a wrong sign or a missing conjugation at negative orders of one '
     'generator is seen only for odd m and complex moments.',
     ALLGEN, [('completion of negative orders', 'all generators, pg2Multi.qmoments/Qmomentsb/imoments')],
     [('negative order columns', 'columns 0..L-1 hold the negative orders')],
     tech='provenance (linear-form) dataflow over array versions by abstract interpretation',
     note='Each cell of the result is derived as a linear form in cells of the array before completion and their '
          'conjugates; the relation between the forms at m and -m is decided for symbolic l and m.')
prop('C06', 'Moment arrays have the (degree, order) layout',
     'For degree limit L every complete set of moments is a (L+1) x (2L+1) array whose element [l, L+m] is the moment of '
     'degree l and order m; elements with |m| > l stay zero, no subscript leaves the array, and moments of a point cloud '
     'use the spherical harmonic and radial function of exactly that degree and order, whatever points (also one at the '
     'origin) the cloud contains.',
     'all generators, every degree limit, all (l, m), every point cloud',
     'Tests fix L and look at few elements; a wrong degree limit, an off-by-one centre column or a wrong radial degree '
     'shows only for other L.',
     ALLGEN, [('subscripts [l, L+m] of every store', 'all generators')],
     [('moment array', '(L+1) x (2L+1), centre column L is order 0')],
     tech='symbolic shape, subscript and harmonic-degree typing by abstract interpretation',
     note='Shapes and subscripts are polynomials in L and the loop indices; harmonic degree and order are gradings.')

prop('C14', 'Translating moments preserves degree, mass and azimuth laws',
     'Every operation that translates a set of moments by a vector returns a complete (L+1) x (2L+1) set in which each '
     'moment of degree l is linear in the given moments, scales with all lengths like a moment of degree l of the kind '
     'returned (inner: s^l, outer: s^-(l+1)), and keeps the azimuthal phase of its order m when sources and displacement '
     'are turned together about the vertical axis. This holds for every displacement, including zero and purely vertical '
     'ones, or the operation refuses the displacement.',
     'all sets of moments, every degree limit, all displacement vectors',
     'The tests translate one or two solids by particular vectors and compare low degrees; a wrong power of the distance, '
     'a phase that is wrong only off the x axis, or a special displacement returning the wrong kind of moment is not seen.',
     ['newt/translations.py', 'newt/translationRecurs.py'],
     [('Clebsch-Gordan translation sums', 'newt/translations.py'),
      ('rotate - z translate - rotate back, z translation matrices', 'newt/translationRecurs.py')],
     [('translation matrix of order m', 'rows and columns are degrees m..L')],
     tech='graded typing (length, mass, azimuthal charge) of the translation operators by abstract interpretation',
     note='Exponents are polynomials in (l, m) and the loop indices, including the special-displacement paths; the '
          'numerical coefficients are not decided.')
prop('C15', 'Rotating moments mixes orders only, with the exact z-angle phases',
     'The element (m1, m2) of a degree-l rotation matrix depends on the two vertical-axis Euler angles alpha and gamma '
     'only through the factor exp(-i (m1 alpha + m2 gamma)), and one (2l+1) x (2l+1) matrix is supplied for every degree '
     'up to the limit. Rotating a set of moments computes every moment of every degree '
     'from moments of the same degree only, linearly, contracting each order with the matching matrix index; when asked '
     'for the inverse rotation, with the conjugate-transposed matrix.',
     'all sets of moments, every degree limit, all Euler angles',
     'Tests rotate by a few angles at low degree and mostly check real, symmetric shapes, where swapped alpha and gamma, '
     'a transposed or unconjugated matrix or a skipped degree is invisible.',
     ['newt/rotations.py'],
     [('phase factors and application of the matrices', 'newt/rotations.py')],
     [('list of matrices', 'entry l is the matrix of degree l, index l is order 0')],
     tech='phase-charge and contraction typing by abstract interpretation',
     note='The charge of every matrix entry in both angles and the pairing of contracted indices are derived for symbolic '
          'degree; the real matrix of the middle rotation is not decided (its recursion is numerical).')
prop('C11', 'Point-to-point forces and torques obey the force laws',
     'The force a set of points exerts on a point or set of points is proportional to each body\'s masses and to the '
     'gravitational constant (for Yukawa also to alpha), falls by s^-2 when every length, the Yukawa range included, is '
     'multiplied by s (torques by s^-1), depends on the separations only (moving everything together changes no force), '
     'points along the separation towards the attracting body, and is reflected with the bodies in every coordinate '
     'plane. Every point of either set contributes exactly once. The torque about the origin is the sum over points of '
     'the point\'s position crossed with the force on that same point. Single points and sets of points obey the same '
     'laws.',
     'all point masses and sets of point masses, all couplings and ranges',
     'Tests check a few symmetric configurations, mostly along one axis with G or masses one; a wrong power, a sign, a '
     'torque taken with the total force or a skipped point shows only in general position.',
     ['newt/glib.py', 'newt/constants.py'],
     [('pair forces', 'newt/glib.py gmmr2_array, yukawa_array'),
      ('sums over points and lever arms', 'newt/glib.py point_matrix_gravity, point_matrix_yukawa')],
     [('point row', '[mass, x, y, z]')],
     tech='graded (unit, parity, provenance) typing of the force functions by abstract interpretation',
     note='Exponents in both masses, G, alpha and length, the three reflection parities, the set of coordinates each '
          'component depends on, the sign of the separation and the lever arm, and the rows read are derived for sets of '
          'unknown size; the terms of every component are also compared exactly with the force law, pure numbers included. '
          'The value of BIG_G is not decided.')
prop('C12', 'Moving point clouds is a rigid motion that keeps masses and rows',
     'Translating a point or a set of points adds the given vector to every position. Rotating turns every position by the '
     'given angle, counter-clockwise about the given axis through the origin, whatever the length of the axis vector and '
     'for every angle. Either way the result has the same rows in the same order with every mass unchanged, and a single '
     'point is moved like a row of a set.',
     'all points and sets of points, all vectors, axes and angles',
     'Tests turn a few points by special angles about coordinate axes, where a transposed matrix, a missing '
     'normalisation or a wrong half-angle term can cancel.',
     ['newt/glib.py'],
     [('translation and Rodrigues rotation', 'newt/glib.py translate_point_array, rotate_point_array')],
     [('point row', '[mass, x, y, z]')],
     tech='value analysis of every returned column in a term domain (polynomials over roots, sines, cosines)',
     note='The term of each column at a generic row is derived by abstract interpretation and compared with the rigid '
          'motion in normal form; a special-case path that is only reached under an equality is decided under it, one '
          'with a condition outside the domain is left undecided. Floating-point rounding is not considered.')
prop('C13', 'Multipole torques and forces are the stated series over all degrees and orders',
     'The torque moments of inner moments q and outer moments Q are -4 pi i G m/(2l+1) q_lm Q_lm at every degree and order up '
     'to LMax; their cosine and sine amplitudes at order m are the sum and the difference of the total at +m and -m. The '
     'torque at an angle is the Fourier series of those amplitudes, running backwards when the outer body turns. torque() with '
     'a displacement and Euler angles is the same as translating the moments along that displacement (as inner to inner, inner '
     'to outer or outer to outer) and rotating them by those angles first, whatever the direction of the displacement (on the '
     'z axis or not, zero or not). The force is the sum over all pairs of degrees and orders of the moments times the '
     'derivative along x, y or z of the solid harmonics at the displacement, for every displacement including zero.',
     'all moments, every maximum degree, all displacements and angles',
     'Tests use a few point configurations at a small degree along one axis; an entry of a high degree or order, or a '
     'direction of the displacement, is sampled or not at all.',
     ['newt/multipoleLib.py'],
     [('torque series', 'newt/multipoleLib.py torque_lm, torques_at_angle'),
      ('force series and its basis', 'newt/multipoleLib.py multipole_force, force_basis'),
      ('displaced torque', 'newt/multipoleLib.py torque')],
     [('moments', '(L+1) x (2L+1), order m in column L+m')],
     tech='abstract interpretation in a term domain with exact sums over loops, recurrences of array contents and uninterpreted operators',
     note='For a symbolic maximum degree: every entry of the torque moments, the loop sums of the force, one pass of the basis '
          'recurrence and the orders written, and the chain of operations torque() applies are derived as terms and compared '
          'in normal form with the law (a difference is shown by values at which the terms differ). The recurrences of the law are those '
          'of the solid harmonics; convergence and rounding are not considered; multipole_force_m is not decided.')
prop('C10', 'Operations leave their arguments unchanged and return new arrays',
     'No operation of the toolkit changes an array, list or object it is given: moment sets, point arrays, rotation and '
     'translation matrices, vectors and angles are the same after the call as before. The array it returns is a new one that '
     'shares no memory with an argument, also in special cases (zero displacement, equal degree limit, no rotation), and '
     'no argument is kept to be used by a later call. Only the methods of shapes that move or rotate the shape '
     'change the shape itself.',
     'every public function of the toolkit, all arguments, all paths',
     'Tests compare results; an argument that is overwritten or returned shows only when the caller uses it again, and '
     'only on the path that does it.',
     ['newt/rotations.py', 'newt/translations.py', 'newt/translationRecurs.py', 'newt/multipoleLib.py', 'newt/glib.py',
      'newt/pg2Multi.py', 'newt/glibShapes.py', 'newt/gShapeGL.py', 'newt/shapes.py', 'newt/read_multiFor.py'] + GEN,
     [('public functions', 'all modules of newt except genCAD and examples')],
     [('moment sets, point arrays', 'passed by reference')],
     tech='flow-sensitive interprocedural ownership and effect analysis (points-to, views, summaries)',
     note='Every store, in-place operator, out= argument and mutating method is traced to the object it may change, through '
          'views, aliases and calls; the object every result may share memory with is derived per path. A call of unknown '
          'code is taken to leave its arguments alone.')
prop('C23', 'Results depend only on the arguments, never on earlier calls',
     'Calling a function of the toolkit twice with the same arguments gives the same result, whatever was called before or '
     'in between: no value kept from an earlier call (a module variable, a default argument, a cache with an incomplete key) '
     'enters a result, an array that was returned is not reused by a later call, nothing is random except '
     'spherical_random_shell, and no setting of the process (numpy error handling, random seed, working directory) is '
     'left changed.',
     'every public function of the toolkit, all histories of calls',
     'Tests call each function in a fresh state with one set of arguments; a stale cached value needs a second call with '
     'other arguments.',
     ['newt/rotations.py', 'newt/translations.py', 'newt/translationRecurs.py', 'newt/clebschGordan.py',
      'newt/multipoleLib.py', 'newt/glib.py', 'newt/pg2Multi.py', 'newt/glibShapes.py', 'newt/gShapeGL.py',
      'newt/shapes.py', 'newt/genCAD.py', 'newt/read_multiFor.py'] + GEN,
     [('functions and module state', 'all modules of newt')],
     [('module variables', 'constants after import')],
     tech='interprocedural effect and dependence analysis of kept state',
     note='Every write inside a function to an object that outlives the call is found; what was kept must be determined by '
          'its key, must not be handed out as a mutable array, and must not reach a result otherwise.')
prop('C22', 'Clebsch-Gordan coefficients are exact',
     'For integer j1, j2, J >= 0 and integer m1, m2, M, cgCoeff and cgCoeff2 return the Clebsch-Gordan coefficient '
     '<j1 j2; m1 m2 | J M> with the Condon-Shortley phase, also for negative M. It is zero when M differs from m1+m2, when '
     'an order exceeds its degree, and when J lies outside |j1-j2|..j1+j2.',
     'all integer quantum numbers',
     'Tests look up a handful of coefficients; a wrong summation limit, factorial or symmetry sign appears only at particular '
     'combinations.',
     ['newt/clebschGordan.py'],
     [('Racah sum', 'newt/clebschGordan.py cgCoeff, cgCoeff2')],
     [('quantum numbers', 'integers')],
     tech='abstract interpretation in a term domain with exact finite sums, compared with the Racah formula at integers',
     note='One term per path is derived for symbolic quantum numbers, with the path condition; terms and conditions are '
          'evaluated exactly at all j1, j2 up to 3 (quick) or 5 (thorough). Larger ones are covered only as far as '
          'the same term is used; rounding and overflow are not considered.')
prop('C16', 'Translated moments are exactly those of the displaced masses',
     'Moving a body by a displacement and translating its moments agree at every degree and order: the inner moments after '
     'translate_qlm equal those computed about the origin for the displaced masses; the outer moments after translate_Qlmb '
     'are those of the displaced source, as far as the degrees given determine them (the addition-theorem series cut at the '
     'given degree limit); translate_q2Q gives the outer moments of a body with the given inner moments placed at a nonzero '
     'displacement, with the same cut. This holds for the translations by coupling coefficients (translations.py) and for those by rotation and '
     'coaxial translation (translationRecurs.py), for displacements along any direction, including both directions of the z axis. '
     'The coaxial matrices are the exact ones for any positive distance, and every matrix is applied to the moments of all '
     'its degrees and orders.',
     'all degree limits, degrees, orders and displacements',
     'Tests compare a few translated point sets with clouds along one or two directions; a wrong coefficient between one pair '
     'of degrees and orders, a direction octant or a degree above those of the tests is not seen.',
     ['newt/translations.py', 'newt/translationRecurs.py', 'newt/rotations.py'],
     [('coupled translations', 'newt/translations.py'), ('coaxial translations', 'newt/translationRecurs.py'),
      ('application of rotation matrices', 'newt/rotations.py rotate_qlm, rotate_qlm_Ds, rotate_qlm_Ds_right')],
     [('moments', '(L+1) x (2L+1), order m in column L+m')],
     tech='abstract interpretation in a term domain, compared exactly with the addition theorems of solid harmonics at fixed degrees',
     note='The coefficient of every given moment in every translated moment is extracted from the derived term and compared '
          'for a symbolic displacement (L up to 3 quick, 4 thorough, and by values around integers the code compares degrees with); the '
          'turn-shift-turn chain is followed as rotations of space. The angles of the rotation matrices are C15; rounding is not considered.')
prop('C24', 'Rotation matrices are the Wigner matrices of the Euler angles',
     'For every degree and all Euler angles, wignerDl, dlmn, Dl and Dlmn give the exact matrix that turns inner moments the way '
     'the masses turn: gamma about z, then beta about y, then alpha about z, rows by new and columns by old order. '
     'This holds for beta beyond half a turn and below zero too. The lists contain one matrix of 2l+1 rows per degree l from 0 to the '
     'limit, also for a limit of zero.',
     'all degree limits, degrees, pairs of orders and angles',
     'Tests compare low degrees at one or two angles below half a turn; a wrong recursion coefficient at one pair of orders, or '
     'a sign beyond half a turn, is not seen.',
     ['newt/rotations.py'],
     [('recursion of the matrices', 'newt/rotations.py rotate_H_recurs'), ('signs and phases', 'newt/rotations.py dlmn, wignerDl'),
      ('explicit sum', 'newt/rotations.py Dlmn, Dl')],
     [('matrix list', 'element l is the (2l+1) x (2l+1) matrix of degree l')],
     tech='abstract interpretation in a term domain, compared exactly with the Wigner matrices at fixed degrees',
     note='Each matrix element is a term in the sine and cosine of beta and the phases of alpha and gamma, for each sign of sin(beta); '
          'equality with the Wigner formula is exact. Degree limits 0 to 4 (quick) or 7 (thorough); numpy rounding and '
          'overflow at high degree are not considered.')
prop('C17', 'Point clouds fill exactly the solid they stand for',
     'Every point cloud of glibShapes and gShapeGL represents its solid at any size and resolution: the grid or the Gauss-Legendre '
     'nodes along each axis have the given number of points and cover the extent of the solid (equal cells centered on the '
     'solid), a grid point is kept exactly if it lies inside the solid, every kept point has one row of its own [m, x, y, z] and '
     'no row is empty, and the masses are equal (products of the weights of the nodes for gShapeGL) and sum to the given mass. '
     'spherical_random_shell places equal masses evenly on the sphere; cart_2_cyl and cyl_2_cart convert each row exactly, with '
     'azimuths in [0, 2 pi).',
     'all sizes, opening angles, grids and numbers of points',
     'Tests compare the force at one distance for one size of each solid, mostly with equal lengths and equal numbers of points, '
     'to per cents; a grid centered or cut off for other sizes, angles or numbers is not seen.',
     ['newt/glibShapes.py', 'newt/gShapeGL.py'],
     [('grids and membership', 'newt/glibShapes.py'), ('Gauss-Legendre nodes and weights', 'newt/gShapeGL.py')],
     [('point cloud', 'n x 4 array, rows [m, x, y, z]')],
     tech='abstract interpretation in a term domain; derived positions, conditions and masses compared with the solid',
     note='Positions, path conditions and masses are derived for symbolic sizes, angles, numbers and grid indices; the derived terms '
          'are compared with the inequalities of the solid at sampled sizes and positions (points within rounding of a face '
          'say nothing). How well a cloud approximates the solid is C32.')
prop('C18', 'Moment and command files give the moments of the bodies they state',
     'read_mpc returns the sum of the bodies added by its commands: each created body is the stated solid with lengths in the unit '
     'in force (cm unless inches are chosen), mass equal to density in g/cm^3 times volume, placed at the stated position; rotate '
     '(degrees), translate (unit in force), load, gettotal, puttotal and zeroqlm act on the working or total register as their '
     'names say, in the order of the file, up to its end; comments, unknown shapes and nsteps change nothing. read_gsq and '
     'read_gbq put every stored moment in its place, complete negative orders by conjugation, and read_gsq converts g cm^l to kg m^l.',
     'all shapes, sizes, densities, units, positions and orders of commands',
     'Tests read one file per shape, almost all in cm, at the origin, without rotation, translation, registers or a second body; '
     'what those commands do is not tested at all.',
     ['newt/read_multiFor.py'],
     [('command loop and shapes', 'newt/read_multiFor.py read_mpc'), ('moment files', 'newt/read_multiFor.py read_gsq, read_gbq')],
     [('command file', 'title line, then commands; create is followed by lines of dimensions, density and position'),
      ('moment file', 'degree limit in the second line, moments from line 10, orders 0..l of each degree')],
     tech='abstract interpretation of the reader on command files with symbolic numbers; derived sum of bodies compared with the stated one',
     note='Command files of a family covering each shape, unit and command are read with symbolic sizes and densities; the result is '
          'derived as a sum of bodies under rigid motions (generators and motions are opaque here: C07, C15, C16) and compared at '
          'sampled sizes. A body built by another generator is undecided. Cones with an upper radius are a known finding.')
prop('C21', 'Changing the degree limit of moments keeps every moment in its place',
     'embed_qlm(q, LNew) returns a complex (LNew+1) x (2 LNew+1) array: the element of degree l and order m is that of q for every '
     'l up to both limits, and zero above the old limit; for a negative limit it returns 0.',
     'all old and new degree limits, all moments',
     'Tests embed one array from one limit to another; orders shift by the difference of the limits, and a row or column lost or '
     'moved for other limits is not seen.',
     ['newt/multipoleLib.py'],
     [('truncation, copy and embedding', 'newt/multipoleLib.py embed_qlm')],
     [('moment array', '(L+1) x (2L+1), order m in column L+m')],
     tech='abstract interpretation with symbolic degree limits and symbolic degree and order; small limits element by element',
     note='Every path is decided for symbolic limits where the general element is derivable; every pair of limits up to 5 (quick) or '
          '8 (thorough) is decided element by element. Places with |m| > l carry no moment and are not compared.')
prop('C19', 'Shape objects keep moments, centre, mass and mesh of one body',
     'Every class of newt.shapes starts as the stated solid with the stated mass: moments (inner, or outer for Annulus, Sphere and '
     'OuterCone) of that solid and mass, com its centre of mass, mesh that solid (pmass: the mass is positive), lmax and inner as '
     'given. rotate, translate and add keep all of them those of one body: rotate turns moments, com and mesh by the same Euler '
     'angles, translate moves all by the same vector (inner moments to inner or outer ones, outer to outer), add gives the moments, '
     'mass and centre of mass of the bodies together at the highest degree limit, with a mesh that joins positive masses and cuts '
     'negative ones. The shapes added are left alone, and a refused operation (outer to inner, mixed add) changes nothing.',
     'all classes, dimensions, masses, degree limits, angles and displacements; any sequence of operations',
     'No test touches newt.shapes; consistency must hold after every sequence of operations.',
     ['newt/shapes.py', 'newt/genCAD.py'],
     [('constructors', 'newt/shapes.py subclasses of Shape'), ('operations', 'newt/shapes.py Shape.rotate, translate, add'),
      ('meshes', 'newt/genCAD.py')],
     [('generators', 'moments computed for the mass or density and dimensions given (C07)'),
      ('rotations, translations and embed_qlm', 'as decided by C15, C16 and C21')],
     tech='abstract interpretation of the classes over symbolic dimensions, angles and vectors; object state compared with that of one moved body',
     note='Constructors and 20 histories of operations are interpreted with symbolic dimensions; moments (as generators under rigid motions), '
          'mass, centre and limits are compared as terms, the drawing steps of meshes as point sets, at sampled dimensions; nothing of '
          'the repository is run. Histories outside the family are covered by the operations being decided one by one.')
prop('C20', 'Meshes are the stated solids, and moving or summing them is rigid',
     'Each mesh function of newt.genCAD (sphere, cylinder, annulus, cone, tri_iso_prism, tri_iso_prism2, tri_prism, rect_prism, '
     'ngon_prism, tetrahedron, tetrahedron2, pyramid, cylhole, platehole, outercone) draws exactly the solid its docstring states, the '
     'same solid the moment generators of that name use, and keeps pmass. translate_mesh and rotate_mesh return the mesh moved by '
     'the vector, or turned by the z-y-z Euler angles as rotate_qlm turns moments, with its pmass, leaving the mesh given alone; '
     'sum_mesh joins meshes of positive mass to the first one and cuts those of negative mass; save_stl writes the mesh, or the sum '
     'of a list of meshes, to name.stl.',
     'all dimensions in the documented domains, all angles and displacements',
     'No test draws a mesh; the solid must be right for every size and azimuth.',
     ['newt/genCAD.py'],
     [('mesh functions', 'newt/genCAD.py'), ('motions and sums', 'newt/genCAD.py translate_mesh, rotate_mesh, sum_mesh, save_stl')],
     [('cadquery', 'sketches, extrude, revolve, boolean operations as documented by cadquery (modelled in sa/models/cadquery.py)')],
     tech='abstract interpretation to the sequence of drawing steps; the solid they make compared with the stated one',
     note='The drawing steps derived from the source (planes, wires, extrusions, revolutions, boolean operations) are given their '
          'geometric meaning and compared with the stated solid at points all over and next to both surfaces, for sampled dimensions.')
prop('C30', 'Translations compose and invert up to the degree cut',
     'Translating outer moments there and back returns the given moments up to the error of the degree cut, which falls as a power '
     'of the ratio of displacement to distance.',
     'all degree limits, moments and displacements',
     'The error depends on the size of all degrees cut away.',
     ['newt/translations.py', 'newt/translationRecurs.py'],
     [('translations of moments', 'newt/translations.py, newt/translationRecurs.py')],
     na='The size of a truncation error is a runtime quantity: it depends on the moments above the limit, which the program never '
        'holds. The exact part (each coefficient up to the cut) is claimed as C16.')
prop('C31', 'Multipole forces and torques converge to those of the point masses',
     'As the degree limit grows, forces and torques from moments converge to the sums of the Newtonian forces and torques between '
     'the point masses, with error falling as a power of the ratio of the radii.',
     'all bodies whose radii do not overlap',
     'Convergence concerns all degrees and all pairs of bodies.',
     ['newt/multipoleLib.py', 'newt/glib.py'],
     [('multipole sums', 'newt/multipoleLib.py'), ('point sums', 'newt/glib.py')],
     na='Convergence is a limit over the degree of floating-point sums; no static bound on the remainder is in reach. The two '
        'sides are decided separately: each term of the multipole sums in C11 and C13, the pairwise laws in C12.')
prop('C32', 'Point clouds converge to the solids they stand for',
     'The moments of the point clouds of glibShapes and gShapeGL approach those of the solid as the grid or the number of nodes grows.',
     'all solids, sizes and grids',
     'Convergence concerns arbitrarily fine clouds.',
     ['newt/glibShapes.py', 'newt/gShapeGL.py'],
     [('grids', 'newt/glibShapes.py'), ('Gauss-Legendre nodes', 'newt/gShapeGL.py')],
     na='The number of points selected by inequalities on a grid, and the error of quadrature, are runtime quantities '
        'without a static bound in reach. Which points are kept, and with which masses, is claimed as C17.')
prop('C33', 'Recursions keep their accuracy at high degree',
     'Recursively computed moments, rotation matrices and translation matrices keep a small relative rounding error at the degrees '
     'documented as usable.',
     'all degrees up to the documented limits',
     'Loss of accuracy appears only at degrees and arguments the tests do not reach.',
     ['newt/qlm.py', 'newt/bigQlm.py', 'newt/rotations.py', 'newt/translationRecurs.py'],
     [('recursions in the degree', 'all generators, rotations and coaxial translations')],
     na='Growth of rounding errors in float recursions with symbolic degree needs numerical error analysis of each recursion; no '
        'sound static bound is in reach. The recursions are decided over exact numbers by C07, C16 and C24.')
