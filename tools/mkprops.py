import json
P = []
def p(id, title, st, over, qtext, why, files, mech, **kw):
    a = {'files': files, 'mechanism': [{'name': n, 'where': w} for n, w in mech]}
    a.update(kw)
    P.append(dict(id=id, title=title, statement=st, quantifier={'over': over, 'text': qtext}, why_tests_cant=why, anchors=a))

I, C, H, S = 'inputs', 'configurations', 'histories', 'schedules'
p('C01', 'Coordinate transforms are exact rigid motions that invert and compose',
  'Expressing points or rays in another coordinate system never changes the physical points and directions: coordinates follow from the two systems\' origins and rotations, distances, angles and all non-geometric ray data are kept, and going there and back is the identity. '
  'Shifting and rotating a coordinate system (globally, locally, or about a given centre expressed in a given system) produces exactly the composed rigid motion. Array, scalar and ray-bundle forms agree.',
  [I, C], 'all points, directions, shifts and rotation matrices; chains of shift/rotate operations up to 3',
  'Tests sample random systems; agreement for every rotation, centre and nesting order is an algebraic identity that sampling cannot settle.',
  ['batoid/coordSys.py', 'batoid/coordTransform.py', 'src/batoid.cpp', 'batoid/trace.py'],
  [('CoordSys.shift*/rotate*', 'batoid/coordSys.py'), ('CoordTransform', 'batoid/coordTransform.py'), ('applyForward/ReverseTransform', 'src/batoid.cpp')])
p('C02', 'Surface normals are unit, upward and perpendicular to the surface',
  'At every point where a surface height is defined, the reported normal has unit length, positive z component, and is perpendicular to both tangent directions given by the derivatives of the reported height. '
  'This holds for every surface type and for sums of surfaces; array and scalar queries agree element by element for any shape and memory layout.',
  [I, C], 'all points in the domain and all surface parameters; polynomial surfaces up to Noll index 21, two even-asphere coefficients, sums of up to 3 surfaces',
  'Tests compare a few random points and parameters with finite differences or restated formulas (the tilted-plane test restates the wrong formula).',
  ['src/quadric.cpp', 'src/sphere.cpp', 'src/asphere.cpp', 'src/paraboloid.cpp', 'src/tilted.cpp', 'src/sum.cpp', 'src/polynomialSurface.cpp', 'src/bicubic.cpp', 'batoid/surface.py'],
  [('normal()', 'src/*.cpp'), ('Surface.normal', 'batoid/surface.py')])
p('C03', 'Intersection lands on both the surface and the ray, or is flagged as failed',
  'Intersecting a ray with a surface either marks the ray failed and vignetted or moves it along its own direction to a point whose height equals the surface height there, advancing its time by distance over speed and leaving direction, wavelength and flux unchanged. '
  'A ray whose line does meet the surface is not marked failed, and when the line meets a conic twice the branch through the vertex is the one reported.',
  [I, C], 'all ray positions, directions, speeds and times, all surface parameters; one Newton step from an arbitrary state for iterated surfaces',
  'Tests intersect well-behaved rays near the vertex; discriminant, branch-selection and degenerate-coefficient cases need values chosen by a solver.',
  ['src/batoid.cpp', 'src/surface.cpp', 'src/quadric.cpp', 'src/sphere.cpp', 'src/paraboloid.cpp', 'src/asphere.cpp', 'src/plane.cpp', 'src/tilted.cpp', 'src/sum.cpp'],
  [('timeToIntersect', 'src/*.cpp'), ('intersect', 'src/batoid.cpp')])
p('C04', 'Reflection obeys the law of reflection',
  'After reflection off any surface the ray keeps its speed, its component along the surface normal at the hit point is reversed and its tangential component is unchanged, whichever side it came from. '
  'Position, time and failure state are exactly those of intersecting with the same surface, and flux changes only by the coating reflectivity.',
  [I, C], 'all incoming rays, all tangent planes and hit points, any coordinate system, with and without coating',
  'Tests check random rays on a few fixed surfaces.', ['src/batoid.cpp', 'batoid/trace.py', 'batoid/surface.py'],
  [('reflect', 'src/batoid.cpp')])
p('C05', 'Refraction obeys Snell\'s law; total internal reflection fails the ray',
  'After refraction the ray lies in the plane of incidence on the far side of the surface with n1 sin(theta1) = n2 sin(theta2), and its speed is the reciprocal of the outgoing index at its own wavelength, whichever side it came from. '
  'If no refracted direction exists the ray is failed and vignetted; otherwise it is not. Position and time are those of the intersection.',
  [I, C], 'all incoming rays, tangent planes, index pairs (either greater), any coordinate system',
  'Tests use fixed media and random directions that rarely approach or pass the critical angle.', ['src/batoid.cpp', 'batoid/trace.py', 'src/medium.cpp'],
  [('refract', 'src/batoid.cpp')])
p('C06', 'Splitting rays agrees with reflecting and refracting, and shares flux by coating',
  'Splitting a bundle at an interface yields one bundle equal in geometry, time and failure state to the reflected rays and one equal to the refracted rays, with flux multiplied by the coating\'s reflectance and transmittance respectively. '
  'Both outputs keep wavelength and coordinate system and share no storage with each other.',
  [I, C], 'all rays, tangent planes, index pairs and coating coefficients, including total internal reflection and missed surfaces',
  'Tests compare a handful of geometries without total internal reflection or failures.', ['src/batoid.cpp', 'batoid/trace.py', 'batoid/surface.py', 'batoid/optic.py'],
  [('rSplit', 'src/batoid.cpp'), ('rSplit', 'batoid/trace.py')])
p('C07', 'Failed and vignetted rays stay so, and dead rays are never altered',
  'No propagation or interaction ever clears a failed or vignetted flag, a ray that becomes failed is also vignetted, and an already failed ray keeps all its numerical data through every surface interaction. '
  'A ray left unfailed by an interaction never carries undefined position or direction if it came in finite.',
  [I, C, H], 'all rays with arbitrary flags through each kind of interaction and through two-surface sequences',
  'Flags interact with every kernel and input combination; tests cover few combinations.', ['src/batoid.cpp', 'src/rayVector.cpp'],
  [('failptr/vigptr updates', 'src/batoid.cpp')])
p('C08', 'Rays of a bundle never affect each other, under any threading',
  'The result for each ray of a bundle equals the result of processing that ray alone, for every bundle operation, in any position of the bundle. '
  'Loop iterations executed by different threads never touch a common location that either writes, so the result does not depend on thread count or schedule.',
  [S, I], 'bundles of up to 3 rays; every pair of distinct loop iterations of every parallel kernel',
  'A data race or cross-ray leak shows only under particular schedules or ray orders.', ['src/batoid.cpp', 'src/rayVector.cpp'],
  [('omp parallel for loops', 'src/batoid.cpp, src/rayVector.cpp')])
p('C09', 'Obscurations mean exactly their geometric region and Boolean combination',
  'Each obscuration contains precisely the points of its documented shape (circle, annulus, rectangle and beam with rotation, half plane), and negation, union and intersection behave as Boolean complement, or and and at every point. '
  'Applying an obscuration vignettes exactly the rays whose local x,y lie in it, clears no flag and changes nothing else; clear variants are complements.',
  [I, C], 'all points, centres, sizes and rotation angles; Boolean nests up to depth 3',
  'Tests draw random points; boundaries, rotations and nests are not exhausted.', ['src/obscuration.cpp', 'batoid/obscuration.py', 'src/batoid.cpp', 'batoid/optic.py'],
  [('contains', 'src/obscuration.cpp'), ('obscure', 'src/batoid.cpp')])
p('C10', 'Polygon obscurations agree with even-odd containment, pointwise and on grids',
  'A polygon contains a point exactly when a ray from the point crosses its boundary an odd number of times, independently of which vertex is listed first or the traversal direction. '
  'Querying a grid of points gives for every grid node the same answer as querying that point alone, for any grid size and shape.',
  [I], 'polygons of up to 5 vertices (all positions in general position), grids up to 3x3',
  'The grid routine uses an incremental scan whose mistakes need particular vertex/grid orderings.', ['src/obscuration.cpp', 'batoid/obscuration.py'],
  [('ObscPolygon::contains', 'src/obscuration.cpp'), ('ObscPolygon::containsGrid', 'src/obscuration.cpp')])
p('C11', 'Refractive media return the documented index for every wavelength',
  'Constant, Sellmeier, Sumita, air and tabulated media return the documented dispersion formula (or linear interpolation through the table points) at every wavelength, the same for scalar and array queries. '
  'Outside a table\'s wavelength range the result is undefined (NaN), never an extrapolated or stray value.',
  [I, C], 'all wavelengths and coefficients; tables of 2 to 4 entries with any increasing abscissae, interior, on and outside the nodes',
  'Tests compare a few wavelengths; table edges, nodes and input types are not covered.', ['src/medium.cpp', 'src/table.cpp', 'batoid/medium.py'],
  [('getN', 'src/medium.cpp')])
p('C12', 'Bicubic surfaces interpolate their grid smoothly and consistently',
  'A gridded surface passes through every grid height with the given slopes, its height and slope are continuous across cell boundaries, reproduces exactly any surface that is bicubic on the grid, and its normal is that of the interpolant. '
  'Outside the grid the result is zero or NaN according to the chosen policy, for heights and normals alike.',
  [I, C], 'grids from 2x2 to 4x4 with free heights, slopes, twist, spacing and origin; all points inside, on edges and outside',
  'Tests check smooth functions at random interior points.', ['src/table.cpp', 'src/bicubic.cpp', 'batoid/surface.py'],
  [('Table::eval/grad', 'src/table.cpp'), ('Bicubic.__init__', 'batoid/surface.py')])
p('C13', 'Polynomial surfaces evaluate the Zernike series they are given',
  'A Zernike surface has at each point the height given by the documented series about its origin with the documented normalisation radius and central obscuration, and an even asphere adds exactly its listed even powers starting at the stated order. '
  'Coefficient zero has no effect, trailing zeros do not matter, and adding surfaces adds heights.',
  [I, C], 'all coefficients up to Noll index 21, all points and origins; even aspheres with up to 3 coefficients and starting order 1 to 3',
  'Tests compare against the same library at random points with few coefficient counts.', ['src/polynomialSurface.cpp', 'src/asphere.cpp', 'src/sum.cpp', 'batoid/surface.py'],
  [('horner2d', 'src/polynomialSurface.cpp'), ('Asphere::sag', 'src/asphere.cpp')])
p('C14', 'Ray position, propagation, phase and amplitude follow the plane-wave model',
  'A ray\'s position at time t is its position plus velocity times elapsed time, propagation moves it there and only changes position and time; propagating twice equals propagating once. '
  'Phase at (r,t) equals 2 pi/(wavelength) times optical path difference, amplitude is its unit complex exponential and the summed amplitude is the flux-weighted sum over non-failed, and unless asked otherwise non-vignetted, rays.',
  [I], 'all rays, points and times; bundles of up to 3 rays with all flag combinations',
  'Tests check random values; flag combinations and order of summation are sampled.', ['src/rayVector.cpp', 'batoid/rayVector.py'],
  [('positionAtTime, propagateInPlace, phase, amplitude, sumAmplitude', 'src/rayVector.cpp')])
p('C15', 'Ray bundles behave as value containers',
  'Indexing, slicing, masking, iterating, copying and concatenating a bundle yield exactly the selected rays with every field preserved, negative indices count from the end and out-of-range ones raise an error. '
  'Copies are independent of the original, equality compares every field elementwise and includes size and coordinate system, and equal bundles have equal hashes and survive pickling.',
  [I, H], 'bundles of up to 4 rays with free fields; all integer indices, slices and masks within range',
  'Index arithmetic at the edges (most negative indices, empty selections) is not exercised.', ['batoid/rayVector.py', 'src/rayVector.cpp', 'src/dualView.cpp'],
  [('__getitem__/__eq__/copy/concatenate', 'batoid/rayVector.py')])
p('C16', 'Ray factories build the requested wavefront',
  'Rays made from a grid, polar or spiral layout, from a stop, or from a far or finite source all share the requested direction (or meet at the source point), have speed one over the index and the requested wavelength, pass through the requested pupil points, and start on a common wavefront: equal time on a plane perpendicular to the direction or equal optical path from the source. '
  'Factories do not modify the arrays passed in and reject contradictory arguments with an error.',
  [I, C], 'all field angles or directions, back distances, pupil points, indices and source positions; layouts of a few rays',
  'Tests check some combinations of arguments at random angles.', ['batoid/rayVector.py', 'batoid/utils.py', 'src/batoid.cpp'],
  [('asGrid/asPolar/asSpokes/fromStop/fromFieldAngles/_finish', 'batoid/rayVector.py')])
p('C17', 'Field-angle projections are unit, invertible and mutually consistent',
  'Every projection maps field angles to unit direction cosines with negative z, maps the field centre to the optical axis, keeps azimuth, and its inverse returns the original angles throughout its documented domain. '
  'The generic dispatcher equals the named projections and angles already in range are unchanged by normalisation.',
  [I], 'all field angles in each projection\'s domain (polar form of the projection)',
  'Tests sample random small angles.', ['batoid/utils.py'],
  [('postelToDirCos, gnomonicToDirCos, ... and inverses', 'batoid/utils.py')])
p('C18', 'Tracing an optical system is the in-order composition of its elements',
  'Tracing a compound system gives the same rays as applying each non-skipped element once in order, reverse tracing applies them in reverse order with media exchanged, and tracing along an explicit path of names applies exactly those elements. '
  'The full trace records for every element visited, without losing repeated visits, the rays entering and leaving it, and its last output equals the plain trace. Forward then reverse tracing through mirrors or lenses returns each surviving ray to its original line.',
  [I, C], 'all rays and plane/tilted surface systems of up to 3 elements, nested one level, with skip flags and repeated visits',
  'Tests run particular telescopes; skip, reverse, nested and revisited elements are sampled.', ['batoid/optic.py'],
  [('CompoundOptic.trace/traceFull/tracePath/traceSplit', 'batoid/optic.py')])
p('C19', 'Moving parts of an optic is exact, local and leaves the original alone',
  'Shifting or rotating an optic moves every contained coordinate system by exactly that rigid motion (globally, locally, or about a given centre) and changes nothing else; moving a named component moves that component and its descendants only, however deep it is nested and whatever prefixes names share. '
  'The original system is unchanged and surfaces, media, obscurations and names are carried over.',
  [I, C], 'all shifts and rotation matrices, nested systems of depth up to 3, names with shared prefixes',
  'Tests move parts of particular systems.', ['batoid/optic.py', 'batoid/coordSys.py'],
  [('withGlobalShift/withLocallyShiftedOptic/withLocallyRotatedOptic/...', 'batoid/optic.py')])
p('C20', 'Component lookup, insertion and removal address exactly the named component',
  'Looking up a component by full or unambiguous short name returns that component, ambiguous or unknown names raise an error, and the listing of names covers every component once. '
  'Inserting before or after a named item and removing or replacing one changes exactly that position, at any depth, leaving everything else equal and the original untouched.',
  [C], 'tree shapes up to depth 3 and width 3 with symbolic choice of names, including names sharing prefixes',
  'Tests cover one or two trees.', ['batoid/optic.py'], [('itemDict, __getitem__, withInsertedOptic, withRemovedOptic', 'batoid/optic.py')])
p('C21', 'Equality, hashing, pickling and repr respect value semantics',
  'Two surfaces, media, coatings, obscurations, coordinate systems or optics built from equal parameters are equal, have equal hashes, and any single differing parameter makes them unequal (for optics: kind, surface or parts, screen, obscuration, name, media and frame). '
  'Later changes to arrays passed in do not reach an object. Copies through pickling equal the original and behave identically.',
  [I, C], 'all parameter values of every value class; pairs differing in any one parameter',
  'Tests compare listed example objects; parameter-by-parameter sensitivity is not covered.', ['batoid/surface.py', 'batoid/medium.py', 'batoid/coating.py', 'batoid/obscuration.py', 'batoid/coordSys.py', 'batoid/optic.py'],
  [('__eq__/__hash__/__getstate__/__setstate__', 'batoid/*.py')])
p('C22', 'Parsed descriptions build the optic they describe',
  'Building from a parsed description yields the surface, media, obscuration and coordinate frame written there, with every number carried over exactly (angles in radians) and defaults only where absent. '
  'Unknown kinds or missing entries raise an error, and parsing does not alter the description.',
  [I, C], 'all numeric values of every supported element kind; presence or absence of each optional entry',
  'Tests parse shipped files and compare a few properties.', ['batoid/parse.py'], [('parse_optic/parse_surface/parse_obscuration/parse_coordSys/parse_medium', 'batoid/parse.py')])
p('C23', 'Lattices place array entries at the coordinates they claim',
  'A lattice of values reports for each entry the coordinate obtained from its primitive vectors with index zero at the centre convention documented, for one, two or three dimensions and odd or even sizes. '
  'Lattices survive copying, comparison and pickling, and reject inconsistent shapes.',
  [I, C], 'all primitive vectors; arrays up to 4 per axis, 1 to 3 dimensions',
  'Tests check listed shapes.', ['batoid/lattice.py'], [('Lattice.coords', 'batoid/lattice.py')])
p('C24', 'Derived image quantities follow from the traced rays',
  'Fourier and Huygens point-spread images, wavefront maps and spot positions are normalised and referenced as documented: the wavefront is the optical path difference in waves against a sphere centred on the reference ray\'s image, blocked pupil samples are masked, and image lattices are reciprocal to the lattice of outgoing wavevectors. '
  'Fits of Zernike or Jacobian terms leave residuals orthogonal to the fitted terms, so whatever lies in their span is recovered exactly; quadratures return the stated weighted sums.',
  [I, C], 'grids of 3 or 4 rays a side, all detector positions, sphere radii and lattice steps, several field directions',
  'Tests compare to analytic limits for particular telescopes.', ['batoid/analysis.py'], [('wavefront, fftPSF, huygensPSF, spot, zernike', 'batoid/analysis.py')])
p('C25', 'Phase screens add their path difference and bend rays by its gradient',
  'Crossing a phase screen moves the ray to the carrier surface, adds exactly the screen\'s path difference there to its time, keeps its speed, and changes its direction cosines along the surface by the screen gradient (cosx2 = cosx1 + d(OPD)/dx), whichever side it comes from; a constant screen leaves the direction unchanged. '
  'The ray goes on to the far side, and sending it back along the outgoing ray restores the incoming line.',
  [I, C], 'all rays, screen gradients and heights, carrier planes with any tilt',
  'Tests use random rays with particular screens.', ['src/batoid.cpp', 'batoid/optic.py', 'batoid/trace.py'], [('refractScreen', 'src/batoid.cpp')])
p('C26', 'Interfaces use media and coating of the travel side; coatings touch only flux',
  'An interface in an optical system uses the incoming and outgoing media and the forward or reverse coating that match the direction of travel, forwards and in reverse. '
  'Coatings return their stated reflectivity and transmissivity for every wavelength and angle, and change only the flux.',
  [I, C], 'all coefficient values, wavelengths and angles; both directions for mirrors, lenses, detectors and baffles',
  'Tests use one coating configuration.', ['batoid/optic.py', 'batoid/coating.py', 'src/coating.cpp'], [('Interface.interact, rSplit', 'batoid/optic.py'), ('SimpleCoating', 'src/coating.cpp')])
p('C27', 'No accepted input makes the native code read or write outside its buffers',
  'Every public call that accepts its arguments leaves all memory accesses of the compiled kernels inside the buffers it was given, for any ray values including NaN and infinities, any table and grid positions, any layout, strides and numeric types of input arrays. '
  'Inputs of mismatched size are rejected with an error or handled without reading past their end.',
  [I, C], 'symbolic values incl. NaN/inf, array lengths 0 to 4, C and Fortran layouts, integer and float element types',
  'Out-of-bounds reads usually go unnoticed by value-comparing tests.', ['src/*.cpp', 'pysrc/*.cpp', 'batoid/*.py'],
  [('raw pointers handed to C++', 'batoid/*.py'), ('kernels', 'src/*.cpp')])

with open('/verif/properties.jsonl', 'w') as f:
    for q in P:
        assert len(q['title']) <= 80, q['title']
        f.write(json.dumps(q) + '\n')
print(len(P))
