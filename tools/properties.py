NA = {}
P('G01', 'Site index and coordinates determine each other',
  'On a grid of any dimension and any extents, every valid site index has exactly one tuple of coordinates, each within the extent of its direction, and converting that tuple back gives the same index; converting any on-grid coordinates to an index and back gives the same coordinates. Indices are dense: they run from zero to the product of the extents, with the last direction varying fastest, and a site is on the grid exactly when every coordinate lies within its extent.',
  ['inputs', 'configurations'], 'every dimension, every vector of positive extents whose product fits, every site and every coordinate tuple',
  'tests sample a few two- and three-dimensional grids; the statement is over unboundedly many dimensions and extents and over every index',
  ['HyperCubicGrid.hpp'], [('row-major digits of the index', 'HyperCubicGrid.hpp: index_to_array, array_to_index, GetCoordinates, GetIndex, isOnGrid')], ['GetCoordinates', 'GetIndex'])
P('G02', 'Periodic wrapping and translations on the grid',
  'With periodic boundaries, any integer coordinates are wrapped to the unique on-grid representative that differs from them by whole multiples of the extents, and already on-grid coordinates are untouched; with open boundaries nothing is wrapped. The site seen from another one (the periodic difference of the two) and the site reached by a translation (the periodic sum) are valid sites, and translating the difference back gives the original site, for every pair of sites.',
  ['inputs', 'configurations'], 'every grid, both boundary conditions, every integer coordinate tuple (negative and far off the grid included) and every pair of sites',
  'tests wrap a handful of coordinates that are at most one period off; negative multiples and large offsets are not reached',
  ['HyperCubicGrid.hpp'], [('modular reduction of each coordinate', 'HyperCubicGrid.hpp: EnforceBoundaries'), ('translation of sites', 'HyperCubicGrid.hpp: GetMappedSite, GetUnMappedSite')], ['EnforceBoundaries', 'GetMappedSite', 'GetUnMappedSite'])
P('G03', 'The displacement between two sites is the shortest periodic one',
  'On a periodic grid the displacement reported from one site to another leads from the first to the second up to whole multiples of the extents, and in every direction is the shortest such displacement: greater than minus half of the extent and at most half of it, exact ties being positive. On an open grid it is the plain difference of their coordinates.',
  ['inputs', 'configurations'], 'every grid (odd and even extents, extents of one, extents beyond 2^32), both boundary conditions, every pair of sites',
  'tests look at a few small extents; ties and extents beyond the range of int are not reached',
  ['HyperCubicGrid.hpp'], [('comparison of the coordinate difference with half of the extent', 'HyperCubicGrid.hpp: GetJump')], ['GetJump'])
P('A01', 'Compensated sums follow their algorithm bit for bit',
  'For every sequence of doubles, whatever its length and values, the compensated accumulators return exactly the value that the published Kahan, respectively Neumaier, compensated summation gives in the same arithmetic, and count every value added. The result depends only on the values added since construction or the last reset, however they were fed (one by one or as a range), and a copy continues independently of its original.',
  ['inputs', 'histories'], 'every sequence of additions of arbitrary doubles (infinities and NaN included), every point at which a reset or a copy happens',
  'tests add one particular series; loss of a low-order compensation term is invisible for most sequences',
  ['accumulators/KahanAccumulator.hpp', 'accumulators/NeumaierAccumulator.hpp', 'Accumulators.hpp'],
  [('compensation term', 'accumulators/KahanAccumulator.hpp: Add, Sum'), ('compensation term with magnitude test', 'accumulators/NeumaierAccumulator.hpp: Add, Sum'), ('range feeding', 'Accumulators.hpp: apply_accumulator')], ['Sum', 'Count'])
P('A02', 'Running mean, variance and error are those of the data',
  'After any sequence of measurements the one-pass accumulator reports their number, their sum and mean, and the population and sample variance, standard deviation and error of the mean of exactly those measurements, up to floating point rounding; variances are never negative. With fewer than two measurements the spread is reported as NaN, and a reset forgets everything.',
  ['inputs', 'histories'], 'every sequence of measurements of any length, with a reset at any point',
  'no test exercises this accumulator; the one-pass recurrences agree with the definition only by an induction over the history',
  ['accumulators/KnuthWelfordAccumulator.hpp', 'Accumulators.hpp'], [('Welford recurrence', 'accumulators/KnuthWelfordAccumulator.hpp: Add'), ('derived statistics', 'accumulators/KnuthWelfordAccumulator.hpp: Variance, ScaledVariance, StandardDeviation, Error')], ['Mean', 'Variance', 'Error', 'Count'])
P('A03', 'Weighted mean and variances are those of the weighted data',
  'After any sequence of weighted observations the weighted accumulator reports the number of observations of positive weight, their weighted sum and mean, and the population, frequency-weight and reliability-weight variances of exactly those observations, up to rounding. Observations whose weight is not positive change nothing, and fewer than two observations give NaN variances.',
  ['inputs', 'histories'], 'every sequence of value-weight pairs of any length, zero and negative weights interleaved anywhere, with a reset at any point',
  'no test exercises this accumulator; the recurrences agree with the definition only by induction over the history',
  ['accumulators/WestAccumulator.hpp'], [('West recurrence', 'accumulators/WestAccumulator.hpp: Add'), ('derived statistics', 'accumulators/WestAccumulator.hpp: PopulationVariance, SampleFrequencyVariance, SampleReliabilityVariance')], ['Mean', 'Sum', 'PopulationVariance', 'SampleFrequencyVariance', 'SampleReliabilityVariance'])
P('A04', 'Integer accumulator: exact sums and true variance',
  'After any sequence of integer measurements whose sums are representable, the integer accumulator reports their exact sum and count, their mean, and the population and sample variance and standard deviation of exactly those integers, up to rounding. With fewer than two measurements the spread is NaN, and a reset forgets everything.',
  ['inputs', 'histories'], 'every sequence of integers of any length whose running sums fit',
  'no test exercises this accumulator',
  ['accumulators/NaiveIntegerAccumulator.hpp'], [('integer sums', 'accumulators/NaiveIntegerAccumulator.hpp: Add'), ('derived statistics', 'accumulators/NaiveIntegerAccumulator.hpp: Mean, Variance, ScaledVariance, StandardDeviation')], ['Sum', 'Variance'])
P('A05', 'Protected accumulators refuse overflow and stay intact',
  'When the overflow-protected configuration is enabled, adding to an accumulator whose count is exhausted, or adding an integer whose value or square no longer fits the sums, throws the overflow exception; in every other state the measurement is accepted and counted. A refused measurement leaves every part of the accumulator unchanged.',
  ['histories', 'configurations', 'inputs'], 'every reachable internal state of every accumulator, every value added, with the protection switched on',
  'the protected configuration is never compiled by the tests and the limiting states are unreachable by adding values one at a time',
  ['accumulators/KahanAccumulator.hpp', 'accumulators/NeumaierAccumulator.hpp', 'accumulators/KnuthWelfordAccumulator.hpp', 'accumulators/WestAccumulator.hpp', 'accumulators/NaiveIntegerAccumulator.hpp', 'accumulators/AccumulatorsExceptions.hpp'],
  [('guards at the head of the add operations', 'accumulators/*.hpp: Add, under BWSL_ACCUMULATORS_CHECKS')], ['Add'])
P('A06', 'A saved and restored accumulator continues as the original',
  'Saving an accumulator of any kind after any history and loading it into another one, whatever that one held, gives an accumulator that reports the same results and, after any further measurements, the same results as if the history had never been interrupted.',
  ['histories'], 'every history before the save, every history of the receiving accumulator, every continuation',
  'no test saves an accumulator; a field missing from the stored form matters only for some continuations',
  ['accumulators/KahanAccumulator.hpp', 'accumulators/NeumaierAccumulator.hpp', 'accumulators/KnuthWelfordAccumulator.hpp', 'accumulators/WestAccumulator.hpp', 'accumulators/NaiveIntegerAccumulator.hpp'],
  [('streaming of every field', 'accumulators/*.hpp: serialize')], ['serialize'])
P('G04', 'Pairs of indices and pair indices determine each other',
  'For every number of indices, the pair index maps the ordered pairs one to one onto the numbers from zero to the number of pairs (the square of the number of indices): splitting the index of a pair gives that pair back, recombining a split index gives the index back, and different pairs have different indices. The pairs of sites of a grid follow the same rule.',
  ['inputs', 'configurations'], 'every number of indices whose square fits, every pair, every pair index',
  'tests enumerate a few small sizes; wrap-around in the arithmetic shows up only for large ones',
  ['Pairs.hpp', 'HyperCubicGrid.hpp'], [('index arithmetic', 'Pairs.hpp: GetPairIndex, GetPair, GetNumPairs'), ('pairs of sites', 'HyperCubicGrid.hpp: GetPairIndex, GetIndividualIndices')], ['GetPairIndex', 'GetPair'])
P('M01', 'Move statistics account for every move, once',
  'Over any history of proposals, acceptances, rejections, impossible moves, whole results and resets, an operation is refused with the invalid-sequence exception exactly when it is out of order (concluding a move that was not proposed, or proposing while one is pending), and a refused operation changes nothing. The accepted, rejected and impossible ratios are the fractions of the proposals since the last reset that ended that way, adding up to one when nothing is pending, and the average probability is that of the concluded moves. Saving and restoring the statistics at any point, a pending proposal included, changes none of this.',
  ['histories'], 'every sequence of operations of any length, valid or not, every acceptance probability, saved and restored at any point',
  'tests run a few short sequences; the tallies, the pending flag and the probabilities have to agree after every history',
  ['MonteCarloUtils.hpp'], [('sequence check and tallies', 'MonteCarloUtils.hpp: MoveStats::Propose, Accept, Reject, Impossible, Add, Reset'), ('ratios', 'MonteCarloUtils.hpp: MoveStats::GetAcceptedRatio, GetAverageProbability'), ('stored form', 'MonteCarloUtils.hpp: MoveStats::serialize')], ['GetAcceptedRatio', 'GetAverageProbability', 'Propose'])
P('R01', 'Rational arithmetic is exact and canonical',
  'A rational number built from any numerator and non-zero denominator equals their quotient and is stored in lowest terms with a positive denominator. Sum, difference, product and quotient of two rationals, or of a rational and an integer on either side, equal the mathematical result exactly and are again in lowest terms with a positive denominator, whenever the cross products fit the integer type. A rational is reported as an integer exactly when it is one, and converts to the nearest-toward-zero integer and to its floating point quotient. The greatest common divisor used for this is, in magnitude, the true one for every pair of integers of either sign.',
  ['inputs'], 'every numerator and denominator of either sign, every pair of operands whose cross products fit, every mix of rational and integer operands',
  'tests add and multiply a few small positive fractions; signs and common factors interact for particular operands only',
  ['RationalNum.hpp', 'MathUtils.hpp'], [('reduction to lowest terms', 'RationalNum.hpp: RationalNum::Simplify, constructor'), ('cross multiplication', 'RationalNum.hpp: operator+, operator-, operator*, operator/'), ('Euclid', 'MathUtils.hpp: get_gcd')], ['GetNum', 'GetDen', 'IsInt'])
P('R02', 'Rationals are ordered by value',
  'All six comparisons between two rationals, between a rational and an integer, and between an integer and a rational agree with the order of the numbers they stand for, for operands of either sign, and two rationals of equal value have the same numerator and denominator.',
  ['inputs'], 'every pair of operands whose cross products fit, of either sign, rational or integer on either side',
  'tests compare a few pairs; agreement of the six derived operators with the order depends on signs, and on how close to an integer the fraction is',
  ['RationalNum.hpp', 'RelationalUtils.hpp'], [('comparison by cross multiplication', 'RationalNum.hpp: operator<'), ('derived comparisons', 'RelationalUtils.hpp: TEMPLATEOVERLOADRELATIONAL')], ['operator<', 'operator=='])
P('R03', 'Rationals survive being written and read; malformed text changes nothing',
  'A rational written to a stream has the text numerator//denominator; reading that text succeeds and gives the same number back. Reading any text succeeds exactly when it starts with an integer, two slashes and an integer other than zero, and then gives their quotient in canonical form (lowest terms, positive denominator); otherwise the stream reports failure and the number read into keeps its value.',
  ['inputs'], 'every rational of int and long; every text of up to five pieces, each a number, a character or a number too large for any integer, including empty and truncated texts.',
  'Tests read and write one or two fractions; malformed, truncated and overflowing texts are not tried.',
  ['RationalNum.hpp'], [('writing and reading', 'RationalNum.hpp: operator<<, operator>>')], ['operator>>', 'operator<<'])
P('B01', 'Lattice points, displacements and distances in real space',
  'For any basis in one, two or three dimensions, the position of a lattice point is the combination of the basis vectors given by its coordinates; the vector between two points is the difference of their positions and their distance is its Euclidean length, however it is asked for. Neighbours come in opposite pairs along the listed directions, so that the opposite neighbour of a neighbour is the point itself.',
  ['inputs', 'configurations'], 'every basis (orthogonal or not), every pair of points, every list of neighbour directions',
  'tests use the predefined lattices, whose matrices are mostly symmetric or diagonal: a transposed or misplaced index is invisible there',
  ['Bravais.hpp'], [('matrix-vector products', 'Bravais.hpp: GetRealSpace, GetVector'), ('lengths', 'Bravais.hpp: GetDistance, GetDistanceVector'), ('neighbour directions', 'Bravais.hpp: GetNeighbor')], ['GetRealSpace', 'GetVector', 'GetDistance', 'GetNeighbor'])
P('B02', 'Positions determine coordinates; reciprocal vectors are dual to the basis',
  'Whenever the second matrix given to a lattice is the inverse of its basis, the coordinates of a lattice point are recovered from its real-space position, and the reciprocal-space vector of any integer coordinates has, with each basis vector, the scalar product of two pi times the corresponding coordinate. This holds for non-orthogonal bases too.',
  ['inputs', 'configurations'], 'every invertible basis in one to three dimensions, every point',
  'tests use the predefined lattices only, and the inverse vector not at all',
  ['Bravais.hpp'], [('products with the inverse matrix', 'Bravais.hpp: GetInverseVector, GetReciprocalSpace')], ['GetInverseVector', 'GetReciprocalSpace'])

P('B03', 'The predefined lattices are what their names say',
  'The chain, square, cubic and triangular lattices have one, two, three and two dimensions and two, four, six and six neighbours per point. For each, the coordinates of any lattice point are recovered from its real-space position, the first basis vector is the first unit vector, the neighbours of any point are all different points at distance one from it, and every other point is farther away than 1.4.',
  ['inputs', 'configurations'], 'each of the four lattices, every point and every pair of points',
  'tests look at the neighbours of a few points; a wrong entry in a table of constants spoils particular directions or components',
  ['Bravais.hpp'], [('tables of constants', 'Bravais.hpp: ChainLattice, SquareLattice, CubicLattice, TriangularLattice'), ('their use', 'Bravais.hpp: GetNeighbor, GetRealSpace, GetInverseVector, GetDistance')], ['ChainLattice', 'SquareLattice', 'CubicLattice', 'TriangularLattice'])

P('H01', 'A histogram bin averages its own measurements over all measurements',
  'After any history of measurements, force-added measurements, changes of the number of bins and resets, a histogram has the number of bins and of measurements of that history; the count of a bin is the number of measurements it received since it was created or last reset, and its result is the compensated sum of those measurements divided by the number of all measurements since the last reset (zero for an empty bin). A force-add to a bin that does not exist creates exactly the bins up to it, empty. The list of all results agrees with the single results, and normalised by a bin it is every result divided by the result of that bin. Copies are independent, and saving and loading restores all of this.',
  ['histories'], 'every sequence of operations of any length, any number of bins, every bin, every measured value',
  'tests fill a few bins; stale bins, growth and shrinking, and the order of normalisation matter only in particular histories',
  ['HistAccumulator.hpp', 'accumulators/NeumaierAccumulator.hpp'],
  [('bins and the total', 'HistAccumulator.hpp: Add, ForceAdd, Resize, Reset'), ('averages', 'HistAccumulator.hpp: GetResult, GetResults'), ('stored form', 'HistAccumulator.hpp: serialize')], ['GetResult', 'GetResults', 'GetCount', 'GetNbins'])
P('U01', 'Element-wise operations on containers',
  'Adding one container to another, subtracting one from another and negating one act on every element exactly once and independently, with the arithmetic of the element type, for any length: the first container is changed in place and returned, the second one is untouched (and may be the same container), and the copying negation leaves its argument alone.',
  ['inputs'], 'every container length including empty, every element value, a container used as both operands',
  'tests apply each function to one short vector',
  ['MathUtils.hpp'], [('element-wise loops', 'MathUtils.hpp: sum_into, subtract_into, invert, get_inverted')], ['sum_into', 'subtract_into', 'invert', 'get_inverted'])
P('U02', 'Reductions of containers',
  'The sum, product and sum of squares of a container are those of all of its elements, taken in order from the neutral element, and the norm is the square root of the sum of squares. The largest and smallest element are elements of the container, and no element lies beyond them.',
  ['inputs'], 'every container length (non-empty for the extremes), every element value, negative ones included',
  'tests reduce one or two short vectors; a wrong starting value or a missing element shows up only for particular ones',
  ['MathUtils.hpp'], [('reductions', 'MathUtils.hpp: accumulate_sum, accumulate_product, sum_squared, l2norm'), ('extremes', 'MathUtils.hpp: max, min')], ['accumulate_sum', 'accumulate_product', 'l2norm', 'max', 'min'])
P('U03', 'Scalar helper functions',
  'The sign, the absolute and the signed difference (also of unsigned numbers, in either order, whenever the result is representable), square, cube, the two step functions and the linear interpolation have their mathematical values for every argument; interpolation gives the end values at parameters 0 and 1. The binomial coefficient is the number of ways to choose k of n, exactly, whenever no intermediate product overflows the integer type, and zero for k above n.',
  ['inputs'], 'every pair of arguments of each instantiated type; n up to 58 (long) and 28 (int), every k',
  'tests check a handful of arguments; unsigned wrap-around, signs and the symmetry of the binomial matter for particular ones',
  ['MathUtils.hpp'], [('differences', 'MathUtils.hpp: absdiff, signeddiff'), ('binomial recurrence', 'MathUtils.hpp: cbinomial'), ('sign and steps', 'MathUtils.hpp: sgn, heaviside, heaviside2'), ('interpolation', 'MathUtils.hpp: lerp, lerpi')], ['sgn', 'absdiff', 'signeddiff', 'cbinomial', 'lerp'])
P('U04', 'Search in a sorted range finds the first larger element',
  'For every sorted range, of any length including empty and far beyond ten thousand elements, with any number of equal elements, and every value, the upper-bound search returns the position of the first element larger than the value, or the end when there is none; it reads no element outside the range and always terminates.',
  ['inputs'], 'every sorted range up to 2^40 elements of reals or integers, evenly spaced or not, every value inside, outside or equal to elements',
  'no test calls it; the interpolation branch needs more than ten thousand elements and particular spacings',
  ['MathUtils.hpp'], [('interpolation and binary search', 'MathUtils.hpp: upper_bound')], ['upper_bound'])
P('U05', 'Weighted random choices follow the weights',
  'Choosing between weights draws exactly one uniform variate over the total weight and returns an existing index, the one whose interval of partial sums holds the variate, so that each index is chosen with a probability proportional to its weight and an index of weight zero never; the weights are not changed. Given partial sums the choice is the same. Choosing with a probability is true exactly when a uniform variate in [0,1) is below it, so never for zero and always for one.',
  ['inputs'], 'every number of non-negative weights of positive total, zero weights anywhere, every variate',
  'no test calls these; a boundary of a cumulative interval is hit by sampling with negligible probability',
  ['MathUtils.hpp'], [('cumulative search', 'MathUtils.hpp: choose_between, choose_between_psums'), ('single probability', 'MathUtils.hpp: choose_with_probability')], ['choose_between', 'choose_between_psums', 'choose_with_probability'])
P('S01', 'Linear and logarithmic spaces produce their sequence',
  'A linear space yields first plus k times the n-th part of the interval, a logarithmic space first times the k-th power of the n-th root of last over first, from first at the start to last after all steps, however it is stepped: prefix, postfix, call, range-based loop (which visits exactly n values) or collected into a vector of any length, which does not move the space. A logarithmic space given by powers of a base runs from the one power to the other. Positions compare equal exactly when the same number of steps was taken, and the end is reached after exactly n steps.',
  ['inputs', 'histories'], 'every first below last, every number of steps, every position and way of stepping, every number of values collected',
  'no test uses either class',
  ['LinSpace.hpp', 'LogSpace.hpp'], [('stepping', 'LinSpace.hpp, LogSpace.hpp: operator++, operator()'), ('step size and ratio', 'LinSpace.hpp, LogSpace.hpp: constructors'), ('positions', 'LinSpace.hpp, LogSpace.hpp: begin, end, operator=='), ('collection', 'LinSpace.hpp, LogSpace.hpp: Collect')], ['LinSpace', 'LogSpace'])
P('X01', 'Approximate comparison is consistent',
  'A number equals an approximate value exactly when it differs from it by at most the absolute tolerance or by at most the relative tolerance times the magnitude of the value, whichever is larger and whatever signs were given; the operators are consistent with this and with each other in both orders of the operands: unequal is the negation, below-or-equal is below or equal, strictly below is below and not equal, and likewise above.',
  ['inputs'], 'every finite value, number and tolerance, negative ones included',
  'tests compare a few positive numbers',
  ['Approx.hpp'], [('tolerance', 'Approx.hpp: operator==, SetAbs, SetRel'), ('derived comparisons', 'Approx.hpp: operator<=, operator>=, operator!=')], ['Approx'])
P('L01', 'Neighbours on a lattice follow its directions and boundaries',
  'The neighbours of a site are, in the order of the directions of the unit cell, the sites its coordinates plus that direction lead to: wrapped around the lattice if it is periodic, left out if they fall off an open one. With periodic boundaries every site has one neighbour per direction, and the step against a direction leads back to the site, so that being neighbours is symmetric.',
  ['inputs', 'configurations'], 'every lattice in one to three dimensions, all extents (including one and two, where neighbours coincide), every list of directions however long the steps, both boundary conditions, every site',
  'tests use the predefined lattices with a few extents; corners, extents of one and directions that reach past the lattice are hardly sampled',
  ['Lattice.hpp', 'HyperCubicGrid.hpp', 'Bravais.hpp'], [('table of neighbours', 'Lattice.hpp: ComputeNeighbors'), ('wrapping', 'Lattice.hpp, HyperCubicGrid.hpp: EnforceBoundaries')], ['GetNeighbors', 'AreNeighbors', 'GetCoordination'])
P('L02', 'Distances on a lattice are to the nearest periodic image',
  'The vector between two sites of a periodic lattice is the real space vector to one of the images of the second site seen from the first, displaced by at most one period along each direction, and none of these images is nearer; on an open lattice it is the difference of the positions. The distance is the length of that vector.',
  ['inputs', 'configurations'], 'every basis (orthogonal or not), all extents in one to three dimensions, both boundary conditions, every pair of sites',
  'tests compare a few distances on small orthogonal lattices; which image is nearest depends on the shape of the unit cell',
  ['Lattice.hpp', 'Bravais.hpp', 'HyperCubicGrid.hpp'], [('search of the nearest image', 'Lattice.hpp: ComputeVectors'), ('lookup by the mapped site', 'Lattice.hpp: GetVector, GetDistance')], ['GetVector', 'GetDistance'])
P('L03', 'A lattice reports its sites as constructed',
  'The position of a site is the real space point with its coordinates; extents, dimension and boundary conditions are those given, the lists of neighbours, the coordination and the momenta reported are those computed for the site, two sites are reported to be neighbours exactly when one is in the list of the other, and the winding of a displacement is the number of whole turns around the lattice, towards zero, in each direction.',
  ['inputs', 'configurations'], 'every lattice in one to three dimensions, both boundary conditions, every pair of sites, every displacement',
  'tests look at a few sites of small lattices',
  ['Lattice.hpp'], [('positions', 'Lattice.hpp: ComputePositions, GetPosition'), ('lookups', 'Lattice.hpp: GetNeighbors, AreNeighbors, GetCoordination, GetMomentum'), ('turns', 'Lattice.hpp: GetWinding')], ['GetPosition', 'GetWinding', 'GetNeighbors'])
P('L04', 'Momenta are those the periods allow; the structure factor is that of the occupations',
  'A periodic lattice has as many momenta as sites, each the combination of the reciprocal basis vectors with the coordinates of the site, counted from the middle of the lattice, over the extents, so that going once around the lattice changes the phase by a multiple of two pi; an open lattice has none. The structure factor at a momentum is the squared modulus of the Fourier sum of the occupations over the square of the number of sites, times the given factor, added to what was there; on an open lattice nothing is added.',
  ['inputs', 'configurations'], 'every basis, all extents in one to three dimensions, every occupation, both boundary conditions',
  'no test computes a structure factor, and the momenta tested are of square lattices',
  ['Lattice.hpp'], [('momenta', 'Lattice.hpp: ComputeMomenta'), ('Fourier sum', 'Lattice.hpp: AccumulateSk, ComputeSk')], ['GetMomentum', 'AccumulateSk', 'ComputeSk'])
P('L05', 'The files a lattice writes hold its tables',
  'Saving the positions, the distances, the momenta or the pairs of a lattice starts the given file afresh and writes a header with the names of the columns and then one line for each site (each pair; no line of momenta for open boundaries), in order of the index: the index, for pairs also the two sites, and every component of the position of the site, of the vector from the first site to it, of its momentum, or of the vectors from the first site to either site of the pair and from one to the other.',
  ['inputs', 'configurations'], 'every lattice in one to three dimensions, all extents, both boundary conditions; every line and every column of each file',
  'no test reads any of these files; a wrong index or component in the middle of a file shows up for particular lattices only',
  ['Lattice.hpp', 'Pairs.hpp'], [('tables written', 'Lattice.hpp: SavePositions, SaveDistances, SaveMomenta, SavePairs')], ['SavePositions', 'SaveDistances', 'SaveMomenta', 'SavePairs'])
P('E01', 'Enumerators and their names correspond one to one',
  'For an enumeration defined with string conversions, every enumerator is written as its own name and reading that name gives the enumerator back, whatever the variable held before; a value that is no enumerator is written as a text that is no name. A text that is not exactly one of the names is refused with the exception of the enumeration, whose message contains the text, and leaves the variable alone.',
  ['inputs', 'configurations'], 'every text of any length, every enumerator, every previous value; enumerations of one, three and eight enumerators with names that are prefixes of one another or differ in case only',
  'tests convert a few names of one enumeration; prefixes, refused texts and the lifetime of the message are not looked at',
  ['EnumString.hpp'], [('conversion and refusal', 'EnumString.hpp: ToString, FromString, EnumStringConversionFailed')], ['ToString', 'FromString', 'what'])
P('N01', 'A stored random number generator continues its sequence',
  'Saving a Mersenne twister (32 or 64 bit) to an archive stores its state and leaves it unchanged; loading into any generator, whatever its state, makes it continue with exactly the numbers the saved one would give. A text that does not begin with the state of such a generator, and a state that cannot be written, are refused with std::invalid_argument.',
  ['inputs', 'histories'], 'every state of the generator saved, every state of the one loaded into, every stored text',
  'no test stores a generator; restored at the wrong position or from the wrong text it would still give plausible numbers',
  ['RNGUtils.hpp'], [('state as text', 'RNGUtils.hpp: save, load, serialize')], ['boost::serialization::serialize'])
P('F01', 'Two files compare equal exactly when they have the same bytes',
  'Comparing two files answers yes exactly when both can be opened, have the same size and hold the same byte at every position; in particular a readable file is equal to itself and to any copy of it. The files are only read. The header can be used by several sources of one program.',
  ['inputs'], 'every pair of files of any size and contents, present or missing',
  'no test compares files; a difference in one byte at an arbitrary position, in the length only, or a missing file decides',
  ['FileUtils.hpp'], [('comparison', 'FileUtils.hpp: compare_files')], ['compare_files'])
P('O01', 'Groups of observables keep and report each observable separately',
  'A group contains exactly the observables it was given or that were added, each once; adding one that is there already keeps its measurements. A measurement reaches the accumulator of its observable and no other, and one of an unknown observable is refused with std::out_of_range and changes nothing. Printing the headers starts the file of the group afresh with the names of the observables in increasing order and the column Count; printing the results appends one line with the mean of each observable in the same order, in scientific notation with the precision asked for, and the number of measurements (that of the first observable), and resets every observable. A group without observables prints nothing. The stored form of a group holds its file name and its accumulators and restores both.',
  ['inputs', 'histories'], 'every set of observables of any size, every observable in it, every state of its accumulator, every measured value, every precision, repeated and unknown observables',
  'tests use one group of a few observables measured equally often',
  ['ObservableGroup.hpp'], [('which accumulator', 'ObservableGroup.hpp: Measure, AddObservable, constructor'), ('lines of the file', 'ObservableGroup.hpp: PrintHeaders, PrintAndReset'), ('stored form', 'ObservableGroup.hpp: serialize')], ['Measure', 'PrintAndReset', 'PrintHeaders'])
