"""property -> contract units (regex of contract functions, None = all)"""
INT = 'machine integers are modelled exactly (signed overflow is an obligation)'
SITES = 'number of sites below 2^62'
REAL = 'double arithmetic treated as exact real arithmetic (rounding not modelled)'
BITS = 'double arithmetic uninterpreted except for IEEE-754 facts listed in vcg/floats.py, so the result is bit for bit'
TAPE = 'the archive is a faithful tape: it returns the streamed values in order'
RAT = 'operands of arithmetic and comparisons bounded by 2^30 (long) and 2^15-1 (int), so that no product overflows'
DIM3 = 'one, two and three dimensions; integer coordinates up to 2^40 in magnitude'
LDIM = 'one, two and three dimensions; the extents are not bounded'
FMT = 'fmt::print and std::ofstream write what they are given, in the format asked for, to the file opened'
PROPS = {
    'G01': dict(src={'grid_index.cpp': None, 'grid_wrap.cpp': 'roundtrip_.*'}, assumptions=[INT, SITES]),
    'G02': dict(src={'grid_wrap.cpp': 'enforce_.*|mapped|unmapped|map_unmap'}, assumptions=[INT, SITES]),
    'G03': dict(src={'grid_wrap.cpp': 'jump_.*'}, assumptions=[INT, SITES]),
    'A01': dict(src={'acc_comp.cpp': '.*(sum|reset|range|copy)'}, assumptions=[BITS]),
    'A02': dict(src={'acc_stat.cpp': 'welford_(stats|nonneg|range|reset)', 'acc_few.cpp': 'few_welford'}, assumptions=[REAL]),
    'A03': dict(src={'acc_stat.cpp': 'west_(stats|reset)', 'acc_few.cpp': 'few_west'}, assumptions=[REAL]),
    'A04': dict(src={'acc_int.cpp': 'integer_(stats|reset)', 'acc_few.cpp': 'few_integer'}, assumptions=[REAL, INT]),
    'A05': dict(src={'acc_checks.cpp': None}, assumptions=[BITS, INT]),
    'A06': dict(src={'acc_comp.cpp': '.*stored', 'acc_stat.cpp': '.*stored', 'acc_int.cpp': '.*stored'}, assumptions=[BITS, REAL, INT, TAPE]),
    'G04': dict(src={'pairs.cpp': None}, assumptions=[INT, SITES, 'number of indices below 2^32, so that the number of pairs fits']),
    'M01': dict(src={'move.cpp': None}, assumptions=[REAL, INT, TAPE]),
    'R01': dict(src={'gcd.cpp': None, 'rational.cpp': '(construct|add|sub|mul|div|right_...|left_...|convert)_.*'}, assumptions=[INT, REAL, RAT]),
    'R02': dict(src={'gcd.cpp': None, 'rational.cpp': 'ord.*'}, assumptions=[INT, RAT]),
    'R03': dict(src={'gcd.cpp': None, 'rational_text.cpp': None}, assumptions=[INT, 'stream extraction and insertion of numbers and characters behave as the C++ standard says, with default formatting', 'a text read consists of at most five pieces (the function reads four)']),
    'B01': dict(src={'bravais.cpp': '(position|distance|neighbor)_.'}, assumptions=[REAL, INT, DIM3]),
    'B02': dict(src={'bravais.cpp': 'inverse_.'}, assumptions=[REAL, INT, DIM3]),
    'B03': dict(src={'predefined.cpp': None}, assumptions=[REAL, INT, 'coordinates and differences of coordinates up to 2^40', 'square roots of constants as the compiler folds them; equalities up to 1e-12 times the size of the coordinates']),
    'H01': dict(src={'hist.cpp': None}, assumptions=[BITS, INT, TAPE, 'at most 2^40 operations and bins', 'a bin is restored by loading as it was saved (A06), and boost restores a vector element by element']),
    'U01': dict(src={'elementwise.cpp': '(sum_into|subtract_into|invert)_.*|alias'}, assumptions=[BITS, INT, 'no element-wise result of integers overflows']),
    'U02': dict(src={'elementwise.cpp': '(sum|product|squares)_.|extremes_i', 'scalars.cpp': 'extremes_.'}, assumptions=[BITS, INT, 'sums of integers representable', 'real elements are ordered (no NaN)']),
    'U03': dict(src={'scalars.cpp': 'sign|differences|powers|steps|interpolation', 'binomial.cpp': None}, assumptions=[REAL, INT, 'binomial coefficients: recurrence, exact divisibility and symmetry are textbook facts, assumed']),
    'U04': dict(src={'search.cpp': None}, assumptions=[REAL, INT, 'ranges of up to 2^40 elements', 'std::upper_bound has the contract of the C++ standard (its precondition is an obligation)']),
    'U05': dict(src={'choose.cpp': None}, assumptions=[REAL, INT, 'std::uniform_real_distribution(a,b) returns a number in [a,b), uniformly', 'std::upper_bound has the contract of the C++ standard (its precondition is an obligation)', 'weights not negative, not all zero']),
    'S01': dict(src={'spaces.cpp': None}, assumptions=[REAL, INT, 'up to 2^50 steps', 'M_E is e; e to the n-th part of log(last/first) has n-th power last/first (textbook fact on exp, log and pow); powers of a base above one are positive and increasing']),
    'X01': dict(src={'approx.cpp': None}, assumptions=[REAL, 'finite values']),
    'L01': dict(src={'lattice_nn.cpp': None, 'lattice_wrap.cpp': None, 'bravais.cpp': 'neighbor_.', 'grid_index.cpp': 'index|coordinates|extents_product'}, assumptions=[INT, SITES, LDIM]),
    'L02': dict(src={'lattice_vec.cpp': None, 'lattice_api.cpp': 'displacements_.', 'grid_index.cpp': 'index_to_array|extents_product|first_shell_.', 'bravais.cpp': 'distance_.'}, assumptions=[REAL, INT, SITES, LDIM]),
    'L03': dict(src={'lattice.cpp': 'positions_.', 'lattice_api.cpp': 'tables_.|winding_.'}, assumptions=[REAL, INT, SITES, LDIM]),
    'L04': dict(src={'lattice.cpp': 'momenta_.', 'lattice_sk.cpp': None}, assumptions=[REAL, INT, SITES, LDIM, 'sine and cosine uninterpreted', 'structure factor: fewer than 2^31 sites']),
    'L05': dict(src={'lattice_files.cpp': None, 'pairs.cpp': None}, assumptions=[REAL, INT, SITES, LDIM, FMT, 'pairs: fewer than 2^28 sites']),
    'O01': dict(src={'observables.cpp': None}, assumptions=[BITS, INT, FMT, 'std::map has the contract of the C++ standard, seen through one arbitrary key', 'boost restores a string and a map as they were saved']),
    'E01': dict(src={'enum_string.cpp': None}, assumptions=['std::string has the contract of the C++ standard: which text it holds, its equality and concatenation', 'the macro is instantiated for enumerations of one, three and eight enumerators, among them names that are prefixes of one another, differ in case only or are long']),
    'N01': dict(src={'rng.cpp': None}, assumptions=['writing a std::mersenne_twister_engine to a stream and reading it back restores its state, and reading any other text fails (C++ standard)', 'boost restores a string as it was saved', 'std::string and string streams have the contracts of the C++ standard']),
    'F01': dict(src={'files.cpp': None}, assumptions=['std::ifstream reads the bytes of the file, std::string keeps its text (C++ standard); the files do not change meanwhile', 'files of up to 2^40 bytes']),
}
DEFS = {}
COST = {'map_unmap': 10}
