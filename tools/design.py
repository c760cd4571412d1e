#!/usr/bin/env python3
"""Fills sections 3 and 5 of DESIGN.md from properties.jsonl, vcg/props.py and seeded/*/meta.json."""
import json, os, re, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(ROOT, 'vcg'))
import props
HOW = {
 'G01': 'postconditions of array_to_index, index_to_array, GetIndex, GetCoordinates against recursive specifications of digits and suffix products of the extents (any number of dimensions); the digit/product lemmas are proved by induction on each run',
 'G02': 'postconditions of EnforceBoundaries, GetMapped, GetUnMapped: in range and congruent modulo the extent; loops carry the invariant "period added so many times"; composition of the two maps is a lemma over the contracts',
 'G03': 'postcondition of GetJump: congruent to the difference and not longer than half the extent, for every extent up to 2^62, both boundaries',
 'G04': 'GetPair and GetPairIndex against the closed form; each inverts the other',
 'A01': 'the state after a range of any length equals the published recurrence (a recursive specification over abstract doubles), so the result holds bit for bit; copies and resets included',
 'A02': 'loop invariant over a range of any length: n*mean = sum and M2 = sum of squared deviations, over the reals; mean, variance, error read off; constructed by any split into calls',
 'A03': 'as A02 with weights: the recurrences of West keep W, W*mean and the weighted second moment; both variances read off',
 'A04': 'integer sums exact, variance and error equal to their definitions; overflow of the sums is the precondition',
 'A05': 'with BWSL_ACCUMULATORS_CHECKS: exceptional postcondition - if Add throws, the whole state (as streamed by serialize) is bitwise the old one; if it does not, the sums did not wrap',
 'A06': 'serialize to a tape, load into an arbitrary accumulator, then the states are equal bitwise and so is everything that follows (determinism over the state)',
 'M01': 'ghost counters for an arbitrary history of operations (an arbitrary state satisfying the invariant, one arbitrary operation): counts, acceptance ratio, refusal of operations without a proposed move',
 'R01': 'each operator: result in lowest terms, positive denominator, exact value (cross products); get_gcd proved separately and replaced by its contract',
 'R02': 'comparison operators equal the comparison of the exact values; total order by lemma over those',
 'R03': 'streams replaced by the standard\'s contract on a tape of numbers and characters; reading succeeds exactly on n//d, otherwise the number is unchanged; writing then reading is the identity',
 'B01': 'positions, vectors, distances as combinations of an arbitrary basis in one to three dimensions; neighbours differ by the given direction and are mutual',
 'B02': 'under the precondition that the second matrix is the inverse: coordinates recovered, scalar products with the reciprocal vectors 2 pi times coordinates (nonlinear real arithmetic, nlsat)',
 'B03': 'the constructors of the four constants are executed as part of the contract; then any point and any pair of points',
 'H01': 'one arbitrary bin watched through an arbitrary history; ghost compensated sum; representation invariant of the vectors of bins for every operation',
 'U01': 'element-wise loops with quantified invariants, every length, aliasing arguments included',
 'U02': 'reductions equal recursive specifications over every length',
 'U03': 'postconditions of the scalar functions; binomial loop invariant (assumed textbook recurrence listed)',
 'U04': 'partition point of the range found, every length, any content; loop invariants of interpolation and bisection, termination measure',
 'U05': 'index chosen as a function of the variate: intervals of lengths proportional to the weights, no index of weight zero',
 'S01': 'iterators of both spaces: element k, number of elements, bounds; any number of steps',
 'X01': 'reflexive, symmetric, monotone in the tolerance, negation consistent',
 'L01': 'neighbour tables: each entry is the wrapped translation (or the site marked as missing), mutual, any extents; contracts of the grid replaced at the calls',
 'L02': 'distance vectors: a shortest one among the images of the first shell; the loop over images has the running minimum as invariant',
 'L03': 'tables of the lattice after construction against the grid and the basis; winding numbers',
 'L04': 'momenta against the reciprocal vectors and extents; structure factor as a sum over sites with a running-sum invariant',
 'L05': 'the text of each file seen through one arbitrary position (row and column arbitrary): piece written there; length; order; mode of opening',
 'O01': 'the map seen through one arbitrary key; measurements, additions, construction, lines of the file at an arbitrary column, storing',
 'E01': 'strings known by which text they hold; FromString/ToString of three instances of the macro against a table of names; the exception\'s message must still hold the text when looked at',
 'N01': 'state seen through one arbitrary word; streams and archive by contract; restored word equal, refusals as exceptional postconditions',
 'F01': 'contents seen as arbitrary byte sequences; the comparison loop has an invariant for one arbitrary position; the linkage of the function (usable from several sources) is one further obligation decided on the IR',
}
P = [json.loads(l) for l in open(os.path.join(ROOT, 'properties.jsonl'))]
t3 = '''Every property is claimed at level `proof` (unbounded unless an assumption says otherwise); none is not-applicable. Cost: 5 to 120 s each.
The units are in contracts/. Contracts and what they replace are in the unit; assumptions are repeated in the evidence.

| id | property | how it is decided | contract units | assumptions |
|---|---|---|---|---|
'''
for p in P:
    q = props.PROPS[p['id']]
    t3 += f"| {p['id']} | {p['title']} | {HOW[p['id']]} | {', '.join(q['src'])} | {'; '.join(q['assumptions'])} |\n".replace('|\n', '|\n')
rows = []
for s in sorted(os.listdir(os.path.join(ROOT, 'seeded'))):
    m = json.load(open(os.path.join(ROOT, 'seeded', s, 'meta.json')))
    rows.append(f"| {s} | {m['property']} | {m['needs']} | {m['what_it_breaks']} |")
t5 = 'Each is caught by the check of the property it names (all of them; a planted bug that was missed at first led to the strengthening named in section 6).\n\n| bug | caught by | needs | breaks |\n|---|---|---|---|\n' + '\n'.join(rows) + '\n'
d = open(os.path.join(ROOT, 'DESIGN.md')).read()
for k, t in (('TABLE', t3), ('SEEDED', t5)):
    d = re.sub(rf'<!--{k}-->.*?<!--/{k}-->', lambda m: f'<!--{k}-->\n{t}<!--/{k}-->', d, flags=re.S)
open(os.path.join(ROOT, 'DESIGN.md'), 'w').write(d)
