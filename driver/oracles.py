"""Oracle and cost of each check, for the table of DESIGN.md."""
ORACLES = {
    'C01': ('bit-by-bit definition of leading zeros and powers of two', '1 s'),
    'C02': ('exact integer definitions in 64/128-bit arithmetic', '1 s'),
    'C03': ('IEEE 754 fields taken from the bit pattern with shifts and masks', '1 s'),
    'C04': ('interleaved bits compared one by one after the order-preserving map to unsigned; strict weak order axioms', '4 s'),
    'C05': ('fixed-point expansion of both numbers compared digit by digit (as exponent/mantissa arithmetic on bit-vectors); irreflexive/asymmetric/transitive on all finite values', '170 s'),
    'C06': ('containment, alignment, minimality, separation by the midpoint; Z-order (C04/C05 oracle) of an arbitrary point against the split', '115 s'),
    'C07': ('list of the inserted points with linear scans, comparison by the C04 oracle', '125 s'),
    'C08': ('boolean reachability matrix closed under every join', '105 s'),
    'C09': ('multiset of the values; counting how many are below/above the answer', '110 s'),
    'C10': ('membership of an arbitrary probe cell; mixed-radix arithmetic for positions', '80 s'),
    'C11': ('adjacency of consecutive cells; two arbitrary positions give different cells; all inside', '110 s'),
    'C12': ('array theory by hand: the last of two arbitrary writes to the read cell', '45 s'),
    'C13': ('quantifier over all cells of the clipped window, expanded', '160 s'),
    'C14': ('membership function of the symbolic labels, sortedness', '10 s'),
    'C15': ('re-implementation of the option grammar on character arrays; decimal parser; the text of a number', '26 s'),
    'C16': ('word splitter on the character array; expected text of the output', '27 s'),
    'C17': ('mean, unbiased variance, extremes of the list; symbolic clock readings', '2 s'),
    'C18': ('whole number of periods recovered by rounding, distance within tolerance', '2 s'),
    'C19': ('Taylor models of the true functions with remainder', '30 s'),
    'C20': ('the defining series (tail bounded), sum over harmonics', '10 s'),
    'C21': ('cos at an arbitrary angle of the interval; attained at end points or multiples of pi', '7 s'),
    'C22': ('all subsets with a common point, their cost, weighted mean; residuals of the answer', '33 s'),
    'C23': ('matrix of sin/cos; angle offsets turned counter-clockwise; signed area', '5 s'),
    'C24': ('distance to every face; an arbitrary surface point is not closer', '62 s'),
    'C25': ('WGS84 formulas, series of the degree length by multiple-angle polynomials; inversion', '48 s'),
    'C26': ('own vote counting with gaps from bin limits; clipped-window peaks by definition', '40 s'),
    'C27': ('as C26 in the plane', '29 s'),
    'C28': ('all subsets of the pairs, coherence by definition, largest size', '10 s'),
    'C29': ('list of the symbolic folder entries; digits of the symbolic local time', '11 s'),
    'C31': ('component-wise arithmetic', '2 s'),
    'C32': ('expected text per value', '3 s'),
    'C33': ('conditions of the least squares rotation on the singular values of the cross covariance of the symbolic cloud, centroids; principal axes by construction of the cloud', '40 s'),
}
