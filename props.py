"""Per-property configuration of the checks (see DESIGN.md).
F(shards, cases): worker processes, and generated cases per worker; the enumerated cases of a property are
split over the shards of every build flavour.  fuzz: a libFuzzer campaign over the same generator and oracle."""


def F(shards, cases, **k):
    return dict(shards=shards, cases=cases, **k)


S2 = ['s2_bridge']
FAC = ['factory']
FZ = dict(seconds=240, jobs=8, max_len=1024)

PROPS = {
    'C01': dict(src='C01', rule='case = number of points n of a Gauss-Legendre rule; enumerated, plus random n; non-trivial: n >= 3',
                exhaustive='every n in 1..1500 (quick) / 1..3000 (thorough); 10000, 16385, 32769, 65537 (thorough also 20000)',
                quick=dict(flavours={'rel': F(8, 30)}, cpu_limit=150), thorough=dict(flavours={'rel': F(8, 200)}, cpu_limit=300)),
    'C02': dict(src='C02', rule='case = number of points n of a Gauss-Lobatto rule; enumerated, plus random n; non-trivial: n >= 3',
                exhaustive='every n in 2..1500 (quick) / 2..3000; 10000, 16385, 32769 (thorough also 20000, 65537)',
                quick=dict(flavours={'rel': F(8, 30)}, cpu_limit=100), thorough=dict(flavours={'rel': F(8, 200)}, cpu_limit=300)),
    'C03': dict(src='C03', rule='case = (Chebyshev kind 1..3, number of points n); enumerated, plus random and round-number n; non-trivial: n >= 2',
                exhaustive='every n in 1..1000 (quick) / 1..2000 (thorough), all three kinds',
                quick=dict(flavours={'rel': F(8, 60)}), thorough=dict(flavours={'rel': F(8, 500)})),
    'C04': dict(src='C04', rule='case = (n, monomial degree k, exponent a); enumerated n, plus random; non-trivial: n >= 2',
                exhaustive='every n in 1..3000 (quick) / 1..6000 (thorough)',
                quick=dict(flavours={'rel': F(8, 3000)}), thorough=dict(flavours={'rel': F(8, 4000)})),
    'C05': dict(src='C05', rule='case = (n, interval); enumerated n on three intervals, plus random n and intervals; non-trivial: n >= 3 on an interval that survives rounding',
                exhaustive='every n in 2..3000 on [0,1], [-1,1], [3.25,1003.25]',
                quick=dict(flavours={'rel': F(8, 5000)}), thorough=dict(flavours={'rel': F(8, 20000)})),
    'C06': dict(src='C06', rule='case = (rule, n); enumerated, plus random large n; non-trivial: n >= 2',
                exhaustive='every n in 0..900 (quick) / 0..2500 (thorough), all seven rules; 32767..1000003 at nine sizes for the five non-Gauss-Legendre rules',
                quick=dict(flavours={'rel': F(8, 800), 'dbg': F(4, 20, enum=False)}), thorough=dict(flavours={'rel': F(8, 4000), 'dbg': F(8, 200, enum=False)})),
    'C07': dict(src='C07', rule='case = (radial scheme, n, construction route, scale R, exponent alpha); enumerated n, plus random parameters; non-trivial: n >= 2',
                exhaustive='every n in 0..2000 (quick) / 0..4000 (thorough), every scheme',
                quick=dict(flavours={'rel': F(6, 8000), 'dbg': F(2, 150, enum=False)}), thorough=dict(flavours={'rel': F(8, 20000), 'dbg': F(4, 2000, enum=False)})),
    'C08': dict(src='C08', rule='case = (radial scheme, n, power k, exponential or Gaussian tail, scale R, exponent); non-trivial: every case',
                exhaustive='every n in 40..300, every scheme',
                quick=dict(flavours={'rel': F(8, 12000)}), thorough=dict(flavours={'rel': F(8, 60000)})),
    'C09': dict(src='C09', libs=S2, rule='case = (angular family, supported order, axis); every order on 2 (thorough 6) axes, plus random axes; non-trivial: the grid exists',
                exhaustive='every (family, supported order)',
                quick=dict(flavours={'rel': F(8, 40)}), thorough=dict(flavours={'rel': F(8, 600)})),
    'C10': dict(src='C10', libs=S2, rule='case = (angular family, published size, symmetry operation); every grid with 2 operations, plus random operations; non-trivial: every case',
                exhaustive='every grid of every family',
                quick=dict(flavours={'rel': F(8, 600)}), thorough=dict(flavours={'rel': F(8, 3000)})),
    'C11': dict(src='C11', libs=S2, rule='case = (family, integer): looked up as order and as size; non-trivial: a supported order or size, or within the range of orders',
                exhaustive='every integer in -300..17000 for every family',
                quick=dict(flavours={'rel': F(8, 20000)}), thorough=dict(flavours={'rel': F(8, 500000)})),
    'C12': dict(src='C12', libs=S2 + FAC, rule='case = (family, requested size, direct or factory); enumerated sizes, plus random; non-trivial: size > 0',
                exhaustive='every size in 0..16000 (quick) / 0..25000 (thorough) for every family',
                quick=dict(flavours={'rel': F(8, 2500)}), thorough=dict(flavours={'rel': F(8, 10000)})),
    'C13': dict(src='C13', rule='case = (radial rule - generated nodes or a built-in one -, generated angular nodes, centre, route: construct/copy/clone/move/shared); non-trivial: more than one shell and more than one angular point',
                exhaustive='every combination of 1..14 shells with 1..14 angular points',
                quick=dict(flavours={'rel': F(5, 25000), 'dbg': F(3, 4000)}), thorough=dict(flavours={'rel': F(4, 60000), 'dbg': F(4, 20000)}, fuzz=FZ)),
    'C14': dict(src='C14', rule='case = (radial nodes, regions with their own angular nodes, partition operations, centre); non-trivial: two or more regions',
                exhaustive='1..9 shells x 1..4 regions x two ways of building the partition',
                quick=dict(flavours={'rel': F(5, 25000), 'dbg': F(3, 4000)}), thorough=dict(flavours={'rel': F(4, 60000), 'dbg': F(4, 20000)}, fuzz=FZ)),
    'C15': dict(src='C15', libs=FAC, rule='case = (scheme, radial kind, radial size, angular family, base size, build or not); non-trivial: a pruned scheme on more than one shell',
                exhaustive='every radial size in 1..3000 (quick) / 1..20000 (thorough) x scheme x family; every base grid x scheme x radial sizes 1..120',
                quick=dict(flavours={'rel': F(6, 4000), 'dbg': F(2, 300)}), thorough=dict(flavours={'rel': F(8, 60000), 'dbg': F(4, 4000)})),
    'C16': dict(src='C16', libs=S2 + FAC, rule='case = (radial kind and parameters, angular family, route, region sizes); non-trivial: more than one shell',
                exhaustive='every published angular size through five factory routes',
                quick=dict(flavours={'rel': F(8, 2500)}), thorough=dict(flavours={'rel': F(8, 8000), 'dbg': F(4, 400)})),
    'C17': dict(src='C17', rule='case = (grid, history of recentre/clone/copy/move/drop operations over several live grids); non-trivial: two or more moves',
                quick=dict(flavours={'rel': F(5, 25000), 'dbg': F(3, 1500)}), thorough=dict(flavours={'rel': F(4, 100000), 'dbg': F(4, 20000)}, fuzz=FZ)),
    'C18': dict(src='C18', rule='case = (point cloud: arbitrary, lattice with ties and duplicates, shells, structured; batch size; ownership route); non-trivial: more than one batch',
                exhaustive='structured clouds of 1..40 points x 5 shapes x 8 batch sizes',
                quick=dict(flavours={'rel': F(5, 15000), 'dbg': F(3, 800)}), thorough=dict(flavours={'rel': F(4, 60000), 'dbg': F(4, 10000)}, fuzz=FZ)),
    'C19': dict(src='C19', rule='case = (grid, batch size, history of clone/copy/move/recentre/edit operations over several batchers); non-trivial: at least one clone and one recentring',
                quick=dict(flavours={'rel': F(5, 20000), 'dbg': F(3, 1200)}), thorough=dict(flavours={'rel': F(4, 100000), 'dbg': F(4, 15000)}, fuzz=FZ)),
    'C20': dict(src='C20', rule='case = (one of 19 quadrature types, size, history of copy/move/slice/sub-range/edit operations); non-trivial: copied and edited',
                exhaustive='every pair of operations on every type at three sizes',
                quick=dict(flavours={'rel': F(5, 6000), 'dbg': F(3, 800)}), thorough=dict(flavours={'rel': F(4, 80000), 'dbg': F(4, 10000)}, fuzz=FZ)),
    'C21': dict(src='C21', libs=FAC, rule='case = (radial or angular, string): documented names in random capitalisation with 0..2 edits, and arbitrary bytes; non-trivial: a documented name or one edit away from one',
                exhaustive='all capitalisations of names up to 10 letters, a sample of the longer ones',
                quick=dict(flavours={'rel': F(6, 40000), 'dbg': F(2, 5000, enum=False)}), thorough=dict(flavours={'rel': F(8, 1000000), 'dbg': F(4, 40000)}, fuzz=dict(seconds=120, jobs=8, max_len=96))),
    'C22': dict(src='C22', rule='case = history of build/copy/assign/modify/compare operations over five specifications; non-trivial: a comparison of two specifications that differ in one field or share a copy',
                exhaustive='every ordered pair of 360 radial parameter sets',
                quick=dict(flavours={'rel': F(5, 40000), 'dbg': F(3, 2000)}), thorough=dict(flavours={'rel': F(4, 200000), 'dbg': F(4, 30000)}, fuzz=FZ)),
    'C23': dict(src='C23', rule='case = (kind of interval, bounds, node, weight) or a mapped Gauss rule; non-trivial: node strictly inside',
                exhaustive='199 nodes x 6 intervals x 4 kinds; Gauss-Legendre rules of 1..60 points on 3 intervals x 4 kinds',
                quick=dict(flavours={'rel': F(6, 40000), 'dbg': F(2, 5000)}), thorough=dict(flavours={'rel': F(8, 1000000), 'dbg': F(4, 40000)})),
    'C24': dict(src='C24', libs=FAC, rule='case = sequence of malformed requests (18 kinds), each followed by a well-formed one; non-trivial: every case',
                exhaustive='every kind x radial kind x angular family x 12 argument patterns',
                quick=dict(flavours={'rel': F(5, 5000), 'dbg': F(3, 100)}), thorough=dict(flavours={'rel': F(8, 20000), 'dbg': F(4, 2000)})),
    'C25': dict(src='C25', libs=FAC, rule='case = (radial kind, size, scale; angular family and size; pruning; centre; integrand; axis); non-trivial: more than one shell',
                exhaustive='every published angular size x every scheme',
                quick=dict(flavours={'rel': F(8, 1500)}), thorough=dict(flavours={'rel': F(8, 6000)})),
    'C26': dict(src='C26', libs=FAC, rule='case = (thread count 1..6, sequence of generation requests of 25 kinds, ten of them on objects shared by all threads); non-trivial: two or more requests',
                exhaustive='every request kind x 4 sizes x {1,4} threads; every kind around histories of 60, 600 and 4000 other requests',
                assumptions=['thread interleavings are those the scheduler and ThreadSanitizer happen to produce; ThreadSanitizer reports unsynchronised accesses whichever way they interleave'],
                quick=dict(flavours={'rel': F(8, 1500), 'tsan': F(4, 40)}), thorough=dict(flavours={'rel': F(8, 10000), 'tsan': F(8, 500)})),
    'C27': dict(src='C27', rule='case = (rule or radial quadrature, n, float or long double, scale); non-trivial: n >= 2',
                exhaustive='every n in 2..200 (quick) / 2..500 (thorough), all eleven quadratures, both precisions',
                quick=dict(flavours={'rel': F(8, 6000)}), thorough=dict(flavours={'rel': F(8, 30000)})),
    'C28': dict(src='C28', rule='case = (degree, precision, argument in (-1,1)); non-trivial: degree >= 2',
                exhaustive='every degree 0..200 at 99 arguments',
                quick=dict(flavours={'rel': F(8, 20000)}), thorough=dict(flavours={'rel': F(8, 200000)})),
    'C29': dict(src='C29', libs=S2, rule='case = an angular table, or a (pruned) sphere with centre, new centre and batch size, in float or long double; non-trivial: more than one shell',
                exhaustive='every published angular size in both precisions; 1..12 shells x radial rules x families x batch sizes',
                quick=dict(flavours={'rel': F(8, 4000)}), thorough=dict(flavours={'rel': F(8, 20000), 'dbg': F(4, 1500)})),
    'C30': dict(src='C30', libs=S2 + FAC, rule='case = (request of 34 kinds, parameters, which allocation is refused first in a fresh process, once or for good); each case then refuses every allocation of the request in turn; non-trivial: the request makes more than one allocation',
                exhaustive='every kind x 24 parameter sets; within each case every allocation (an even sample of 150 where there are more)',
                quick=dict(flavours={'rel': F(6, 1200), 'dbg': F(2, 120)}), thorough=dict(flavours={'rel': F(8, 30000), 'dbg': F(4, 2000)})),
    'C31': dict(src='C31', libs=FAC, rule='case = (compiler, language version, optimisation, header-only or compiled library, 1..3 translation units with 1..6 headers each in any order, and when each runs); non-trivial: two or more headers',
                exhaustive='every public header alone, included twice, and in two translation units, with either compiler',
                quick=dict(flavours={'rel': F(8, 28)}, time_cap=330), thorough=dict(flavours={'rel': F(8, 500)})),
    'C32': dict(src='C32', rule='case = (kind of operation and types, nodes and weights of two factors - any length, repeated and signed values); non-trivial: both factors have more than one entry',
                exhaustive='every combination of 0..9 with 0..9 entries, seven kinds',
                quick=dict(flavours={'rel': F(5, 20000), 'dbg': F(3, 1500)}), thorough=dict(flavours={'rel': F(4, 60000), 'dbg': F(4, 20000)}, fuzz=FZ)),
    'C34': dict(src='C34', libs=FAC, rule='case = (header-only, static or shared; build type; compiler; how the project takes the library in; header and library directories; generator, language standard, requested version; one or two translation units with 1..3 headers each); non-trivial: a factory is used',
                exhaustive='every way of taking the library in x header-only, static, shared; every public header from an installed copy',
                quick=dict(flavours={'rel': F(8, 4)}, time_cap=300), thorough=dict(flavours={'rel': F(8, 120)})),
    'C33': dict(src='C33', libs=FAC, rule='case = (locale, global C++ locale, rounding mode, flush-to-zero, pending flags, 256 KB stack, stream format; 1..6 requests out of 22 kinds); non-trivial: any part of the environment is not the default',
                exhaustive='every kind of request x 4 rounding modes and 6 locales x 8 sizes; every size 1..500 of every rule in every rounding mode',
                assumptions=['locales are compiled by localedef from the locale sources of this machine; where that is impossible the case runs in the C locale (label "locale not available")'],
                quick=dict(flavours={'rel': F(8, 4000)}), thorough=dict(flavours={'rel': F(8, 60000)})),
}
