"""The properties: text, anchors, and what their checks say about themselves.
gen.py writes properties.jsonl, MANIFEST.json and a part of DESIGN.md from it.

P(id, title, statement, over, quantifier text, why tests cannot, files,
  mechanism [(name, where)], spec=dict(harness, lib, ... for check.py),
  bounds, design, note)
"""
PROPS = []
NOT_APPLICABLE = []
TECH = ('stateless model checking of the implementation: exhaustive '
        'depth-first enumeration of all decision sequences within the bounds, '
        'in lock-step with a reference model')


def P(pid, title, statement, over, quant, why, files, mech, harness, bounds,
      design, note='', lib=(), configs=None, configs_thorough=None, flags=(),
      assumptions=(), tech=TECH, shards=8, observe=()):
    assert len(title) <= 80, title
    spec = dict(harness=[harness], lib=list(lib), bounds=bounds,
                assumptions=list(assumptions), flags=list(flags),
                shards=shards)
    if configs:
        spec['configs'] = configs
    if configs_thorough:
        spec['configs_thorough'] = configs_thorough
    PROPS.append(dict(id=pid, title=title, statement=statement, over=over,
                      quant=quant, why=why, files=files, mech=mech, spec=spec,
                      bounds=bounds, design=design, note=note, tech=tech,
                      observe=list(observe)))


GRAV = ['gravity/*.cpp', 'stokes_coefficients.cpp']
MATH = 'include/coeff_matrix_2d.hpp'
STOR = 'include/coeff_matrix_storage.hpp'
STK = 'include/stokes_coefficients.hpp'
STKC = 'src/lib/stokes_coefficients.cpp'
GRH = 'include/gravity.hpp'
GRC = 'src/lib/gravity/sh_cunningham_normalized_gradient.cpp'
ALF = 'src/lib/gravity/forward_column_alf.cpp'
PMA = 'src/lib/gravity/point_mass_acceleration.cpp'

P('P01', 'Matrix elements have distinct, stable and layout-conform addresses',
  'In every storage scheme each valid element of a coefficient matrix has its '
  'own place inside of the allocated storage, in the documented order, and '
  'all ways to reach it (element, slice, row or column view, raw data) agree. '
  'Writing one element changes no other, and the storage holds exactly as '
  'many elements as the scheme documents.',
  ['inputs', 'configurations'],
  'All dimensions of the five storage schemes, all elements, all access paths.',
  'Existing tests walk a few fixed sizes per scheme; an off-by-one for '
  'rectangular, single row or single column shapes stays unseen.',
  [STOR, MATH],
  [('index arithmetic per storage scheme', STOR),
   ('element access, slices, row and column pointers', MATH)],
  'P01.cpp',
  {'quick': 'all five storage schemes, every shape up to 14x14, every element '
            'and access path; debug and release builds',
   'thorough': 'the same up to 40x40'},
  'Every scheme x shape x element is enumerated on the real templates. Oracle: '
  'an independent enumeration of the elements of the scheme in documented '
  'order; each element gets a unique value through one access path and is '
  'read back through all others, and the sanitizers watch the storage bounds.')

P('P02', 'Matrices survive any history of copies, moves, resizes and scaling',
  'After any sequence of construction, copy, move, swap, assignment, resizing '
  '(with or without keeping data), filling and scaling, a coefficient matrix '
  'has the dimensions and contents an ordinary matrix would have, and is '
  'independent of every other one. No sequence reads or writes foreign '
  'memory, releases anything twice, or leaks.',
  ['histories'],
  'All operation sequences up to a depth over three matrices, for every '
  'storage scheme, with growing, shrinking and empty dimensions.',
  'Tests run one or two hand-picked sequences; defects need a specific order '
  'of operations, e.g. shrink, then grow within capacity, then move.',
  [MATH, STOR],
  [('ownership and capacity bookkeeping', MATH),
   ('data keeping resize', MATH)],
  'P02.cpp',
  {'quick': 'all operation sequences of length <= 4 over a pool of matrices of '
            'each storage scheme, dimensions 0..4',
   'thorough': 'sequences of length <= 5'},
  'Operation sequences on the real class in lock-step with a value model '
  '(vector of rows); contents, dimensions and independence compared after '
  'every operation, leaks by live-byte accounting per trace, memory errors by '
  'AddressSanitizer. Fresh memory is filled with NaNs.')

P('P03', 'Sums and scalings of matrices and views equal elementwise evaluation',
  'Any expression built from coefficient matrices by addition, scaling and '
  'restriction to a smaller size evaluates, element by element, to what the '
  'same arithmetic gives on ordinary matrices, also when the target appears '
  'in the expression. Incompatible operands are rejected and operands are '
  'never modified.',
  ['programs', 'inputs'],
  'All expression shapes up to three operands over all storage schemes and '
  'small dimensions, including restricted views and aliasing targets.',
  'Tests hold a handful of expressions with equal sizes; the interesting cases '
  'are views of larger matrices, whose stride differs, and mixed shapes.',
  [MATH, STOR],
  [('lazy expressions and restricted views', MATH)],
  'P03.cpp',
  {'quick': 'all expression shapes with up to three operands, dimensions up to '
            '4, all schemes, views of every smaller size',
   'thorough': 'the same, dimensions up to 6'},
  'Programs (expression shape, operands, view sizes, target) are enumerated '
  'and executed on the real expression templates; the oracle evaluates the '
  'same expression on plain arrays.')

P('P04', 'Stokes coefficient sets keep their meaning through any history',
  'After any sequence of creation, copying, moving, swapping, resizing, '
  'reducing, clearing and scaling, a set of Stokes coefficients reports the '
  'degree, order, constants and coefficients the operations imply. Operations '
  'that keep data keep every coefficient of the common degree and order.',
  ['histories'],
  'All operation sequences up to a depth over two sets, degrees 0 to 4 and '
  'all orders.',
  'Existing tests add and pack sets of one size; no test combines resizing, '
  'reducing and copying, and none has degree 0 or order 0.',
  [STK, STKC],
  [('degree and order kept apart from storage dimensions', STK),
   ('resize with and without keeping data', STKC)],
  'P04.cpp',
  {'quick': 'all operation sequences of length <= 3, degrees 0..4',
   'thorough': 'sequences of length <= 4'},
  'Lock-step with a value model of a coefficient set; every coefficient, the '
  'constants and flags are compared after every operation.',
  lib=['stokes_coefficients.cpp'])

P('P05', 'Accumulating Stokes coefficients adds exactly the shared ones',
  'Adding one set of Stokes coefficients to another changes exactly the '
  'coefficients of the argument\'s degree and order, by exactly their value, '
  'for sine and cosine coefficients alike. An argument larger than the target '
  'is refused and leaves the target as it was.',
  ['inputs', 'histories'],
  'All pairs of degree and order of target and argument, however they were '
  'built, repeated and self addition, and all sequences of several arguments.',
  'Three fixed sizes are tested; truncated orders, sets cut down from larger '
  'ones and refused additions are not.',
  [STKC, STK],
  [('column wise accumulation', STKC)],
  'P05.cpp',
  {'quick': 'degrees and orders 0..3 of target and argument, three ways to '
            'build each, one or two additions; all triples of arguments',
   'thorough': 'degrees and orders 0..5; all 4-tuples of arguments'},
  'All pairs enumerated with unique values per coefficient, so that any '
  'misplaced one shows; oracle is a plain array model.',
  lib=['stokes_coefficients.cpp'])

P('P06', 'Packing Stokes coefficients into one square matrix is lossless',
  'Packing a set of Stokes coefficients into a square matrix and unpacking it '
  'again gives the same coefficients for every degree and order, with sine '
  'coefficients of order zero equal to zero, and so does unpacking and '
  'packing any square matrix.',
  ['inputs'],
  'All degrees and orders within the bound, all elements, sets of any history.',
  'Tests check a few degrees and orders and never look at the sine '
  'coefficients of order zero.',
  [STK],
  [('packing and unpacking', STK)],
  'P06.cpp',
  {'quick': 'degrees 0..9, all orders, five ways to build the set',
   'thorough': 'degrees 0..20'},
  'Every degree/order pair enumerated with unique values in every element; '
  'the documented index relation is the oracle.',
  lib=['stokes_coefficients.cpp'])

P('P07', 'Associated Legendre functions are right wherever they are written',
  'For any latitude, degree and order, the normalised associated Legendre '
  'functions agree with their definition to rounding error, and their squares '
  'sum to 2n+1 over the orders of a degree. Nothing is written outside of a '
  'storage just large enough, and its former contents have no influence.',
  ['inputs', 'histories', 'configurations'],
  'All degrees and orders within the bound on a lattice of latitudes with '
  'both poles and the equator, exactly sized and larger storage, and '
  'sequences of calls on the same storage.',
  'One existing test compares a few values for one latitude and size.',
  [ALF, GRH],
  [('forward column recursion', ALF)],
  'P07.cpp',
  {'quick': 'degree <= 28 with all orders on 15 latitudes, three storage '
            'sizes, both functions; selected degrees up to 1030; sequences of '
            'two calls on one storage',
   'thorough': 'degree <= 60 on 78 latitudes; up to degree 1500; sequences of '
               'three calls'},
  'The space degree x order x storage x latitude lattice is enumerated on the '
  'real functions; the oracle is an independently written long double '
  'recursion plus the addition theorem. Latitude is continuous: the verdict '
  'is for the lattice.',
  lib=GRAV,
  note='Latitudes are a finite lattice; tolerance grows with degree squared.')

P('P08', 'Derivatives of Legendre functions are right for every degree and order',
  'For any latitude except the poles, the first derivatives of the normalised '
  'associated Legendre functions with respect to colatitude agree with the '
  'definition to rounding error for every requested degree and order, along '
  'with the functions themselves. Their storage may be exactly sized and of '
  'any former content.',
  ['inputs', 'histories'],
  'All degrees and orders within the bound on a lattice of latitudes, all '
  'combinations of storage sizes, sequences of calls.',
  'No test looks at the derivatives beyond one call.',
  [ALF, GRH],
  [('derivative recursion', ALF)],
  'P08.cpp',
  {'quick': 'degree <= 30, all orders, 13 latitudes, nine storage '
            'combinations; degrees 90, 180, 360',
   'thorough': 'degree <= 60 on 76 latitudes; up to degree 1030'},
  'As P07; the oracle uses the derivative formula over neighbouring orders, '
  'which is another one than the implementation uses.',
  lib=GRAV,
  note='Latitudes are a finite lattice; the poles are excluded because the '
       'implementation documents no value there.')

P('P09', 'Gravity acceleration is the gradient of the expansion at every point',
  'For every set of Stokes coefficients, degree and order of expansion, and '
  'position, the acceleration is the gradient of the potential the '
  'coefficients describe, truncated to the requested degree and order. This '
  'includes positions over the poles, on the axes and on the equator, and '
  'expansions of order zero.',
  ['inputs', 'configurations'],
  'Every single coefficient with every degree and order of expansion on a '
  'lattice of positions; dense coefficient sets up to the largest degree.',
  'No stable test evaluates an expansion against an independent value; '
  'benchmarks use one full-order model at ordinary positions.',
  [GRC, GRH, STK],
  [('recursion of solid harmonics and summation', GRC)],
  'P09.cpp',
  {'quick': 'units: n,m <= 6, sine and cosine, all expansions <= 6/6, 28 '
            'directions x 3 radii; single coefficients up to degree 30; dense '
            'sets up to degree 198 at 40 directions x 3 radii, 6 orders',
   'thorough': 'units up to 9 at 4 radii, single coefficients up to degree 60, '
               'dense sets at 436 directions'},
  'The result is linear in the coefficients, so unit coefficients x expansion '
  'x position lattice decide it there. Oracle: unnormalised solid harmonics in '
  'long double over second order jets (automatic differentiation), which '
  'shares no derivative formula with the implementation.',
  lib=GRAV, note='Positions are a finite lattice.')

P('P10', 'Gravity gradient is symmetric, trace free and consistent everywhere',
  'For every set of Stokes coefficients, degree and order of expansion, and '
  'position outside of the origin, the gradient of the acceleration is the '
  'matrix of second derivatives of the truncated potential. It is symmetric '
  'and its trace vanishes.',
  ['inputs', 'configurations'],
  'Every single coefficient with every degree and order of expansion on a '
  'lattice of positions; dense coefficient sets up to the largest degree.',
  'No test looks at the gradient for a truncated order, where additional '
  'columns of the recursion are needed.',
  [GRC, GRH],
  [('recursion up to two degrees and orders above the expansion', GRC)],
  'P10.cpp', {'quick': 'as P09', 'thorough': 'as P09'},
  'As P09, second derivatives of the jets.',
  lib=GRAV, note='Positions are a finite lattice.')

P('P11', 'Expansions use only what was requested and refuse invalid requests',
  'An expansion uses exactly the coefficients up to the requested degree and '
  'order, or up to those of the model when none are requested, and the radius '
  'and gravitational constant that were given or else those of the model. '
  'Requests the model, the scratch space or the implementation cannot serve '
  'are refused with an error, and never touch foreign memory or leak.',
  ['inputs', 'configurations'],
  'All combinations of model size, storage history, requested degree and '
  'order, own radius and constant, and scratch space sizes, and degrees '
  'around the largest one supported.',
  'Refusals are not tested at all, nor are truncated requests.',
  [GRC, GRH, STK],
  [('validation of requests and scratch space', GRC)],
  'P11.cpp',
  {'quick': 'models up to degree 5 of three histories, requests -1..6 each, '
            'scratch sizes N+1..N+4 or none, degrees 196..230',
   'thorough': 'models up to degree 7, four positions'},
  'Coefficients outside of the request are NaN: any use of one shows in the '
  'result. Refusal decisions are compared with a model of the contract; '
  'sanitizers and live-byte accounting watch memory.',
  lib=GRAV)

P('P12', 'Evaluations of a gravity model do not depend on earlier ones',
  'The result of an expansion depends on its arguments alone: not on earlier '
  'evaluations in the process, the former contents or size of scratch space, '
  'or the former contents of the outputs. Evaluating changes neither the '
  'model nor the size of the scratch space.',
  ['histories'],
  'All sequences of evaluations up to a depth that differ in degree, order, '
  'position and use of scratch space, starting in fresh processes too.',
  'Tests evaluate once per process; stale scratch rows or tables sized by the '
  'first call need a second, different call.',
  [GRC],
  [('tables constructed on first use', GRC), ('scratch space reset', GRC)],
  'P12.cpp',
  {'quick': 'sequences of 3 evaluations: degree <= 2, 2 positions, 4 scratch '
            'uses; 125 triples of first degrees in fresh processes; 512 '
            'triples on large scratch',
   'thorough': 'degree <= 3, 3 positions'},
  'Call sequences on the real code (fresh processes by fork where the first '
  'call matters); every result is compared with the reference of P09.',
  lib=GRAV)

P('P13', 'Third body acceleration and Jacobian follow from one potential',
  'The acceleration by a third body is the gradient of its tidal potential '
  'for every constellation, in any consistent unit, and the Jacobian is its '
  'matrix of second derivatives. Both ways to compute the acceleration agree.',
  ['inputs'],
  'All pairs of positions from lattices of satellite and body positions with '
  'all axis permutations and signs, several constants and units.',
  'No stable test calls these functions.',
  [PMA, GRH],
  [('closed formulas', PMA)],
  'P13.cpp',
  '8 satellite x 8 body positions, 6 permutations, 8 sign patterns, 4 '
  'constants, 2 units',
  'Lattice enumeration against automatic differentiation of the potential in '
  'long double.',
  lib=GRAV, note='Positions are a finite lattice.')

P('P14', 'Compensated sums keep the lost digits through any sequence',
  'However terms of any magnitude and sign are accumulated, the compensated '
  'sum differs from the exact sum by no more than a rounding error of the '
  'result plus second order terms. Reading it off, copying it and continuing '
  'changes nothing.',
  ['inputs', 'histories'],
  'All sequences up to a length over values chosen to cancel, absorb and '
  'round each other, all prefixes, copies in between.',
  'One test sums one sequence; the branch for terms larger than the sum and '
  'copies of a running sum are not distinguished by it.',
  ['include/kahan.hpp'],
  [('improved Kahan-Babuska summation', 'include/kahan.hpp')],
  'P14.cpp',
  {'quick': 'all sequences of length <= 4 over 16 values with 17 starts; copy '
            'histories of length 5 over two sums; long patterns up to 1000 terms',
   'thorough': 'length <= 6; histories of length 6; patterns up to 3333 terms'},
  'All sequences executed on the real class; oracle: exact fixed point sums in '
  '128 bit integers and the proven error bound of the algorithm.')

P('P15', 'Grid indices and nodes are inverse to each other',
  'On a regular grid every point in range belongs to exactly one index, '
  'indices count the nodes without gaps along the leading axis, and the node '
  'of an index is the lower corner of the cell whose points have that index. '
  'Points out of range are reported as such.',
  ['inputs', 'configurations'],
  'All grids within the bounds for both leading axes, all cells, points at '
  'the corner, inside, and just below the next node, and points around.',
  'The grid has no test at all.',
  ['include/grid.hpp'],
  [('index arithmetic', 'include/grid.hpp')],
  'P15.cpp',
  {'quick': 'grids up to 4x4 points, 25 combinations of axes with exactly '
            'representable nodes, both leading axes',
   'thorough': 'grids up to 7x7'},
  'Complete enumeration of grids, cells and positions in the cell; the oracle '
  'is integer arithmetic.',
  note='Steps and origins are exactly representable, so that no rounding '
       'decides on the cell.')

P('P16', 'The nodes around a point are the corners of its cell',
  'For every point enclosed by four grid nodes, the four indices reported as '
  'surrounding it are those of the corners of its cell, each in its place. '
  'For a point out of range all four are reported as invalid.',
  ['inputs', 'configurations'],
  'All grids within the bounds for both leading axes, all points of the P15 '
  'lattice that are enclosed or out of range.',
  'The grid has no test at all.',
  ['include/grid.hpp'],
  [('neighbour arithmetic', 'include/grid.hpp')],
  'P16.cpp',
  {'quick': 'grids up to 5x5 points, 25 combinations of axes',
   'thorough': 'grids up to 7x7'},
  'As P15. Points past the last node of an axis have no four surrounding '
  'nodes and are outside of the property.')

P('P17', 'Stopwatches add up the time between start and stop',
  'After any sequence of starts, stops, copies and passing time, a stopwatch '
  'reports the total of its measured intervals, their number and their exact '
  'average in any unit, keeps its name, and compares to another by average. '
  'Names of any length and watches without samples do no harm.',
  ['histories', 'inputs'],
  'All operation sequences up to a depth over two watches with a controlled '
  'system clock; all lengths of names up to 63.',
  'The class has no test, and real time cannot be controlled in one.',
  ['include/clock.hpp'],
  [('accumulated duration and sample count', 'include/clock.hpp')],
  'P17.cpp',
  {'quick': 'all sequences of 5 out of 13 operations',
   'thorough': 'all sequences of 7'},
  'The time source is replaced at link level, so that time is a decision of '
  'the explorer; lock-step with an integer model.')

# --------------------------------------------------------------------------
# Everything below is not part of the offline build of the repository; the
# checks compile these sources against /verif/shim
SHIM = ('time scales are those of the ggdatetime stand-in in /verif/shim',)

P('P20', 'Doodson numbers mean the same in text, arithmetic and wave tables',
  'A constituent written as text is read back as itself; damaged, short or '
  'foreign text is refused without looking past its end. The argument of a '
  'constituent is the sum of multiples of the Doodson variables, which are '
  'those of the lunisolar arguments and sidereal time, and every named wave of '
  'the tables is found under its name only, with its number, phase and speed.',
  ['inputs'],
  'All values of any two places of a number, all replacements of a character '
  'and all lengths, lattices of angles, all waves of the tables and variants '
  'of their names.',
  'The only test reads a dozen strings and is not part of the offline build.',
  ['include/doodson.hpp', 'src/lib/doodson/doodson_from_chars.cpp',
   'src/lib/doodson/doodson_to_str.cpp',
   'src/lib/doodson/resolve_iers2010_doodson_string.cpp',
   'src/lib/doodson/match_tadal_constituents.cpp',
   'src/lib/doodson/tidal_wave_tables.cpp'],
  [('reading of Doodson numbers', 'src/lib/doodson/doodson_from_chars.cpp'),
   ('tables of tidal waves', 'include/doodson.hpp')],
  'P20.cpp',
  {'quick': 'all pairs of places and their 36x36 values; 7x256 characters; '
            'pairs of places, 8 multipliers and 8 angles; 8x4^5 arguments; all '
            '52 waves',
   'thorough': '8x8^5 arguments'},
  'Complete enumeration; the oracles are the documented code of the digits, '
  'extended precision sums, and independent lists of names and numbers with '
  'the speeds that follow from the IERS argument rates.',
  lib=['doodson/*.cpp'], assumptions=SHIM)

P('P21', 'Fundamental arguments and their rates are those of IERS 2010',
  'At any time the lunisolar and planetary fundamental arguments equal, up to '
  'full turns, the polynomials of the IERS 2010 conventions, and the '
  'derivatives are the derivatives of these per Julian century. Single '
  'functions, arrays and overloads for epochs agree.',
  ['inputs'],
  'All epochs of nested lattices from seconds to a hundred centuries around '
  'four origins, and of days and seconds at the edges.',
  'The tests compare to the same constants at random epochs near today, where '
  'the higher terms have no effect; derivatives have no test.',
  ['include/fundarg.hpp', 'src/lib/fundarg/fundarg.cpp'],
  [('argument polynomials', 'include/fundarg.hpp')],
  'P21.cpp',
  {'quick': '1200 epochs on 12 lattices; 49 epochs in days and seconds',
   'thorough': '3888 epochs; 2380 epochs in days and seconds'},
  'A polynomial of degree four is determined by its values at five points; the '
  'lattices are dense enough to exclude a difference by full turns, and wide '
  'enough for the smallest coefficient to matter. Reference in extended '
  'precision.',
  lib=['fundarg/*.cpp'], assumptions=SHIM)

# Earth orientation parameters
EOPL = ['eop/*.cpp', '!eop/zonal_tides_iers.cpp', 'fundarg/*.cpp']

P('P50', 'EOP files are read completely, in order and only within the window',
  'Reading an IERS C04/14 or C04/20 file yields exactly the records whose '
  'epoch, converted to TT, lies in the half-open window asked for, with every '
  'value in its place and the TAI-UTC of its day; earlier contents of the '
  'series are gone. The format is recognised from the header, comment and '
  'blank lines are skipped, and a missing or damaged file is reported as an '
  'error and never ends the program.',
  ['inputs', 'histories', 'fault_sequences'],
  'All files of a few lines of all kinds (good, comment, blank, truncated, '
  'garbled, over-long, inconsistent), all windows, both formats.',
  'The tests read one intact file of each format with one window, and are '
  'not part of the offline build.',
  ['include/eop.hpp', 'src/lib/eop/parse_iers_c04.cpp',
   'src/lib/eop/parse_iers_c0414.cpp', 'src/lib/eop/parse_iers_c0420.cpp',
   'src/lib/eop/choose_eop_c04_series.cpp'],
  [('record parsing', 'src/lib/eop/parse_iers_c0420.cpp'),
   ('format recognition', 'src/lib/eop/choose_eop_c04_series.cpp')],
  'P50.cpp',
  {'quick': 'files of 3 lines of 10 kinds, 4x4 windows, both formats and '
            'readers, fresh and used series; all damages of the header',
   'thorough': '8x8 windows, and files of 4 lines'},
  'File contents are decisions of the explorer; the file is written to a '
  'scratch directory and read by the real parser. Oracle: what the lines were '
  'made from. At most one damaged line per file.',
  lib=EOPL, assumptions=SHIM)

P('P51', 'Interpolated Earth orientation depends only on data, epoch and degree',
  'Interpolating a non-empty series at any epoch gives the Lagrange polynomial '
  'of the requested degree through equally many records on both sides, of the '
  'highest lower degree where the series ends, and the nearest record outside '
  'of it; the status tells which. UT1-TAI is what is interpolated, so that '
  'UT1-UTC is right across leap seconds. Neither earlier queries nor copies, '
  'moves, refills or the life of other series have an influence.',
  ['inputs', 'histories'],
  'All lengths, spacings and degrees 1-9, epochs relative to every record and '
  'day boundary, and all histories of queries, copies, moves and refills.',
  'A cached position makes the result of one query reachable only through '
  'the history of others; tests query one series once.',
  ['include/eop.hpp', 'src/lib/eop/lagrange_interpolation.cpp',
   'src/lib/eop/approx_dut1.cpp'],
  [('interval hunting and interpolation',
    'src/lib/eop/lagrange_interpolation.cpp'),
   ('ownership of the cached position', 'include/eop.hpp')],
  'P51.cpp',
  {'quick': 'series of 1..14 records, 3 spacings, degrees 1..9, 12 seconds x '
            'all days; all histories of 4 operations over two series',
   'thorough': 'series of 1..24 records; histories of 5 operations'},
  'Lock-step with a long double Lagrange reference that has its own '
  'leap second table and no state.',
  'At the first epoch itself only the value is checked: the documentation '
  'calls it out of bounds, the code interpolates, both give the record.',
  lib=EOPL, assumptions=SHIM)

P('P52', 'Tidal variations of Earth orientation are those of the IERS tables',
  'For any values of the lunisolar arguments and of sidereal time, the '
  'variations of UT1, length of day, rotation rate and pole coordinates due to '
  'zonal tides, libration and ocean tides equal the harmonic sums of the '
  'published IERS 2010 tables.',
  ['inputs'],
  'All points of argument lattices dense enough to determine every harmonic '
  'of the tables, and of shifted, denser ones.',
  'The tests compare a few epochs, at which most of the hundreds of '
  'coefficients hardly contribute, and are not part of the offline build.',
  ['src/lib/eop/zonal_tides.cpp', 'src/lib/eop/libration.cpp',
   'src/lib/eop/ocean_tide_variation.cpp', 'include/eop.hpp'],
  [('zonal tide variations', 'src/lib/eop/zonal_tides.cpp'),
   ('libration', 'src/lib/eop/libration.cpp'),
   ('ocean tides', 'src/lib/eop/ocean_tide_variation.cpp')],
  'P52.cpp',
  {'quick': '2K+1 points per argument for harmonics up to K (zonal: 4375 '
            'points), and two shifted lattices of 2K+2',
   'thorough': 'the same, with sanitizers'},
  'A trigonometric polynomial is determined by its values on such a lattice, '
  'so that enumerating it decides equality of all coefficients; the oracle is '
  'a table transcribed from the IERS sources in a different convention.',
  lib=EOPL, assumptions=SHIM, configs=['rel'],
  configs_thorough=['dbg', 'rel'])

P('P53', 'Regularisation removes the zonal tides once, and can be undone',
  'Every regularisation of a series subtracts the zonal tidal variation at the '
  'epoch of each record from its UT1 and length of day, every '
  'de-regularisation adds it; nothing else changes. After any sequence of '
  'these, copies, refills and queries a series holds its original values plus '
  'the net number of corrections.',
  ['histories', 'inputs'],
  'All histories of a depth over two series with three spacings, and all '
  'days over 16 years.',
  'There is no test of regularisation.',
  ['src/lib/eop/regularize.cpp', 'include/eop.hpp', 'include/fundarg.hpp'],
  [('regularisation', 'src/lib/eop/regularize.cpp')],
  'P53.cpp',
  {'quick': 'all histories of 4 operations; 6000 days',
   'thorough': 'all histories of 5 operations'},
  'Lock-step with a model that keeps the original values and the net number '
  'of corrections, which come from the reference tables of P52 and the '
  'reference arguments of P21.',
  lib=EOPL, assumptions=SHIM)

P('P26', 'ICGEM 1.0 models give the coefficients of the epoch asked for',
  'Parsing an ICGEM 1.0 file yields, for every degree and order within the '
  'request, the sum of its static terms and of its trends and periodic terms '
  'counted from the reference epoch of the same term, in years; everything '
  'else is zero, and degree, order, GM, radius and normalisation are those '
  'found. What the coefficients held before does not matter.',
  ['inputs', 'configurations'],
  'All sequences of terms of a length, requests and epochs; all ways of '
  'writing a line (exponents, signs, gaps, error columns).',
  'The tests print a few coefficients of downloaded files for comparison by '
  'hand; none of them uses this version.',
  ['include/icgemio.hpp', 'src/lib/icgem/icgemio_read_data_v1.cpp',
   'src/lib/icgem/resolve_igcem_data_line_v1.cpp',
   'src/lib/icgem/resolve_igcem_data_date_v1.cpp'],
  [('summation of terms', 'src/lib/icgem/icgemio_read_data_v1.cpp'),
   ('parsing of a line', 'src/lib/icgem/resolve_igcem_data_line_v1.cpp')],
  'P26.cpp',
  {'quick': 'all sequences of 3 terms of 16 kinds, 5 requests, 3 epochs; all '
            'single terms in 192 ways of writing',
   'thorough': 'all sequences of 4 terms, 2 epochs'},
  'The file is a decision of the explorer, written to a scratch directory and '
  'read by the real parser; the oracle sums in extended precision what the '
  'file was made from.',
  lib=['icgem/*.cpp', 'stokes_coefficients.cpp'], assumptions=SHIM)

P('P27', 'ICGEM 2.0 models give the coefficients valid at the epoch asked for',
  'Parsing an ICGEM 2.0 file yields, for every degree and order within the '
  'request, the sum of its static terms and of those time-variable terms whose '
  'half-open validity interval contains the epoch, counted from its begin in '
  'years; everything else is zero, and degree, order, GM, radius and '
  'normalisation are those found.',
  ['inputs', 'configurations'],
  'As P26, with all combinations of validity intervals around the epochs.',
  'The tests print a few coefficients of downloaded files for comparison by '
  'hand.',
  ['include/icgemio.hpp', 'src/lib/icgem/icgemio_read_data_v2.cpp',
   'src/lib/icgem/resolve_igcem_data_line_v2.cpp',
   'src/lib/icgem/resolve_igcem_data_date_v2.cpp'],
  [('summation of valid terms', 'src/lib/icgem/icgemio_read_data_v2.cpp'),
   ('parsing of a line', 'src/lib/icgem/resolve_igcem_data_line_v2.cpp')],
  'P27.cpp',
  {'quick': 'all sequences of 3 terms of 34 kinds, 2 requests, 2 epochs; all '
            'single terms in 192 ways of writing',
   'thorough': '5 requests, 3 epochs'},
  'As P26.',
  lib=['icgem/*.cpp', 'stokes_coefficients.cpp'], assumptions=SHIM)

P('P25', 'The header of an ICGEM file is understood, or refused',
  'Whatever the order and spacing of its lines, and whatever text precedes it, '
  'the header of an ICGEM file yields its constants, names, error model, '
  'normalisation and version, with the documented defaults, and the data that '
  'follow are found. Values without a place are cut to fit; a header that is '
  'incomplete, damaged or not there is refused.',
  ['inputs', 'fault_sequences'],
  'All pairs of 14 factors of a header over their domains, all keywords '
  'damaged, all prefixes and one-byte replacements of a header.',
  'The tests print the headers of a few downloaded files.',
  ['include/icgemio.hpp', 'src/lib/icgem/icgemio_read_header.cpp',
   'src/lib/icgem/icgemio.cpp'],
  [('header parsing', 'src/lib/icgem/icgemio_read_header.cpp')],
  'P25.cpp',
  {'quick': 'all pairs of factors with up to 200 values; 6 replacements of '
            'each byte',
   'thorough': 'the same'},
  'Complete enumeration of the pairs; the oracle is what the header was made '
  'from. The text before a header contains words that begin like keywords.',
  'A keyword that is missing altogether is not refused by the library, and is '
  'not part of the property.',
  lib=['icgem/*.cpp', 'stokes_coefficients.cpp'], assumptions=SHIM)

P('P28', 'Damaged ICGEM data and impossible requests are reported as errors',
  'A data line that is cut, garbled, too long, of an unknown kind, of an '
  'impossible degree or order, or without the reference epoch it needs makes '
  'parsing fail, as does a request beyond the model or a file that vanished. '
  'No content of the file ends the program or touches foreign memory.',
  ['inputs', 'fault_sequences'],
  'All lines of all kinds cut at every place, with every field and character '
  'damaged; all short sequences of terms; all requests up to a degree.',
  'The tests only read intact files.',
  ['src/lib/icgem/icgemio_read_data_v1.cpp',
   'src/lib/icgem/icgemio_read_data_v2.cpp',
   'src/lib/icgem/resolve_igcem_data_line_v1.cpp',
   'src/lib/icgem/resolve_igcem_data_line_v2.cpp',
   'src/lib/icgem/resolve_igcem_data_date_v1.cpp',
   'src/lib/icgem/resolve_igcem_data_date_v2.cpp'],
  [('line parsing', 'src/lib/icgem/resolve_igcem_data_line_v2.cpp')],
  'P28.cpp',
  {'quick': '5 kinds of lines, all cuts, 8 replacements of each character; all '
            'sequences of 3 terms of 30 kinds; models up to degree 6',
   'thorough': 'the same'},
  'Fault enumeration on files read by the real parser under sanitizers.',
  lib=['icgem/*.cpp', 'stokes_coefficients.cpp'], assumptions=SHIM)

AOD = ['aod1b/*.cpp', 'doodson/*.cpp', 'tidal_constituent.cpp',
       'stokes_coefficients.cpp']
P('P30', 'The header of an AOD1B file is understood, or refused',
  'Whatever the spacing and order of its lines, the header of an AOD1B product '
  '(tidal or not) yields the values written in it, with epochs converted from '
  'GPS time to TT, also after copies and when it is read again; longer names '
  'are cut to fit. A header that is incomplete, damaged or contradicts itself '
  'is refused without harm. Product names are built and their release resolved '
  'as documented.',
  ['inputs', 'histories', 'fault_sequences'],
  'All pairs of fields over their alternatives, in 5 styles; all lines moved '
  'anywhere; all waves; all short histories of copies; all cuts and one-byte '
  'replacements; all fields damaged.',
  'The tests need downloaded files, and print a few values.',
  ['include/aod1b.hpp', 'src/lib/aod1b/aod1b_read_header.cpp',
   'src/lib/aod1b/aod1b.cpp', 'src/lib/aod1b/aod1bnontidalproductnaming.cpp'],
  [('header parsing', 'src/lib/aod1b/aod1b_read_header.cpp'),
   ('names', 'src/lib/aod1b/aod1bnontidalproductnaming.cpp')],
  'P30.cpp',
  {'quick': '29 fields in pairs; 6 replacements of each byte; 3 operations',
   'thorough': '10 replacements of each byte; 4 operations'},
  'The file is a decision of the explorer; the oracle is what it was made '
  'from.',
  lib=AOD, assumptions=SHIM)

P('P31', 'Walking through an AOD1B file visits every block of the type, in order',
  'For every file, an iterator for one type of coefficients visits exactly the '
  'blocks of that type, in file order, with their set number, size and epoch '
  '(in TT), whether blocks are skipped or collected, until the end of file is '
  'reported; it can then begin again. Collecting yields the coefficients of '
  'the block up to the degree and order asked for, zeros elsewhere, in a '
  'container kept or resized as requested; requests that do not fit fail.',
  ['inputs', 'histories'],
  'All sequences of blocks of 4 types up to a length, with every choice of '
  'skipping or collecting; published layouts; all requests and containers up '
  'to a degree; all sparse blocks of degree 3.',
  'The tests need downloaded files, and walk through one of them in one way.',
  ['include/aod1b.hpp', 'src/lib/aod1b/aod1b_collect_coeffs.cpp',
   'src/lib/aod1b/aod1b_goto_next_block.cpp',
   'src/lib/aod1b/aod1b_parse_data_block_header.cpp',
   'src/lib/aod1b/aod1b_skip_header.cpp'],
  [('finding the next block', 'src/lib/aod1b/aod1b_goto_next_block.cpp'),
   ('collecting', 'src/lib/aod1b/aod1b_collect_coeffs.cpp')],
  'P31.cpp',
  {'quick': 'up to 4 blocks; products of 1 and 2 days; degree <= 4',
   'thorough': 'up to 5 blocks'},
  'The file and the operations are decisions of the explorer; the oracle is '
  'the list of blocks the file was made from. Coefficients are unique to '
  'their block, degree and order and exact in binary.',
  lib=AOD, assumptions=SHIM)

P('P32', 'AOD1B coefficients are interpolated rightly, whatever was asked before',
  'For every history of requests, a stream over an AOD1B file with at least '
  'three blocks of its type gives at any epoch from the first to before the '
  'last block the linear interpolation between the two enclosing blocks, and '
  'fails elsewhere. With a folder of daily files, stepping on continues in the '
  'next file, and stepping back by less than a block works across files; a '
  'missing file, damaged block or failed request never makes a later answer '
  'wrong, and streams may be moved at any time.',
  ['histories', 'inputs', 'fault_sequences'],
  'All sequences of 3 requests over block epochs and points within, before '
  'and after; the same over 3 daily files of which any may be missing; '
  'stepping histories; all histories of moves.',
  'The tests need downloaded files, and step through one file once.',
  ['include/aod1b_data_stream.hpp', 'include/aod1b.hpp'],
  [('buffering of blocks and interpolation', 'include/aod1b_data_stream.hpp')],
  'P32.cpp',
  {'quick': '3 to 5 blocks, 3 requests; 3 files of 3 blocks; 4 files stepping',
   'thorough': 'up to 6 blocks; 4 requests over files'},
  'Real files in a scratch folder; the oracle interpolates in extended '
  'precision between the blocks that enclose the epoch. Where more than one '
  'file would have to be crossed at once the request may fail, but is never '
  'answered wrongly.',
  lib=AOD, assumptions=SHIM)

P('P33', 'Tidal AOD1B products give the cosine and sine coefficients of a wave',
  'Reading a tidal AOD1B product yields the cosine and the sine coefficients '
  'written in it, each in its own container, up to the degree and order asked '
  'for (all of them by default) and zeros elsewhere. Requests that do not fit '
  'the file or the containers, and files that are cut, damaged, out of order, '
  'of impossible degrees or with surplus data, are reported as errors without '
  'harm.',
  ['inputs', 'fault_sequences'],
  'All requests and containers up to degree 4 in all styles; all lines '
  'missing, doubled, cut at every place, replaced or with any byte replaced; '
  'the file cut at every byte.',
  'No test of tidal products runs without downloaded files.',
  ['include/aod1b.hpp', 'src/lib/aod1b/aod1b_get_tidal_wave.cpp'],
  [('reading a wave', 'src/lib/aod1b/aod1b_get_tidal_wave.cpp')],
  'P33.cpp',
  {'quick': 'degree <= 4; 9 replacements of each byte', 'thorough': 'the same'},
  'As P31.',
  lib=AOD, assumptions=SHIM)

P('P35', 'Damaged AOD1B data are reported, and spare the blocks before them',
  'A data block of an AOD1B file that is cut, garbled, out of step, of '
  'impossible degree or date, or overlong is reported as an error when it is '
  'read; blocks before it are read as if nothing had happened, and no content '
  'of the file ends the program or touches foreign memory.',
  ['inputs', 'fault_sequences'],
  'All lines of a file cut at every place, missing, doubled, replaced, or '
  'with any byte replaced; the file cut at every byte; files that vanish.',
  'The tests only read intact files.',
  ['src/lib/aod1b/aod1b_collect_coeffs.cpp',
   'src/lib/aod1b/aod1b_goto_next_block.cpp',
   'src/lib/aod1b/aod1b_parse_data_block_header.cpp',
   'src/lib/aod1b/aod1b_skip_header.cpp'],
  [('parsing of a block header',
    'src/lib/aod1b/aod1b_parse_data_block_header.cpp'),
   ('collecting', 'src/lib/aod1b/aod1b_collect_coeffs.cpp')],
  'P35.cpp',
  {'quick': '6 blocks of 3 lines; 9 replacements of each byte',
   'thorough': 'the same'},
  'Fault enumeration on files read by the real parser under sanitizers.',
  lib=AOD, assumptions=SHIM)

P('P36', 'Merging AOD1B files yields all their blocks, in time order, or nothing',
  'From any set of AOD1B files of successive spans, given in any order and at '
  'any place, mergeAod1b.py makes one product in the output directory that '
  'has all blocks in order of time under a header that tells span and number '
  'of data sets. Files that do not go together (other constants, overlapping '
  'spans, missing, damaged) are refused with a non-zero status. Whatever '
  'fails, also midway, or runs at the same time: inputs are never touched, '
  'and a file with the name of a product is a complete one.',
  ['inputs', 'crash_points', 'fault_sequences', 'schedules'],
  'All sets and orders of up to 5 files; all places and names; every header '
  'field in conflict; a crash or error at every file operation; two runs at '
  'the same time, under all schedules with few switches.',
  'No test runs the Python tools.',
  ['bin/mergeAod1b.py', 'include/aod1b_data_stream.hpp'],
  [('merging', 'bin/mergeAod1b.py')],
  'P36.cpp',
  {'quick': 'up to 4 files; 2 switches between two runs',
   'thorough': 'up to 5 files; 3 switches between two runs'},
  'The script itself is run in forked interpreters (harness/pyhost.py) with '
  'open, write and rename hooked: faults and switches between runs occur at '
  'operations chosen by the explorer. Products are read with the reader of '
  'the library and compared with what the inputs were made from.',
  lib=AOD, assumptions=SHIM, configs=['dbg'])

P('P37', 'An interrupted download is never taken for a product',
  'After any history of runs of getAod1b.py, each of which may have been '
  'interrupted anywhere (connection lost, disk full, process gone), every '
  'file with the name of a product is that product, complete; a run without '
  'faults ends with the products of all days of [from, to) there, fetches '
  'each missing one once and none that is there, and touches nothing else. '
  'This holds for runs at the same time, too.',
  ['histories', 'crash_points', 'fault_sequences', 'schedules', 'inputs'],
  'All faults at all operations of all runs of a history; ranges over ends of '
  'months and years; all states of the directory before; two runs at the same '
  'time under all schedules with few switches.',
  'No test runs the Python tools.',
  ['bin/getAod1b.py'],
  [('download', 'bin/getAod1b.py')],
  'P37.cpp',
  {'quick': 'up to 3 days; 1 fault; 2 switches between two runs',
   'thorough': 'up to 4 days; 2 faults; 3 switches between two runs'},
  'As P36; the FTP server is a stand-in within the interpreter.',
  lib=[], assumptions=SHIM, configs=['dbg'])

TIDE = ['tide_atlas.cpp', 'tide_atlas_groops.cpp', 'tidal_constituent.cpp',
        'stokes_coefficients.cpp', 'icgem/*.cpp', 'doodson/*.cpp',
        'ocean_tide/*.cpp', 'atmospheric_tides/*.cpp', 'aod1b/*.cpp',
        'iau/era00.cpp', 'iau/gmst.cpp']
P('P40', 'A tide atlas holds exactly the waves of its GROOPS file list',
  'From any list of cosine and sine files, in whatever arrangement and '
  'spacing, the atlas gets each wave once, in order of appearance, with the '
  'Doodson numbers and name of the file names and its own cosine and sine '
  'coefficients up to the degree and order asked for. Lists with names or '
  'files missing, duplicated, unpaired, malformed or damaged are refused with '
  'an exception and nothing else. Waves appended by hand are unique, too.',
  ['inputs', 'fault_sequences', 'histories'],
  'All arrangements of the files of up to 3 waves; 8 styles; all sizes of '
  'files and requests; all files of a list damaged in each way; all histories '
  'of appended waves.',
  'The tests need downloaded models, and read a few intact ones.',
  ['include/tide_atlas.hpp', 'src/lib/tide_atlas_groops.cpp',
   'src/lib/tide_atlas.cpp', 'src/lib/tidal_constituent.cpp'],
  [('file list and names', 'src/lib/tide_atlas_groops.cpp'),
   ('appending and looking up waves', 'src/lib/tide_atlas.cpp')],
  'P40.cpp',
  {'quick': '1 to 3 waves; degree <= 3; 23 malformed names; 4 waves by hand',
   'thorough': '5 waves by hand'},
  'Real files in a scratch folder; the oracle is what they were made from. '
  'Coefficients are unique to their file, degree and order and exact in '
  'binary.',
  lib=TIDE, assumptions=SHIM,
  configs=['dbg', 'rel', 'sparse'])

P('P41', 'Admittances and Doodson numbers of a tide model are read completely',
  'The Doodson and admittance matrices of a GROOPS tide model are the numbers '
  'of its files, row by row, however they are spaced and however many waves '
  'there are. A number or row that is missing, surplus or not a number, or '
  'sizes that do not match each other and the waves of the atlas, is refused '
  'with an exception.',
  ['inputs', 'fault_sequences'],
  'All sizes up to 3 by 6 in 6 by 6 styles and 4 number formats; 256 and 361 '
  'waves; every number and row damaged in each way.',
  'The tests need downloaded models, and only look at the degree of the atlas.',
  ['src/lib/tide_atlas_groops.cpp', 'include/groops_tide_model.hpp'],
  [('parsing of matrices', 'src/lib/tide_atlas_groops.cpp')],
  'P41.cpp',
  {'quick': '3 by 6 waves', 'thorough': '3 by 12 waves'},
  'As P40.',
  lib=TIDE, assumptions=SHIM,
  configs=['dbg', 'rel', 'sparse'])

P('P42', 'Ocean tides sum every wave once, with its phase and admittance',
  'For every atlas and epoch the coefficients of an ocean tide are the sum of '
  'the cosine and sine coefficients of its waves, times the cosine and sine of '
  'their Doodson arguments, or of the admittance-weighted arguments of all '
  'waves; waves of any degree take part, wherever computed before. Copies, '
  'moves, new admittances and appended waves act as on values; admittances '
  'that do not match the atlas are reported.',
  ['inputs', 'histories'],
  'A lattice of epochs and fundamental arguments for 10 waves; all sizes of '
  'the coefficients of 2 waves; all shapes of admittance; all histories of '
  'copies, moves and replacements.',
  'The tests need downloaded models, and compare a few epochs.',
  ['include/ocean_tide.hpp', 'src/lib/ocean_tide/ocean_tide_potential.cpp',
   'include/doodson.hpp', 'src/lib/tidal_constituent.cpp'],
  [('summation', 'src/lib/ocean_tide/ocean_tide_potential.cpp'),
   ('copies and moves', 'include/ocean_tide.hpp')],
  'P42.cpp',
  {'quick': '2 values of each of 5 arguments, 5 epochs; 5 by 7 admittances; '
            '3 operations on 3 models',
   'thorough': '4 values; 10 by 12 admittances'},
  'The oracle is Eq. 6.15 of the IERS Conventions (and admittance as in the '
  'GROOPS documentation) in extended precision, with an independent sidereal '
  'time. Cosine and sine of an integer combination of angles are fixed by '
  'their values on such a lattice.',
  lib=TIDE, assumptions=SHIM,
  configs=['dbg', 'rel', 'sparse'])

P('P43', 'Atmospheric tides sum the waves added, each with its phase',
  'Adding a wave from a tidal AOD1B product gives the model that wave, with '
  'the multipliers and phase of its name and its coefficients up to the degree '
  'and order asked for; a wave already there, a request that does not fit and '
  'a file that is damaged, missing or not tidal is refused and changes '
  'nothing. For every history of additions the coefficients computed are the '
  'phase-shifted sum over all waves, of whatever degrees.',
  ['inputs', 'histories', 'fault_sequences'],
  'All 18 waves on a lattice of epochs and arguments; all histories of 3 '
  'additions over 6 files and 8 requests; all subsets of sizes of an atlas.',
  'The tests need downloaded models, and compare a few epochs.',
  ['include/atmospheric_tides.hpp',
   'src/lib/atmospheric_tides/atm_tides_append_wave.cpp',
   'src/lib/atmospheric_tides/atm_tides_geopotential.cpp',
   'include/doodson.hpp'],
  [('adding waves', 'src/lib/atmospheric_tides/atm_tides_append_wave.cpp'),
   ('summation', 'src/lib/atmospheric_tides/atm_tides_geopotential.cpp')],
  'P43.cpp',
  {'quick': '2 values of each of 5 arguments, 4 epochs; 3 additions',
   'thorough': '4 values'},
  'As P42.',
  lib=TIDE, assumptions=SHIM)

P('P60', 'A file of FCN coefficients is read in full, or refused',
  'For every Lambert coefficient file the rows read are those of the file with '
  'a date in the range asked for, start included and end not, in their order '
  'and with their date and values, whatever the layout. A file that is '
  'missing, not headed, too long, or has a row that is not five numbers is '
  'reported, as is a range that ends before it starts.',
  ['inputs', 'fault_sequences'],
  'All subsets of 8 rows in 6 layouts and 4 headers; all ranges between, at '
  'and around the dates; every value damaged, every byte replaced.',
  'The test reads one downloaded file, and compares nothing.',
  ['include/fcn.hpp', 'src/lib/free_core_nutation/parse_lambert_coeffs.cpp'],
  [('parsing', 'src/lib/free_core_nutation/parse_lambert_coeffs.cpp')],
  'P60.cpp',
  {'quick': '8 rows', 'thorough': '8 rows'},
  'The oracle knows the rows that were written to the file.',
  lib=['free_core_nutation/*.cpp'], assumptions=SHIM)

P('P61', 'The free core nutation follows the model of Lambert',
  'For every epoch and table of coefficients the offsets of the pole are those '
  'of FCNNUT of the IERS Conventions: amplitudes linear between the dates of '
  'the table and constant outside, turning with a period of -430.21 days, and '
  'an uncertainty that is linear between the dates and grows by 0.3 microarcseconds '
  'per day away from them. Without a table given, that of the Conventions is '
  'used, and without any coefficients there is no result (NaN).',
  ['inputs'],
  'All days from 1976 to 2025 in steps, at 6 times of day; around all dates of '
  'the table; all tables of up to 4 rows out of 4 values and 4 distances.',
  'The test prints a few epochs within the table, without uncertainties '
  'before the first date.',
  ['include/fcn.hpp', 'src/lib/free_core_nutation/lambert.cpp',
   'src/lib/free_core_nutation/load_iers10_table52c.cpp'],
  [('model', 'src/lib/free_core_nutation/lambert.cpp'),
   ('table', 'src/lib/free_core_nutation/load_iers10_table52c.cpp')],
  'P61.cpp',
  {'quick': 'every 10th day; 4 rows, 3 distances',
   'thorough': 'every day; 4 rows, 4 distances'},
  'The oracle is FCNNUT in extended precision, and its published test case. '
  'Amplitude and uncertainty are piecewise linear, so a few epochs within and '
  'around each interval fix them.',
  lib=['free_core_nutation/*.cpp'], assumptions=SHIM)

# Earth rotation
P('P70', 'Earth rotation angle and sidereal times are those of the conventions',
  'For every epoch the Earth rotation angle, the Greenwich mean sidereal times '
  '(IAU 2006 and 1982), the rate of the former and the TIO locator equal the '
  'expressions of the IERS Conventions; angles lie in [0, 2 pi), and the rate '
  'is that at which the angle moves.',
  ['inputs'],
  'All days of lattices up to four centuries around J2000 at 8 times of day '
  'and 5 differences of UT1 and TT; every minute of four days.',
  'The tests compare to SOFA at random epochs, and need SOFA; the rate has none.',
  ['include/iau.hpp', 'src/lib/iau/era00.cpp', 'src/lib/iau/gmst.cpp',
   'src/lib/iau/gmst82.cpp', 'src/lib/iau/dgmst.cpp'],
  [('angles', 'src/lib/iau/era00.cpp'), ('rate', 'src/lib/iau/dgmst.cpp')],
  'P70.cpp',
  {'quick': '96000 epochs; 5760 minutes',
   'thorough': '480000 epochs; 345600 seconds'},
  'Linear and polynomial expressions modulo a turn: fixed by their values on '
  'lattices of steps of a day or less and a span of centuries. The oracle is '
  'the expression in extended precision, and the published SOFA values.',
  lib=['iau/*.cpp'], assumptions=SHIM)

P('P71', 'The pole and origin follow every term of the IAU 2006/2000A series',
  'For every epoch and all arguments, X and Y of the celestial intermediate '
  'pole and s of its origin are the sum of the polynomial and all terms of '
  'Tables 5.2a, 5.2b and 5.2d of the IERS Conventions, in the combined and the '
  'separate version alike. The arguments handed out are the fourteen '
  'fundamental arguments, and s computed with them is the same.',
  ['inputs'],
  'All corners of boxes of the fourteen arguments, each argument through a '
  'full turn, six times; epochs of lattices over a century.',
  'The tests compare to SOFA at random epochs to some microarcseconds, and '
  'need SOFA; a term of the tables is often smaller.',
  ['include/iau.hpp', 'src/lib/iau/xycip06a_xy.cpp', 'src/lib/iau/xycip06a.cpp',
   'src/lib/iau/xcip06a.cpp', 'src/lib/iau/ycip06a.cpp', 'src/lib/iau/s06.cpp'],
  [('series of the pole', 'src/lib/iau/xycip06a_xy.cpp'),
   ('origin', 'src/lib/iau/s06.cpp')],
  'P71.cpp',
  {'quick': '256 corners at 6 times; 14 x 64 angles; 900 epochs',
   'thorough': '3 x 4096 corners; 14 x 256 angles; 4500 epochs'},
  'The oracle has the tables as data (harness/cip_tables.hpp): those of s from '
  'the literature, those of X and Y where the two versions in the library '
  'agree, confirmed by the published SOFA values. A term left out or changed '
  'by its last digit is hundreds of times the tolerance at almost all points '
  'of the lattice.',
  lib=['iau/*.cpp'], assumptions=SHIM)

P('P72', 'All forms of the Earth rotation are the same rotation',
  'For all angles, every form of the transformation between celestial and '
  'terrestrial frames (matrix, quaternion, product of parts, single formula) '
  'is the rotation of eq. 5.1 to 5.10 of the IERS Conventions and of unit '
  'length, for directions of the pole within validity, and the rate of the '
  'rotation matrix is its derivative at the rate that the length of day gives.',
  ['inputs'],
  'All combinations of a lattice of pole coordinates, rotation angles, '
  'locators and polar motion, small ones as on Earth and large ones.',
  'The tests rotate orbits at recent epochs, where polar motion and locators '
  'are so small that their order and sign hardly matter.',
  ['include/earth_rotation.hpp', 'src/lib/earth_rotation/c2i06abz.cpp'],
  [('rotations', 'include/earth_rotation.hpp'),
   ('single formula', 'src/lib/earth_rotation/c2i06abz.cpp')],
  'P72.cpp',
  {'quick': '13x13x3x7 poles; 5x5x7x4x3x5x5 combinations; 180x21 rates',
   'thorough': '41x41x3x7 poles; 6x6x7x4x4x5x5 combinations; 720x21 rates'},
  'Trigonometric polynomials of low degree in each angle, fixed by a few '
  'values of each. The oracle multiplies the rotation matrices R1, R2 and R3 '
  'in extended precision.',
  lib=['earth_rotation/*.cpp', 'iau/*.cpp'], assumptions=SHIM)

P('P73', 'Earth orientation turns celestial into terrestrial vectors',
  'For every epoch and set of Earth orientation parameters the transformations '
  'from GCRS to ITRS (IAU 2006/2000A, CIO based) apply the pole offsets, polar '
  'motion, UT1 and locators once each, in their units and sense, whichever '
  'variant is called; the parts handed out make up the whole. The derivative '
  'is that of the rotation at the rate given by the length of day.',
  ['inputs'],
  'All combinations of values of six parameters at up to ten epochs, some '
  'around a leap second.',
  'The tests compare positions to SOFA, with one implementation of UT1 for '
  'both, and need SOFA.',
  ['include/earth_rotation.hpp', 'src/lib/earth_rotation/c2i06a.cpp',
   'src/lib/earth_rotation/c2i06abz.cpp', 'src/lib/earth_rotation/c2i06apq.cpp',
   'include/iau.hpp'],
  [('transformation', 'src/lib/earth_rotation/c2i06a.cpp'),
   ('parts', 'src/lib/earth_rotation/c2i06apq.cpp')],
  'P73.cpp',
  {'quick': '2 days x 2^6 parameters; 40 epochs',
   'thorough': '10 days x 3^6 parameters'},
  'As P71 and P72, plus the worked example of the SOFA cookbook.',
  lib=['earth_rotation/*.cpp', 'iau/*.cpp'], assumptions=SHIM)

P('P65', 'The pole tide moves the Earth as the IERS Conventions say',
  'For every epoch and every position of the pole, the wobble is the position '
  'relative to the secular pole of 2018, and the changes of C21 and S21 by the '
  'solid Earth and the ocean pole tide and the displacement of a station, '
  'anywhere including the poles and the date line, are those of chapters 6.4, '
  '6.5 and 7.1.4 of the IERS Conventions.',
  ['inputs'],
  'All combinations of dates, pole coordinates and places of a lattice.',
  'No test runs these functions without data of the user; wrong signs or units '
  'of one component are millimetres.',
  ['include/pole_tide.hpp', 'include/eop.hpp',
   'src/lib/pole_tide/pole_tide_deformation.cpp'],
  [('wobble and coefficients', 'include/pole_tide.hpp'),
   ('displacement', 'src/lib/pole_tide/pole_tide_deformation.cpp')],
  'P65.cpp',
  {'quick': '40 epochs x 9 x 9 poles; 49 x 13 places x 24',
   'thorough': '40 epochs x 9 x 9 poles; 97 x 25 places x 24'},
  'Linear in the pole coordinates and in time, trigonometric of degree 2 and 1 '
  'in latitude and longitude: the lattice has far more points than such '
  'functions have coefficients. The oracle is in extended precision and turns '
  'the local displacement by up, south and east directions.',
  lib=['pole_tide/*.cpp', 'stokes_coefficients.cpp'], assumptions=SHIM)

P('P66', 'The ocean pole tide model gives the coefficients of its last request',
  'A file of the self-consistent equilibrium model (Desai) is read whole up to '
  'any degree and order allowed, and refused when it is damaged or the size is '
  'impossible. After any sequence of requests for degrees, orders, poles and '
  'constants the coefficients are those of eq. 6.23 of the IERS Conventions '
  'for the last request that was possible, up to degree 360, and zero beyond '
  'it.',
  ['inputs', 'histories'],
  'All sizes, sequences of records and layouts of small files, all sequences '
  'of requests to a depth, and every coefficient of the model of degree 360.',
  'The tests need a file that is not there, at one degree; what a former '
  'request left and the last degree show only elsewhere.',
  ['include/pole_tide.hpp', 'src/lib/pole_tide/parse_desai02_coeffs.cpp',
   'src/lib/pole_tide/ocean_pole_tide_geopotential.cpp'],
  [('reader', 'src/lib/pole_tide/parse_desai02_coeffs.cpp'),
   ('coefficients', 'src/lib/pole_tide/ocean_pole_tide_geopotential.cpp')],
  'P66.cpp',
  {'quick': 'histories of 2 requests; files to degree 5 and 360',
   'thorough': 'histories of 3 requests'},
  'The load Love numbers are data of the oracle (harness/love_table.hpp), '
  'frozen from the library after a look at their smoothness. A file that '
  'ends early at the end of a line is not told from a shorter one, which is '
  'not claimed.',
  lib=['pole_tide/*.cpp', 'stokes_coefficients.cpp'], assumptions=SHIM)

P('P67', 'Ocean pole tide loading is interpolated where the station is',
  'For stations anywhere on a grid of loading coefficients, in any turn of the '
  'longitude, between the last and the first column too, and in lists of any '
  'order, the six coefficients are interpolated bilinearly from the nodes '
  'around the station; damaged files and places outside are refused. The '
  'displacement is that of eq. 7.29 of the IERS Conventions.',
  ['inputs'],
  'All cells of seven grids and the published one, all lists of places to a '
  'length, all damages at all places; a lattice of places and coefficients.',
  'No test runs this; a longitude turned or a column skipped gives plausible '
  'millimetres.',
  ['src/lib/pole_tide/get_desai_ocp_deformation_coeffs.cpp', 'include/grid.hpp',
   'src/lib/pole_tide/ocean_pole_tide_deformation.cpp'],
  [('interpolation', 'src/lib/pole_tide/get_desai_ocp_deformation_coeffs.cpp'),
   ('displacement', 'src/lib/pole_tide/ocean_pole_tide_deformation.cpp')],
  'P67.cpp',
  {'quick': 'half cells, 3 turns; lists of 4; every cut of a file; 13 x 7 places',
   'thorough': 'quarter cells; lists of 5; 25 x 13 places'},
  'The oracle knows the grid as a function and interpolates in extended '
  'precision. At the very border of a grid either answer is allowed, but not a '
  'wrong value.',
  lib=['pole_tide/*.cpp', 'stokes_coefficients.cpp'], assumptions=SHIM)

P('P80', 'The solid Earth tide changes the gravity field as the IERS Conventions say',
  'For all directions and distances of Moon and Sun, all fundamental arguments '
  'and epochs, the changes of the coefficients of degrees 2 to 4 are those of '
  'the anelastic Earth of chapter 6.2 of the IERS Conventions: both steps, '
  'normalized, for the masses and the radius given. They depend on the last '
  'call only.',
  ['inputs', 'histories'],
  'All combinations of a lattice of directions, distances, arguments and '
  'epochs; all sequences of calls to a depth.',
  'The tests compare one orbit to a data set that is not there; terms below '
  '1e-12 pass any such comparison.',
  ['include/solid_earth_tide.hpp',
   'src/lib/solid_earth_tides/iers2010_geopotential_step1.cpp',
   'src/lib/solid_earth_tides/iers2010_geopotential_step2.cpp',
   'src/lib/solid_earth_tides/iers2010_stokes_coeffs.cpp'],
  [('step 1', 'src/lib/solid_earth_tides/iers2010_geopotential_step1.cpp'),
   ('step 2', 'src/lib/solid_earth_tides/iers2010_geopotential_step2.cpp')],
  'P80.cpp',
  {'quick': '3 x 16 x 13 x 3 x 4 bodies; 3^5 arguments x 4; 3 days; 6^3 histories',
   'thorough': '3 x 48 x 25 x 3 x 4 bodies; 4^5 arguments x 4; 6^4 histories'},
  'Step 1 is a trigonometric polynomial of degree 3 in the direction, step 2 of '
  'degree 1 to 4 in each argument; the lattice has more points than these have '
  'coefficients. The oracle has tables 6.3 and 6.5 with Doodson numbers as '
  'printed, and uses complex arithmetic and recursive normalization.',
  lib=['solid_earth_tides/*.cpp', 'stokes_coefficients.cpp', 'iau/gmst.cpp', 'iau/era00.cpp'],
  assumptions=SHIM)

P('P81', 'The solid Earth tide moves a station as the IERS Conventions say',
  'For stations anywhere including the poles and all directions and distances '
  'of Moon and Sun, all arguments and epochs, the displacement is that of '
  'chapter 7.1.1 of the IERS Conventions: in phase for degrees 2 and 3, out of '
  'phase, latitude dependence and the frequencies of the diurnal and long '
  'period bands, along geocentric directions.',
  ['inputs'],
  'All combinations of a lattice of stations, directions, arguments and epochs.',
  'The tests compare one day of a few stations to a data set with a tolerance '
  'above many terms.',
  ['include/solid_earth_tide.hpp',
   'src/lib/solid_earth_tides/iers2010_displacement_step1.cpp',
   'src/lib/solid_earth_tides/iers2010_displacement_step2.cpp',
   'src/lib/solid_earth_tides/iers2010_site_displacement.cpp'],
  [('step 1', 'src/lib/solid_earth_tides/iers2010_displacement_step1.cpp'),
   ('step 2', 'src/lib/solid_earth_tides/iers2010_displacement_step2.cpp')],
  'P81.cpp',
  {'quick': '3 x 2 x 8 x 9 bodies x 8 x 9 stations; 3^5 arguments x 4 x 6; 24 x 24 x 13',
   'thorough': '3 x 2 x 12 x 13 bodies x 12 x 13 stations; 4^5 arguments x 4 x 12'},
  'The oracle works along vectors, as the program published with the '
  'Conventions does, where the library uses angles, and has the tables with '
  'Doodson numbers as printed. The published example is met too.',
  lib=['solid_earth_tides/*.cpp', 'stokes_coefficients.cpp', 'iau/gmst.cpp', 'iau/era00.cpp'],
  assumptions=SHIM)

P('P85', 'The relativistic acceleration is that of the IERS Conventions',
  'For all satellite and Sun states, masses, angular momenta and parameters, the '
  'acceleration is the sum of the Schwarzschild, Lense-Thirring and de Sitter terms '
  'of equation 10.12 of the IERS Conventions 2010, in SI units. Each term is right '
  'by itself, however small beside the others.',
  ['inputs'],
  'All combinations of a lattice of directions and sizes of four vectors and of '
  'all parameters.',
  'The only test compares one orbit to a data set that is not there; the small '
  'terms are a thousand times smaller than the first and vanish in any such comparison.',
  ['include/relativity.hpp', 'include/iersconst.hpp', 'src/lib/relativity/iers12010_relativistic_correction.cpp'],
  [('the three terms', 'src/lib/relativity/iers12010_relativistic_correction.cpp')],
  'P85.cpp',
  {'quick': '26 x 14 x 14 x 14 directions x 4 weightings; 3^6 parameters x 26; 14 x 16 x 26 x 26 x 3 orbits',
   'thorough': '26 x 26 x 26 x 26 directions x 4 weightings'},
  'The terms are multilinear in the vectors up to functions of their lengths: directions '
  'beyond a basis and several lengths decide them. Parameters are chosen so that each '
  'term in turn dominates, and the tolerance is relative to the terms present.',
  lib=['relativity/*.cpp'])

P('P90', 'Ephemeris kernels are loaded once, and only those asked for are there',
  'After any sequence of requests, each kernel file that was asked for is loaded, '
  'once, whatever its name, its length or that of the kernels loaded already; a '
  'kernel that is there is not loaded again. The constants of Sun and Moon are '
  'those of the kernels, in the units asked for.',
  ['histories'],
  'All sequences of loads and unloads of related names to a depth; any number of kernels; '
  'names of any length up to the limit of CSPICE.',
  'The only test loads two kernels with unrelated names.',
  ['include/planets.hpp', 'src/lib/planets/kernel.cpp', 'src/lib/planets/kernel_consts.cpp'],
  [('search of the loaded kernels', 'src/lib/planets/kernel.cpp'),
   ('constants', 'src/lib/planets/kernel_consts.cpp')],
  'P90.cpp',
  {'quick': 'sequences of 5 operations, 15 operations; 0..59 kernels; names of 1..255 characters',
   'thorough': 'sequences of 6 operations; 0..199 kernels'},
  'The real functions run on a pool of kernels that stands for CSPICE and is '
  'compared with its model after every operation.',
  lib=['planets/*.cpp'],
  assumptions=SHIM + ('CSPICE is the recorder of harness/spice_mock.hpp, written after its documentation',))

P('P91', 'Positions of planets are those of the ephemeris, from the Earth, in SI',
  'For every planet, epoch and history, position and velocity are those of the '
  'ephemeris for this body relative to the Earth at this epoch, in the J2000 frame '
  'without corrections, in metres and seconds; values that are no planet are refused. '
  'Identifiers as numbers and as text agree.',
  ['inputs'],
  'All 256 values of the enumeration, epochs, buffer sizes, pairs of bodies.',
  'The only test needs ephemeris files and prints positions of Moon and Sun.',
  ['include/planets.hpp', 'src/lib/planets/planet_pos.cpp', 'src/lib/planets/planet_state.cpp',
   'src/lib/planets/planet_to_naif_id.cpp'],
  [('position', 'src/lib/planets/planet_pos.cpp'), ('state', 'src/lib/planets/planet_state.cpp'),
   ('identifiers', 'src/lib/planets/planet_to_naif_id.cpp')],
  'P91.cpp',
  {'quick': '256 planets x 20 epochs x 3 histories; 256 x 13 buffers; 8 x 8 x 3 pairs', 'thorough': 'the same'},
  'The ephemeris is a stand-in that is a different known function of each of its '
  'arguments, so that none can be forgotten or mixed up.',
  lib=['planets/*.cpp'],
  assumptions=SHIM + ('CSPICE is the recorder of harness/spice_mock.hpp, written after its documentation',))
