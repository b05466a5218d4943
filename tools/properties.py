"""The properties and what each check covers; see tools/meta.py."""

NOT_APPLICABLE = []

PROPS = [
    dict(id='C01', title='A point series evaluates by its points and interpolation rule',
         statement='At each of its abscissae a point series returns exactly the stored value; between two neighbouring points it '
                   'returns the linear blend, the earlier or the later value as its interpolation rule says, is undefined where a '
                   'linear neighbour is undefined, and is undefined outside its closed domain. Whether the points are '
                   'equally spaced, and whether the series detects that, never changes an answer.',
         over=['inputs', 'configurations'],
         quant='all abscissae with positive gaps, all real or undefined values, all queries, all interpolation rules, uniform detection on or off',
         why='the tests evaluate a few hand-picked series at a few abscissae; the index arithmetic differs per spacing, count and position of the query',
         files=['curvepy/points.py'],
         mech=[('evaluation', 'Points.y'), ('locating a query', 'Points.x_index, _bisect_points'), ('equal-spacing detection', 'Points._is_uniform_after_replacing / is_uniform')],
         note='1-5 points, gaps >= 1/16, any query'),
    dict(id='C02', title='Editing a point series acts like an ordered map; refused edits change nothing',
         statement='After any sequence of appends, prepends, replacements, insertions, wholesale replacements and resets, a point '
                   'series holds exactly the points that an ordered map would hold, and answers as a series built from them. An edit '
                   'that is refused leaves the points and every observer as if it had not been tried.',
         over=['histories', 'inputs'],
         quant='all histories of edits of every kind with any abscissae and values, starting from any series',
         why='tests run single fixed histories; the cached spacing is only wrong after particular mixtures of edits and gaps',
         files=['curvepy/points.py'],
         mech=[('edits', 'Points.append/append_list/set/replace/reset'), ('spacing cache', 'Points.is_uniform, Points.interval'), ('refusals', 'Points.append_list, Points.set')],
         note='0-3 points, histories of 1-2 edits (thorough: 3), a query after each edit'),
    dict(id='C03', title='Stepping and sampling a point series visit exactly its points',
         statement='The next (previous) abscissa after any position is the nearest point at least the minimum step away in that direction, '
                   'or none when there is none inside the domain. Sampling a window yields exactly the points inside it in order; '
                   'walking from a point yields it (unless excluded) and the following or preceding points, up to the requested count.',
         over=['inputs', 'configurations'],
         quant='all series, start positions, minimum steps, windows with open or closed ends, and counts',
         why='tests step through one or two regular series from their own points; off-point starts, steps larger than a gap and open ends are unsampled',
         files=['curvepy/points.py', 'curvepy/curve.py'],
         mech=[('stepping', 'Points.x_next, Points.x_previous'), ('sampling', 'Points.sample_points, Curve.sample_points_from_x'), ('window to indexes', 'Points._domain_indexes'), ('trimming', 'Points.trim')],
         note='1-4 points, real starts, steps and windows'),
    dict(id='C04', title='A derived curve that saw its source edited equals one built afterwards',
         statement='After its source series is edited in any way, and whatever had been read before, every derived curve (averages, '
                   'integrals, windows, sums, selections, offsets, extensions and their combinations) has the same domain and the same values as the same '
                   'derivation built afresh from the edited source.',
         over=['histories', 'inputs', 'configurations'],
         quant='all source values, edits of every kind at any place, reads before the edit, for each listed kind of derived curve',
         why='incremental maintenance depends on which part had been computed before the edit and which interval the edit announces; tests fix one such history per class',
         files=['curvepy/scan.py', 'curvepy/accumulator.py', 'curvepy/sma.py', 'curvepy/ema.py', 'curvepy/integral.py', 'curvepy/aggregate.py', 'curvepy/extension/extension.py', 'curvepy/offset.py', 'curvepy/map.py'],
         mech=[('invalidation', 'Scan.begin_scan_update, Accumulator.begin_update'), ('forwarding', 'Curve.begin_update/end_update'), ('extension refresh', 'Extension.update_extension')],
         note='3 source points on a regular grid, one edit of each kind (thorough: pairs), 31 pipelines'),
    dict(id='C05', title='What a derived curve answers does not depend on what it was asked before',
         statement='For derived curves computed by scanning (averages, integrals, window extrema and compositions), the value, slope, '
                   'next or previous abscissa and samples reported for a position are the same whichever reads were made before it, in any order.',
         over=['histories', 'inputs'],
         quant='all orders of earlier reads of any kind at any points or midpoints, all source values',
         why='each test reads in one order, almost always ascending; the caches only go wrong for other orders',
         files=['curvepy/scan.py', 'curvepy/accumulator.py', 'curvepy/sma.py', 'curvepy/integral.py', 'curvepy/accumulator_map.py'],
         mech=[('scan position', 'Scan.scan, Scan.reset_scan'), ('accumulated points', 'Accumulator._accumulate, Accumulator.x_next/x_previous')],
         note='3-4 source points, 2 earlier reads (thorough: 3) of any kind at points and midpoints'),
    dict(id='C06', title='Arithmetic on curves is pointwise over the common domain',
         statement='Sums, differences, products, quotients, powers, logarithms and their compounds of curves and numbers equal, at every '
                   'position, the same operation on the operands\' values there; they are undefined exactly where an operand is undefined or outside '
                   'its domain, and their domain is the intersection of the operands\' domains.',
         over=['inputs', 'programs', 'configurations'],
         quant='all operand values (or undefined), shifts of the operands\' domains, queries, and expressions of the listed operators with numbers on either side',
         why='tests check one or two expressions of defined values; reflected operators, undefined values and disjoint domains are unsampled',
         files=['curvepy/curve.py', 'curvepy/aggregate.py', 'curvepy/map.py', 'curvepy/constant.py'],
         mech=[('operators', 'Curve.__add__ ... __rpow__, Curve.add/subtract/multiply/divide/pow/log'), ('undefined values', 'Aggregate.y, Map.y')],
         note='operands of 2-3 points on a common grid, expression depth 2'),
    dict(id='C07', title='Minimum, maximum and first of several curves pick among the defined values',
         statement='At every position in the combined domain, the minimum (maximum) of several curves is the least (greatest) of the values that are '
                   'defined there, and the first is the first defined value in the order given; undefined operands are skipped or cut the domain as requested. '
                   'Operands given as plain numbers act as constants.',
         over=['inputs', 'configurations'],
         quant='all operand values (or undefined), domain shifts, operand orders and queries',
         why='tests use two fully overlapping curves; operands that are undefined, shifted or constant are unsampled',
         files=['curvepy/curve.py', 'curvepy/aggregate.py'],
         mech=[('selection', 'Curve.min, Curve.max, Curve.first'), ('domains', 'Aggregate.get_domain')],
         note='2-3 operands of 2-3 points or constants'),
    dict(id='C08', title='Lines and constants: geometry, inverse, exact areas and change detection',
         statement='A line through two points passes through both, has their slope, and its inverse returns the abscissa of a value; area '
                   'under a line or constant between two abscissae is exact and additive. Redefining a line takes effect completely and notifies exactly when '
                   'the definition changes.',
         over=['inputs', 'histories'],
         quant='all pairs of points or intercepts and slopes, all queries, any two successive definitions',
         why='tests use a couple of integer lines',
         files=['curvepy/line.py', 'curvepy/constant.py'],
         mech=[('definition', 'Line.set'), ('inverse and areas', 'Line.x, Line.partial_integration')],
         note='coordinates in [-8, 8]'),
    dict(id='C09', title='Offsetting moves a curve along its axis and loses nothing',
         statement='A curve offset by d answers at x exactly what the original answers at x-d: values, domain, steps and '
                   'samples alike, offsets compose by adding, and an offset by calendar spans moves every point by that many spans. Edits of '
                   'the original appear moved by the offset.',
         over=['inputs', 'histories', 'configurations'],
         quant='all series, offsets (numeric, or whole numbers of fixed-length calendar spans of either sign), queries and edits',
         why='tests offset one series by one or two amounts',
         files=['curvepy/offset.py', 'curvepy/curve.py'],
         mech=[('mapping of abscissae', 'Offset.y, Offset.x_next, Offset.x_previous'), ('domain and update intervals', 'Offset.get_domain, Offset.begin_offset_update')],
         note='1-4 points; calendar spans of seconds to hours'),
    dict(id='C10', title='Piecewise curves, blends and subsets answer from the right piece',
         statement='At every position a piecewise curve answers with the piece whose domain contains it (honouring open and closed borders) and is '
                   'undefined in gaps; a subset answers like the original inside its domain and is undefined outside; a blend equals the first curve '
                   'before, the second after, and their linear mixture between the two bounds.',
         over=['inputs', 'configurations'],
         quant='all borders, open or closed, gaps, piece kinds and queries',
         why='border cases are reached only by exact coincidences of query, border and flag that tests do not enumerate',
         files=['curvepy/piecewise.py', 'curvepy/curve.py', 'curvepy/generic.py'],
         mech=[('choice of piece', 'Piecewise.y'), ('blends', 'Curve.blend'), ('subsets', 'Curve.subset')],
         note='2-4 pieces with real borders'),
    dict(id='C11', title='The integral of a series is the exact accumulated area',
         statement='At every point the integral equals the constant of integration plus the area under the series since its first defined '
                   'value, with the area of each gap given by the chosen rule (trapezium, earlier or later value), undefined values contributing '
                   'nothing; between points it is linear. Integration is linear in the integrand.',
         over=['inputs', 'configurations', 'histories'],
         quant='all series with any spacing and undefined values, constants, rules, queries, and orders of earlier reads',
         why='tests integrate two or three series with unit spacing',
         files=['curvepy/integral.py', 'curvepy/accumulator.py', 'curvepy/line.py'],
         mech=[('area per gap', 'Integral._integral_scan, Line.partial_integration'), ('running sum', 'Accumulator._accumulate')],
         note='1-4 points, free spacing'),
    dict(id='C12', title='A simple moving average is the mean over its trailing window',
         statement='At each point the simple moving average equals the mean height of the series over its trailing window (a number of points, or '
                   'the points less than a period back), it is undefined until the window is full, and between points it interpolates its values at the '
                   'neighbouring points. Averaging a straight line returns the line at the middle of the window.',
         over=['inputs', 'configurations', 'histories'],
         quant='all series with any spacing, window lengths by count or period, queries and orders of reads',
         why='tests compare a few averages of regular series at their own points; positions between points and irregular spacing are unsampled',
         files=['curvepy/sma.py', 'curvepy/integral.py'],
         mech=[('window', 'SMA._sma_start, SMA._sma_end, SMA.get_domain'), ('mean', 'SMA.y')],
         note='2-5 points, degree 1-4 or any period up to 4 steps'),
    dict(id='C13', title='Exponential averages follow their recurrence',
         statement='An exponential average starts at its start value (or the first defined value) and at every later point moves towards the new value '
                   'by the smoothing factor, constant or proportional to the gap for a period; a smoothed average starts from a simple one and then uses '
                   'the factor 1/degree. Between points it is linear. It stays between the least and greatest values seen and follows scaling and shifting of the values.',
         over=['inputs', 'configurations'],
         quant='all series with any spacing and undefined values, factors in [0, 1], periods, start values or curves, queries',
         why='tests compare a few regular series with one factor; undefined values, start curves and irregular spacing are unsampled',
         files=['curvepy/ema.py', 'curvepy/accumulator.py', 'curvepy/curve.py'],
         mech=[('recurrence', 'EMA._ema_scan'), ('smoothed average', 'Curve.smma'), ('interpolation', 'Accumulator.y')],
         note='1-4 points'),
    dict(id='C14', title='Trailing windows apply the function to exactly the points of the window',
         statement='A trailing minimum, maximum or any mapped window function has at each point the value of the function over exactly the last values (a '
                   'number of points, or those at most a period back), shorter at the start; between points the chosen interpolation applies. '
                   'Wider windows never give greater minima.',
         over=['inputs', 'configurations', 'histories'],
         quant='all series with any spacing, window lengths by count or period, functions of values or of position and values, interpolation rules, queries',
         why='tests run one window length over one regular series',
         files=['curvepy/accumulator_map.py', 'curvepy/scan.py', 'curvepy/curve.py'],
         mech=[('window contents', 'AccumulatorMap'), ('extrema', 'Curve.trailing_min, Curve.trailing_max')],
         note='1-5 points, windows of 1-4 points or any period up to 4 steps'),
    dict(id='C15', title='The relative strength index is the smoothed ratio of rises, 0 to 100',
         statement='The index at each point is 100 times the smoothed rise over the sum of the smoothed rise and the smoothed fall up to there, 100 when nothing fell. It is '
                   'always between 0 and 100, mirrors when the values mirror and ignores their scale and shift.',
         over=['inputs', 'configurations'],
         quant='all series with any spacing, smoothing degrees, and queries',
         why='one test compares one series with a few literature values',
         files=['curvepy/curve.py', 'curvepy/ema.py', 'curvepy/map.py'],
         mech=[('composition', 'Curve.rsi'), ('smoothing of rises and falls', 'EMA')],
         note='1-4 points, degree 1, 2 or 4'),
    dict(id='C16', title='Extensions continue a curve past its ends and leave it alone inside',
         statement='Inside the curve\'s own domain an extended curve answers exactly like the curve; past a chosen end it continues with the end value '
                   '(constant) or along the tangent there (by the last step, a regression over several steps, or one over a period); past an '
                   'end that was not chosen it stays undefined, and its domain says so.',
         over=['inputs', 'configurations'],
         quant='all series with any spacing, undefined values and interpolation rules, either or both ends, regression degrees and periods, queries',
         why='tests extend one or two curves; short, empty, undefined-ended and irregular curves are unsampled',
         files=['curvepy/extension/extension.py', 'curvepy/extension/constant.py', 'curvepy/extension/tangent.py', 'curvepy/curve.py'],
         mech=[('choice of side', 'Extension.y, Extension.get_domain'), ('tangent', 'TangentExtension.create_extension_func'), ('regression', 'Curve.regression')],
         note='0-4 points, regression over 1-3 steps or any period up to 4'),
    dict(id='C17', title='Quotes answer, sample, aggregate and accept edits as their list of quotes',
         statement='At a date quotes answer with the quote of that date and between dates with the latest earlier one; columns, sampling windows, trailing highs and '
                   'lows, the price range and the indicators are those of that list; an edit (encoded once if asked) leaves exactly the edited list, '
                   'and a refused edit leaves it alone.',
         over=['inputs', 'configurations', 'histories'],
         quant='all quote values at whole multiples of a fixed or calendar duration, queries, windows and edits',
         why='tests build a few lists of quotes with round values and read them at their own dates',
         files=['curvepy/quotes.py', 'curvepy/points.py'],
         mech=[('columns', 'Quotes.open, Quotes.close, Quotes.hl2'), ('encoding', 'Quotes.append, Quotes.append_list, Quotes.set'), ('windows', 'Quotes.trailing_high, Quotes.trailing_low')],
         note='0-4 quotes; durations of 1 s, 60 s, 1 day, calendar months'),
    dict(id='C18', title='Observers of a curve are told once of everything an edit changes',
         statement='When a series is edited, an observer of any curve derived from it (also along several ways) that the edit can change is told that an update begins '
                   'while the curve still has its old values, and exactly once that it has ended, when the curve already has all of its new values; the interval '
                   'announced covers every position whose value changes. Reading curves inside these callbacks never changes a later answer.',
         over=['inputs', 'histories', 'configurations'],
         quant='all series values and spacings, edits, derived curves, positions, and reads before, at the beginning and at the end of the update',
         why='tests observe a few edits of one series; combinations that are updated along two ways and reads inside callbacks are unsampled',
         files=['curvepy/curve.py', 'curvepy/points.py', 'curvepy/scan.py', 'curvepy/aggregate.py', 'curvepy/piecewise.py', 'curvepy/extension/extension.py', 'curvepy/generic.py', 'curvepy/map.py', 'curvepy/ema.py'],
         mech=[('protocol', 'Curve.begin_update, Curve.end_update'), ('combinations', 'Aggregate.is_source_updating'), ('announced intervals', 'Points.replace, Points.reset, Offset._offset_interval, Extension._update_interval'),
               ('caches', 'Scan.begin_scan_update, Scan.end_scan_update')],
         note='series of 3 points, one edit of every kind, 25 kinds of derived curves'),
    dict(id='C19', title='Observers are called exactly while registered, for updates they watch',
         statement='From its registration until its removal (by token, by object, or automatically when its object is gone) an observer is called at the beginning and the end of '
                   'exactly those updates whose interval meets its own, with the interval if it takes one, prioritised observers first and the others in order. '
                   'Overlapping updates end together. Adding or removing observers, also inside callbacks, affects no other observer.',
         over=['inputs', 'histories'],
         quant='all intervals with open or closed ends, and histories of registering, removing, dropping and updating',
         why='tests register one observer at a time with fixed intervals',
         files=['curvepy/curve.py', 'curvepy/util.py'],
         mech=[('registration', 'Curve.add_observer, Curve.remove_observer'), ('calls', 'Curve.begin_update, Curve.end_update')],
         note='2-3 observers, histories of 2-3 steps'),
    dict(id='C20', title='A JSON descriptor denotes the curve its expression says',
         statement='Parsing a JSON descriptor gives the curve that its nested, chained or listed functions, applied to its curves and number literals, denote; inside a @log decorator '
                   'every listed literal is taken to log space once and the result back out of it; @date strings are seconds since the epoch; named and unnamed arguments (@args) '
                   'mean the same as in a call. Parsing leaves the descriptor alone, and entries that are no functions keep their names.',
         over=['inputs', 'configurations'],
         quant='all number literals and queries, over expressions of up to three functions in every argument style, inside and outside of decorators',
         why='tests parse a dozen descriptors with fixed numbers, each style and decorator on its own',
         files=['curvepy/curve.py', 'curvepy/line.py', 'curvepy/constant.py'],
         mech=[('descriptors', 'Curve.parse_descriptor'), ('values', 'Curve.parse, Curve.parse_many')],
         note='expressions of up to three functions; logarithms and powers uninterpreted'),
    dict(id='C21', title='Extremas about a reference are the alternating confirmed turning points',
         statement='The extremas of a curve about a reference curve are, for every run of points on one side of the reference (further away than the minimum relative deviation) but the '
                   'last, its first furthest point; the curve joins them by lines and is undefined outside. This holds whatever was read before and after edits of the curve or the reference.',
         over=['inputs', 'histories', 'configurations'],
         quant='all series values and spacings, references (constant, series, average of the curve itself), deviations, reads and edits',
         why='tests find the extremas of a few short series about a constant and append to one of them',
         files=['curvepy/extremas.py', 'curvepy/scan.py'],
         mech=[('turning points', 'Extremas._extrema_scan'), ('updates', 'Extremas.begin_scan_update, Extremas.reset_scan'), ('stepping', 'Extremas.x_next, Extremas.x_previous')],
         note='0-4 points, one edit'),
    dict(id='C22', title='Trend lines touch enough points of the curve from one side and follow edits',
         statement='Each trend line found is the least-squares line of at least the minimum number of points of the curve, in order, at least the minimum distance apart and '
                   'spanning at least the minimum width; with just that many points these are within the tolerance of the line through the outer two and the curve does not cross '
                   'it between them. A curve that touches a line at every other point and stays on one side of it has that line. At a position just the lines that reach it are '
                   'answered. This holds whatever was read before and after edits; a copy of a line tells the same as the line and stays as it was.',
         over=['inputs', 'histories', 'configurations'],
         quant='all values of short series, edits, reads, numbers of points, widths, distances and tolerances',
         why='the tests of trends are commented out',
         files=['curvepy/trend.py', 'curvepy/scan.py'],
         mech=[('search', 'Trend._trend_scan, Trend._append_point_and_validate, TrendLine.set_trend_with_boundary_points'), ('updates', 'Trend.begin_update, Trend.reset_scan'),
               ('fit', 'TrendLine.update_trend')],
         note='3-7 points, one edit; points of interest and predictions only relative to a new trend'),
    dict(id='C23', title='A curve is sampled at the ends of the window and at its points in between',
         statement='Sampling a curve over a window gives, in order and with the values of the curve, the ends of the window (or of the curve, if it is defined on a part only; not the '
                   'open ones), every point of the curve or of the curves it is made of in between, and past the end of an extended curve its last step; a series gives just its own '
                   'points; a curve without points, and one sampled by a step, is sampled by the step. The range is the least and the greatest of the samples that are defined, and '
                   'the regression the line with the least squares through them, if all are defined.',
         over=['inputs', 'configurations'],
         quant='all values, windows with open or closed ends, steps and minimum steps',
         why='tests sample closed windows whose ends are on points, and no window with open ends',
         files=['curvepy/curve.py', 'curvepy/offset.py', 'curvepy/aggregate.py', 'curvepy/extension/extension.py', 'curvepy/points.py'],
         mech=[('sampling', 'Curve.sample_points'), ('stepping', 'Curve.x_next, Offset.x_next, Aggregate.x_next, Extension.x_next'), ('range', 'Curve.get_range'), ('regression', 'Curve.regression')],
         note='2-3 points, 18 kinds of curves'),
    dict(id='C24', title='The derivative of a curve is its slope to the next or previous point',
         statement='The derivative of any curve at any position, forward or backward, is the slope to its next or previous point (at least a given minimum step away), and undefined '
                   'where there is none or a value is; outside of an extended curve it is the slope of the extension, also at its ends. A differential has the domain of its curve and '
                   'just these values, also of differentials and in expressions.',
         over=['inputs', 'configurations'],
         quant='all values and positions, both directions, minimum steps',
         why='tests sample a few derivatives of series and lines; a minimum step other than the default occurs nowhere',
         files=['curvepy/curve.py', 'curvepy/offset.py', 'curvepy/aggregate.py', 'curvepy/extension/extension.py', 'curvepy/points.py', 'curvepy/line.py'],
         mech=[('derivative', 'Curve.d_y, Offset.d_y, Line.d_y'), ('stepping', 'x_next/x_previous of Points, Map, Offset, Aggregate, Extension'), ('differential', 'Curve.differential')],
         note='2-4 points, 15 kinds of curves'),
    dict(id='C25', title='Minimising and maximising end at a local extremum reached by a monotone walk',
         statement='Minimising a curve from any position gives a position of the curve that has no lower neighbouring point, is not higher than the start, and is reached from the start '
                   'without going up; or nothing, only where the start is not on the curve or going down leads out of it on one side at least. By a fixed step the bottom of a valley is found to within a '
                   'step. Maximising does the same upside down.',
         over=['inputs', 'configurations'],
         quant='all values, also equal and undefined ones, and starting positions',
         why='tests minimise two fixed curves without equal neighbouring values',
         files=['curvepy/curve.py'],
         mech=[('search', 'Curve.minimise, Curve.maximise'), ('slope', 'Curve.d_y')],
         note='2-4 points, 12 kinds of curves'),
    dict(id='C26', title='What a trend line tells about the curve along it is so',
         statement='A trend line along a curve has the height, position, width and extension (by a factor, up to a width, up to its crossings) of the line through its ends; a point is on it just '
                   'if it is within the tolerance, in the search interval. The crossings it tells are on the line, past its beginning, and in order, between points on opposite sides; the touches it tells '
                   'are points of the curve within the tolerance; the turning points are points of the curve off the line, the farthest of those on their side around them. When the curve goes from its side of the line '
                   'to a point beyond it, the crossing is told.',
         over=['inputs', 'configurations'],
         quant='all values after the line, positions, heights, factors and widths',
         why='the tests of trends are commented out',
         files=['curvepy/trend.py'],
         mech=[('points of interest', 'TrendLine.update_points_of_interest'), ('geometry', 'TrendLine.y/x/width/line_extended/is_point_on_trend'), ('intervals', 'TrendLine.update_trend, TrendLine.update_interval')],
         note='lines touched three times, 1-3 points after them'),
]
