#!/usr/bin/env python3
"""Writes /verif/properties.jsonl from the table below."""
import json, os
P = []


def p(id, title, statement, over, qtext, why, files, mech, state=None, observe=None):
    assert len(title) <= 80, (id, len(title))
    a = {'files': files, 'mechanism': [{'name': n, 'where': w} for n, w in mech]}
    if state:
        a['state'] = [{'name': n, 'meaning': m, 'where': w} for n, m, w in state]
    a['observe_at'] = observe or []
    a['hook_needed'] = None
    P.append({'id': id, 'title': title, 'statement': statement, 'quantifier': {'over': over, 'text': qtext},
              'why_tests_cant': why, 'anchors': a})


COL = 'cis/collocation/col_implementations.py'
UD = 'cis/data_io/ungridded_data.py'
GD = 'cis/data_io/gridded_data.py'

# ------------------------------------------------------------------ data model
p('D01', 'Points with a missing coordinate are removed from data and coordinates alike',
  'An ungridded dataset exposes exactly the source points for which every coordinate has a value (not masked, not '
  'NaN), in source order. Each exposed data value, its missing flag and every one of its coordinate values come from '
  'the same source point, whatever the source shape and whichever of data or coordinates is accessed first. The same '
  'holds when the source is a list of several files whose contents are concatenated.',
  ['inputs', 'histories'],
  'every shape, every pattern of missing values in each coordinate and in the data, every order of access',
  'The unit tests construct a few hand-made datasets with at most two missing coordinates; alignment must hold for '
  'every mask pattern and access order.',
  [UD, 'cis/data_io/Coord.py', 'cis/utils.py'],
  [('removal of points with missing coordinates', UD + ' UngriddedData._post_process'),
   ('lazy loading and concatenation', UD + ' LazyData.data')],
  observe=['UngriddedData.data', 'UngriddedData.coords()', 'UngriddedCoordinates.coords()'])

p('D02', 'Copies, slices, flattening and data frames keep points aligned and independent',
  'Slicing, boolean selection, copying, flattening and conversion of an ungridded dataset to a table or to a '
  'sequence of points yield, position by position, the same values, missing flags and coordinates as the source. '
  'Changing the values, coordinates or metadata of a copy or slice afterwards never changes the dataset it was '
  'taken from, and vice versa.',
  ['inputs', 'histories'],
  'every 1-D or 2-D dataset, every slice or selection, every later modification on either side',
  'Tests check one or two slices and one copy; aliasing bugs depend on the sequence slice-then-modify.',
  [UD, 'cis/data_io/Coord.py', 'cis/data_io/hyperpoint_view.py', 'cis/data_io/hyperpoint.py'],
  [('slice copies', UD + ' UngriddedData.__getitem__'), ('copy', UD + ' UngriddedData.copy'),
   ('point views', 'cis/data_io/hyperpoint_view.py')],
  observe=['UngriddedData.__getitem__', 'UngriddedData.copy', 'as_data_frame', 'get_all_points',
           'get_non_masked_points'])

p('D03', 'Longitude normalisation keeps every value attached to its physical location',
  'Setting the longitude range of a gridded or ungridded dataset to start at s leaves every longitude in '
  '[s, s+360) and equal to its old value modulo 360. Every data value (and missing flag, cell bound and auxiliary '
  'coordinate) stays attached to the same physical location, and a gridded longitude axis stays strictly monotonic.',
  ['inputs'],
  'every set of longitudes within one turn of the requested range and every range start',
  'Tests use two or three specific longitude arrays and starts; wrap-around faults need a point exactly on or around '
  'the cut.',
  [UD, GD, 'cis/utils.py', 'cis/data_io/Coord.py'],
  [('ungridded range fix', 'cis/utils.py fix_longitude_range'),
   ('gridded rotation', GD + ' GriddedData.set_longitude_range'), ('collocation range fix', COL + ' _fix_longitude_range')],
  observe=['GriddedData.set_longitude_range', 'UngriddedData.set_longitude_range'])

# ------------------------------------------------------------------ subsetting
p('S01', 'Ungridded subset keeps exactly the points inside the inclusive limits',
  'Subsetting ungridded data returns, in order, exactly the points whose every limited coordinate lies within its '
  'inclusive limits - longitudes compared modulo 360 and reported inside the requested range, dates compared as '
  'instants - each with its own value, missing flag and other coordinates. It returns nothing when no point matches, '
  'applies the same selection to every variable of a list, and never changes the dataset it was given.',
  ['inputs', 'histories'],
  'every dataset, every combination of limited coordinates, every limit incl. one crossing the 0 or 180 meridian',
  'Tests cover a fixed 5x3 grid of points and a few limits.',
  ['cis/subsetting/subset.py', UD],
  [('selection mask', 'cis/subsetting/subset.py UngriddedSubsetConstraint.constrain'),
   ('longitude mapping', 'cis/subsetting/subset.py _create_data_for_subset')],
  observe=['UngriddedData.subset', 'UngriddedDataList.subset'])

p('S02', 'Gridded subset keeps exactly the grid points inside the inclusive limits',
  'Subsetting gridded data returns exactly the hyperslab of grid points whose coordinates (the cell, for latitudes and longitudes with bounds) lie within the inclusive '
  'limits - longitudes compared modulo 360 and reported inside the requested range - with values, missing flags, '
  'bounds and auxiliary coordinates still attached to their grid points. It returns nothing when no grid point '
  'matches, applies the same selection to every variable of a list, and never changes the dataset it was given.',
  ['inputs'],
  'every rectilinear grid (any axis order, ascending or descending), every combination of limits',
  'Tests use one mock grid and a few limits.',
  ['cis/subsetting/subset.py', GD],
  [('extract/intersection', 'cis/subsetting/subset.py GriddedSubsetConstraint.constrain')],
  observe=['GriddedData.subset', 'GriddedDataList.subset'])

p('S03', 'Shape subset keeps exactly the points inside the polygon',
  'Subsetting by a geometric shape keeps exactly the ungridded points strictly inside the shape, and for gridded data '
  'returns the bounding box of the shape with every grid point outside the shape missing and every grid point inside '
  'unchanged. Elements that were missing before stay missing, limits on other coordinates still apply, and every variable of a '
  'list gets the same selection.',
  ['inputs'],
  'every dataset and grid axis order, every shape with vertices anywhere relative to the points',
  'Tests use one diamond on one grid without missing data.',
  ['cis/subsetting/subset.py'],
  [('shape indices', 'cis/subsetting/subset.py _get_indices_for_lat_lon_points')],
  observe=['subset(shape=...)'])

# ------------------------------------------------------------------ aggregation
p('A01', 'Aggregation grid cells tile the requested range',
  'Aggregating onto [start, end, step] creates ascending cells of exactly one step each, with midpoints start+step/2, '
  'start+3*step/2, ... and contiguous bounds beginning at start, covering the range up to end; without a step there is '
  'one cell spanning the range on the command line, and a coordinate that is not mentioned becomes one cell covering all its points whose '
  'bounds are the extremes of those points. Start and end default to the extremes of the data.',
  ['inputs'],
  'every start, end and step (numbers or dates and durations), every set of named coordinates',
  'Tests use a handful of ranges; off-by-one cells appear only for particular step/extent ratios.',
  ['cis/aggregation/ungridded_aggregator.py', UD],
  [('grid', 'cis/aggregation/ungridded_aggregator.py aggregation_grid_array'),
   ('limits', UD + ' _aggregate_ungridded')],
  observe=['UngriddedData.aggregate'])

p('A02', 'Aggregation puts every point in exactly one cell and computes the kernel over it',
  'Every non-missing point lying inside the requested grid contributes to exactly the one (half-open) cell that contains it and '
  'points outside contribute to none, so point counts over all cells add up to the number of such points. Each cell '
  'holds exactly the mean, sum, min, max, corrected standard deviation or moments of the non-missing values in it and '
  'is missing when there are none (the deviation also of a single value); the input is unchanged '
  'and a result which would take the name of a coordinate is prefixed with aggregated_.',
  ['inputs'],
  'every set of points (including on cell edges and duplicated) and every regular grid in one to three dimensions',
  'Tests use one 5x3 dataset; conservation must hold for every placement of the points.',
  [COL, 'cis/collocation/data_index.py', 'cis/aggregation/ungridded_aggregator.py'],
  [('cell index', 'cis/collocation/data_index.py GridCellBinIndexInSlices'),
   ('cell iterator', COL + ' BinnedCubeCellOnlyConstraint'), ('kernels', COL)],
  observe=['UngriddedData.aggregate'])

p('A03', 'Gridded collapse computes the kernel along the named axes only',
  'Collapsing gridded data over named coordinates yields, for each remaining grid point, the mean, min, max, sum or moments (mean, corrected '
  'standard deviation and number) over the non-missing values along the collapsed axes - with the mean weighted by cell area when latitude is '
  'named - whatever the axis order. The remaining axes keep their positions, coordinates over several axes are averaged along those which go, and '
  'heights of hybrid levels still follow from their own level and orography. The result is missing exactly where no value was present and the '
  'input dataset is unchanged.',
  ['inputs'],
  'every grid shape, axis order, missing pattern and set of collapsed coordinates',
  'Tests use a 5x3 grid and a few masks.',
  ['cis/aggregation/gridded_collapsor.py', 'cis/aggregation/collapse_kernels.py', GD],
  [('collapse', 'cis/aggregation/gridded_collapsor.py'), ('kernels', 'cis/aggregation/collapse_kernels.py')],
  observe=['GriddedData.collapsed', 'GriddedDataList.collapsed'])

# ------------------------------------------------------------------ collocation
p('C01', 'Box collocation uses exactly the data points within every given separation',
  'For each sample point, box collocation passes to the kernel exactly the non-missing data points that are '
  'at most the horizontal separation away on the sphere and closer than the altitude, time and pressure-ratio separations '
  'that were given, and no others. Units and duration notation of the separations are honoured and the result does '
  'not depend on the order or longitude convention of the data.',
  ['inputs'],
  'all positions of samples and data on the globe, all subsets of separations and all separation values',
  'Tests place a 5x3 block of points near the equator and prime meridian; index pruning errors appear elsewhere.',
  [COL, 'cis/collocation/haversinedistancekdtreeindex.py', 'cis/collocation/kdtree.py', 'cis/utils.py'],
  [('constraint', COL + ' SepConstraintKdtree'), ('range query', 'cis/collocation/kdtree.py query_ball_tree')],
  observe=['collocated_onto(how="box")'])

p('C02', 'Collocation kernels return the exact statistic or the true nearest neighbour',
  'For the points selected for a sample point, the kernels return their mean, min, max, sum, corrected standard '
  'deviation or moments, or the value of the selected point nearest to the sample in horizontal distance, altitude, time or '
  'pressure ratio. A sample point for which nothing was selected is missing in the output and all output variables '
  'are named after the quantity they hold.',
  ['inputs'],
  'every set of selected points, ties included (any nearest point is then acceptable)',
  'Tests use three to four points per kernel.',
  [COL, 'cis/collocation/col_framework.py'],
  [('kernels', COL + ' mean, stddev, min, max, sum, moments, nn_*')],
  observe=['collocated_onto(how="box", kernel=...)'])

p('C03', 'Spherical index queries equal an exhaustive search',
  'For every set of points on the globe, the spatial index returns, for a range query, exactly the indexed points '
  'within the given great-circle distance and, for a nearest query, a point at the smallest great-circle distance, '
  'also across the poles and the date line and for any tree size. Missing data points are never returned.',
  ['inputs'],
  'every set of indexed points, leaf size, query point and distance',
  'Tests compare some random clouds against one implementation path; the pruning bounds are wrong only for particular '
  'geometry (high latitude, date line).',
  ['cis/collocation/kdtree.py', 'cis/collocation/haversinedistancekdtreeindex.py'],
  [('pruning bounds', 'cis/collocation/kdtree.py RectangleHaversine'), ('queries', 'cis/collocation/kdtree.py HaversineDistanceKDTree')],
  observe=['HaversineDistanceKDTreeIndex', 'HaversineDistanceKDTree.query*'])

p('C04', 'Bin collocation assigns each data point to the sample grid cell containing it',
  'Collocating ungridded data onto a grid assigns each non-missing data point to exactly the grid cell whose bounds '
  'contain it (bounds given, or midway between grid points), longitudes modulo 360, for ascending and descending '
  'axes, and to no cell when it lies outside the grid. Each cell (half-open) then holds the kernel of its points or is missing, '
  'in the shape and axis order of the sample grid.',
  ['inputs'],
  'every rectilinear grid with any axis order and direction and every set of data points',
  'Tests use one 5x3 ascending grid and points near its nodes.',
  [COL, 'cis/collocation/data_index.py'],
  [('cell search', 'cis/collocation/data_index.py'), ('collocator', COL + ' GeneralGriddedCollocator')],
  observe=['collocated_onto(how="bin")'])

p('C05', 'Interpolating gridded data onto points is exact and respects missing data',
  'Nearest-neighbour collocation of gridded data returns at each sample point the value of the closest grid point, and '
  'linear collocation the multilinear interpolant of the surrounding grid points, whatever the axis order, axis '
  'direction or longitude convention, with longitude treated as circular where the axis says so. Samples outside a non-circular axis are '
  'missing unless extrapolation is requested, and a missing surrounding value gives a missing result.',
  ['inputs'],
  'every rectilinear grid, missing pattern, and sample position',
  'Tests use one small ascending grid and few samples.',
  ['cis/collocation/gridded_interpolation.py', COL],
  [('interpolator', 'cis/collocation/gridded_interpolation.py')],
  observe=['collocated_onto(how="lin"|"nn")'])

p('C06', 'Gridded-to-gridded collocation puts the data on the sample grid',
  'Collocating gridded data onto another grid returns data on exactly the horizontal (and any other shared) axes of the '
  'sample grid, with at each sample grid point the value of the nearest grid point or the multilinear interpolant of '
  'the data, extra axes of the data being kept. Points outside the data grid are missing unless extrapolation (of data without gaps) is '
  'requested, and missing sample points are missing in the output only when that is requested.',
  ['inputs'],
  'every pair of grids sharing latitude and longitude',
  'Tests check two synthetic grids.',
  [COL],
  [('collocator', COL + ' GriddedCollocator')],
  observe=['GriddedData.collocated_onto(GriddedData)'])

p('C07', 'Collocation output has the sample geometry, requested names and no side effects',
  'Every collocator returns data on the sample points in sample order with the sample coordinates, uses the requested '
  'variable name, long name, units and fill value, and masks points whose sample value is missing exactly when that is '
  'requested; the mean, deviation and number of points of the moments are called as they were asked to be. Data values and sample values of the inputs are never changed and several variables (on the same points) collocated together '
  'give the same results as collocating each on its own.',
  ['inputs', 'histories'],
  'all collocator and kernel combinations, missing patterns of the sample, lists of data',
  'Tests check options on single collocators only.',
  [COL, 'cis/collocation/col.py', UD, GD],
  [('collocators', COL)],
  observe=['collocated_onto', 'sampled_from'])

# ------------------------------------------------------------------ evaluation, arithmetic, statistics
p('E01', 'Evaluation applies the expression point by point with missing data propagated',
  'Evaluating an expression over variables gives, at each point, the expression applied to the values of the '
  'variables at that point, on the coordinates of the inputs, with the requested name, units and attributes, and '
  'missing wherever any variable used there is missing (or possibly where the result is not finite). Each variable is available under its alias or name. '
  'Expressions containing double underscores or '
  'unavailable names, or which give a single number, are refused and inputs are never changed.',
  ['inputs', 'programs'],
  'every arithmetic expression over up to three variables, every missing pattern, gridded or ungridded',
  'Tests evaluate five fixed expressions.',
  ['cis/evaluate.py'],
  [('calculator', 'cis/evaluate.py Calculator')],
  observe=['Calculator.evaluate', 'cis eval'])

p('M01', 'Arithmetic on datasets is point-wise and changes only in-place targets',
  'Arithmetic between ungridded datasets or with numbers (on the left of + and * too) gives point-wise results on the same coordinates, missing '
  'where either operand is missing, and leaves both operands unchanged; in-place operators change exactly the left '
  'operand. The resulting units follow from the operation.',
  ['inputs', 'histories'],
  'every sequence of arithmetic operators over masked data',
  'Tests apply each operator once.',
  ['cis/maths.py', UD],
  [('operators', 'cis/maths.py')],
  observe=['UngriddedData operators'])

p('T01', 'Statistics use exactly the points valid in both datasets',
  'Statistical comparison of two datasets uses exactly the points that are non-missing in both, and reports their '
  'number, means, corrected standard deviations, absolute and relative differences, rank correlation and linear '
  'regression as defined. Relative differences count where the first dataset is not zero, a statistic '
  'which is not defined is not a number. The result does not depend on values at missing points and the inputs are unchanged.',
  ['inputs'],
  'every pair of equally shaped datasets and missing patterns',
  'Tests use three fixed arrays.',
  ['cis/stats.py'],
  [('analyser', 'cis/stats.py StatsAnalyzer')],
  observe=['StatsAnalyzer.analyze', 'cis stats'])

# ------------------------------------------------------------------ time
p('T02', 'Times from any reference survive conversion to the standard time axis',
  'Converting times given relative to any reference date, in any supported unit or encoding (days, hours, minutes, '
  'seconds since, TAI seconds, Julian days, date objects), to the standard time axis and back to dates yields the same instant, '
  'including sub-day reference offsets and missing elements.',
  ['inputs'],
  'every reference date and unit, every offset',
  'Tests use one or two references at midnight.',
  ['cis/time_util.py', 'cis/data_io/Coord.py'],
  [('conversions', 'cis/time_util.py'), ('coordinate conversion', 'cis/data_io/Coord.py')],
  observe=['Coord.convert_to_std_time', 'time_util.convert_*'])

p('T03', 'Partial dates and durations denote the whole period they name',
  'A partial date used as the start of a range means the first instant, and used as the end the last instant, of the '
  'year, month, day, hour or minute it names, in every month and leap year; separators T, colon and space are '
  'equivalent. A duration written in ISO notation means the sum of its parts, and malformed dates, durations and '
  'limits are refused. A year of a duration is 365 days, a month 30.',
  ['inputs'],
  'every partial date between years 1600 and 2100 and every duration',
  'Tests parse a few strings.',
  ['cis/parse_datetime.py', 'cis/time_util.py'],
  [('parsing', 'cis/parse_datetime.py'), ('partial dates', 'cis/time_util.py PartialDateTime')],
  observe=['parse_args subset/aggregate', 'PartialDateTime.min/max'])

# ------------------------------------------------------------------ IO
p('W01', 'Saved ungridded data reads back identical',
  'Saving ungridded data (one variable or a list) and reading the file back yields the same points in the same order '
  'with the same values, missing flags, coordinates, standard times, units, names (a name that is taken gets a number appended) and history; '
  'truth values come back as bytes and half precision as single. Saving does not change the data '
  'in memory, and the file is recognised without naming its product.',
  ['inputs', 'histories'],
  'every dataset, data type, missing pattern and fill value',
  'Existing tests write one simple dataset.',
  ['cis/data_io/write_netcdf.py', 'cis/data_io/netcdf.py', 'cis/data_io/products/products.py', UD],
  [('writer', 'cis/data_io/write_netcdf.py'), ('reader', 'cis/data_io/products/products.py cis')],
  observe=['save_data', 'cis.read_data'])

p('W02', 'Saved gridded data reads back identical',
  'Saving gridded data (one variable or a list) and reading the file back yields the same grid, values, missing '
  'flags, bounds, units and names, for variables whose names differ. Several files split along a dimension with at least two points each, read together, equal the original (without their histories when they are HadGEM\'s).',
  ['inputs'],
  'every grid, missing pattern and partition into files',
  'Tests write one cube.',
  [GD, 'cis/data_io/products/gridded_NetCDF.py'],
  [('writer', GD + ' save_data'), ('reader', 'cis/data_io/products/gridded_NetCDF.py')],
  observe=['save_data', 'cis.read_data'])

p('R05', 'Satellite swaths and profiles are read point by point with the right position',
  'Reading a variable of MODIS level 2, CALIOP (levels 1 and 2, with and without pressure), CloudSat or EarthCARE (MSI and ATLID; of a further dimension the index asked for, the first if none) files yields one point for '
  'each stored element, in file order, file after file, with the value stored for it and the latitude, longitude, time, altitude and '
  'pressure which the file gives for that pixel or profile and bin; points whose position is missing are left out, missing values stay. '
  'Variables with more dimensions are one dataset for each leading index, each holding its own values whatever the order in which they '
  'are used; 1 km variables lie evenly between the given pixels, longitudes the shorter way round, and have no position outside them. '
  'Gridded files of MODIS (level 3) and CCI (clouds and aerosol, level 3) have for each cell the value of the file at its latitude and longitude, at the middle of the period of the file, which is its bounds, earlier files first. '
  'Listing a product shows the variables which have one element for each of its points.',
  ['inputs', 'histories'],
  'every size of file, number of files, leading dimensions, missing pattern and order of use',
  'The tests of these products need real data files which are not there.',
  ['cis/data_io/products/MODIS.py', 'cis/data_io/products/caliop.py', 'cis/data_io/products/cloudsat.py', 'cis/data_io/products/EarthCARE.py', 'cis/data_io/products/CCI.py', 'cis/data_io/hdf.py', 'cis/data_io/hdf_sd.py',
   'cis/data_io/hdf_vd.py'],
  [('MODIS', 'cis/data_io/products/MODIS.py MODIS_L2'), ('CALIOP', 'cis/data_io/products/caliop.py'), ('CloudSat', 'cis/data_io/products/cloudsat.py')],
  observe=['cis.read_data', 'get_coordinates', 'get_variables'])

p('R06', 'Station, flight and text files are read row by row at the right place and time',
  'Reading a variable of AERONET (levels 2, 3, MAN, with and without SDA), ASCII hyperpoints, NCAR-RAF and GASSP (flight, ship and station '
  'files, all spellings of the position attributes), Aerosol and Cloud CCI level 2 and CCI level 3 files yields one point for each stored row or '
  'element, in file order, file after file, with the value stored for it and the position and time the file states for it. Fill values and '
  'values outside the stated range are missing, rows without a position are left out, and the units of time are those of the file. Auxiliary '
  'bins of NCAR files give one point for each bin, each with its bin value.',
  ['inputs'],
  'every number of rows and files, spelling, missing pattern and unit',
  'The tests of these products need real data files which are not there.',
  ['cis/data_io/aeronet.py', 'cis/data_io/products/products.py', 'cis/data_io/products/NCAR_NetCDF_RAF.py', 'cis/data_io/products/CCI.py'],
  [('AERONET', 'cis/data_io/aeronet.py'), ('ASCII', 'cis/data_io/products/products.py ASCII_Hyperpoints'),
   ('NCAR-RAF, GASSP', 'cis/data_io/products/NCAR_NetCDF_RAF.py'), ('CCI', 'cis/data_io/products/*CCI*')],
  observe=['cis.read_data', 'get_coordinates'])

p('D04', 'Coordinates are found by exactly the criteria asked for, and by no others',
  'Asking a list of coordinates, or ungridded data, lists of them or bare coordinates, for those with a name, standard name, long name, variable name, axis (whichever '
  'way its letter is written), attributes or standard name like that of another coordinate gives exactly those which meet every criterion given, in their order; '
  'asking for one gives it when there is exactly one and is refused otherwise. The name is the standard name, else the long name, else the variable '
  'name. The standard coordinates are those with the five standard names, or nothing where there is none. A list never holds two '
  'coordinates with the same standard name, and any number without one.',
  ['inputs'],
  'every list of coordinates and every combination of criteria',
  'Tests ask a few lists for one criterion at a time.',
  ['cis/data_io/Coord.py', UD, 'cis/data_io/common_data.py'],
  [('lookup', 'cis/data_io/Coord.py CoordList.get_coords'), ('joining', 'cis/data_io/Coord.py CoordList.append'), ('standard coordinates', 'cis/data_io/Coord.py find_standard_coords')],
  observe=['CoordList.get_coords', 'UngriddedData.coords', 'UngriddedData.coord'])

p('D05', 'Data seen as a list of points shows each value where it is, and no others',
  'The view of data as points has one point for each value, in the order of the flattened array, with those of the five standard coordinates which belong to its place '
  '(whatever order the dimensions of a grid have, of whatever length, and with dimensions which have no standard coordinate or none at all) and its value. Iterating gives all points, or those whose '
  'value is not missing, as was asked, and numbers are those of the flattened array. Setting a point changes only that point, and on a grid only its value; there is no point outside. '
  'Points tell whether they are at the same place and time, how far apart they are in time, height and ratio of pressures and which is closer, their opposite, and copies of '
  'them with other values. A list of points has the coordinates and values of its points, and data made of it too. '
  'The table of data has a row for each point, a column of values for each coordinate under its name and one for the data, and the times as its index.',
  ['inputs', 'histories'],
  'every shape, arrangement of dimensions, pattern of missing values and history of setting values',
  'The tests iterate over full grids of fixed shapes where every dimension has a standard coordinate.',
  ['cis/data_io/hyperpoint_view.py', 'cis/data_io/hyperpoint.py', UD, 'cis/data_io/gridded_data.py', 'cis/data_io/Coord.py'],
  [('views', 'cis/data_io/hyperpoint_view.py'), ('points', 'cis/data_io/hyperpoint.py'), ('standard coordinates of grids', 'cis/data_io/gridded_data.py find_standard_coords')],
  observe=['get_all_points', 'get_non_masked_points', 'get_coordinates_points', 'HyperPoint', 'HyperPointList'])

p('D06', 'A list of data holds one kind on the same points and acts on each member',
  'A list of gridded or of ungridded data holds only data of that kind whose coordinates are as many and of the same shapes as those of its first; appending or '
  'extending with anything else, or joining lists which do not fit, is refused and adds nothing that does not fit. Slices, sums and copies of a list are lists of '
  'the same kind with the members in order; slices and sums hold the same data, copies are independent of it. Setting the range of longitudes, adding to the history '
  'and transposing act on each member. A subset, intersection or extraction gives a list with that of each member, or nothing when nothing is left. The names '
  'of the variables are those of the members in order, and the table of a list of points has their coordinates once and a column for each variable.',
  ['inputs', 'histories'],
  'every history of operations on lists which share their members',
  'The tests append to and save a few fixed lists.',
  ['cis/data_io/common_data.py', 'cis/data_io/gridded_data.py', UD],
  [('joining', 'cis/data_io/common_data.py CommonDataList'), ('grids', 'cis/data_io/gridded_data.py GriddedDataList'), ('points', UD + ' UngriddedDataList')],
  observe=['GriddedDataList', 'UngriddedDataList'])

p('R07', 'The variables listed for files are exactly those which can be read from them',
  'The variables which are listed for a set of files are those of every file, each once: of netCDF files those of the root and of all groups inside groups, under '
  'the names of their groups and their own joined by slashes, without those which have a dimension their product cannot place; of gridded files those '
  'whose coordinates with more than one point are times, heights, pressures or angles; of HDF files the arrays or the tables, as asked. A listed variable can be '
  'read by the name it is listed under and holds the values of that variable, file after file. The info command prints these names one in a line, and for '
  'the variables it is asked about their names, units, shapes, numbers of points and of values, and the name and the range of each coordinate, times as dates.',
  ['inputs'],
  'every tree of groups, set of dimensions, number of files, units and missing values',
  'The unit tests know one nested file; the listings of products need data files which are not there.',
  ['cis/data_io/products/AProduct.py', 'cis/data_io/netcdf.py', 'cis/data_io/hdf.py', 'cis/data_io/products/gridded_NetCDF.py', 'cis/info.py', UD],
  [('walk through the groups', 'cis/data_io/netcdf.py _get_all_fully_qualified_variables'), ('dimensions which cannot be placed', 'cis/data_io/netcdf.py remove_variables_with_non_spatiotemporal_dimensions'),
   ('gathering', 'cis/data_io/products/AProduct.py get_variable_names'), ('grids', 'cis/data_io/products/gridded_NetCDF.py get_variable_names'), ('summary', UD + ' summary')],
  observe=['get_variables', 'cis info'])

p('V01', 'A plot shows every value where its coordinates put it, on the axes asked for',
  'Plotting through the plot methods, the plotter or the plot command draws, for each layer and kind of plot, exactly the values which are not '
  'missing: lines and points in the order of the data, cells of a heatmap between the bounds of the coordinates, contours through the points (joined up '
  'only where longitudes go all the way round), counts of histograms between equal bins, one dataset against another where neither is missing, and '
  'correlation and ratio of deviations for Taylor diagrams. The axes are those named, or longitude and latitude, or the other dimension, whichever way '
  'the data is stored; times are drawn as dates whatever their units; pressure runs downwards on the y axis only. Limits, steps, log scales, size, '
  'labels, legend and colour range are those asked for, by default the frame holds all marks, each layer keeps its own type and label, the data is '
  'not modified, and impossible requests are refused with an error of CIS.',
  ['inputs'],
  'every arrangement of dimensions, names, kinds, layers, masks and options',
  'The tests compare a few images, which need files that are not there.',
  ['cis/plotting/plot.py', 'cis/plotting/genericplot.py', 'cis/plotting/formatted_plot.py', 'cis/plotting/histogram2d.py', 'cis/plotting/taylor.py'],
  [('axes, types and layers', 'cis/plotting/plot.py basic_plot, multilayer_plot, get_axis'), ('marks', 'cis/plotting/genericplot.py and the plot types'),
   ('frame', 'cis/plotting/formatted_plot.py Plotter')],
  observe=['the artists on the axes', 'cis plot'])

p('V02', 'Each layer of a plot looks as its own options ask, and only that layer',
  'In a plot of one or several layers, every layer has the colour, edge, marker, line style, width, transparency, colour map, colour range, contour '
  'lines, labels and colour bar (its label, side, size, or none) which were given with that layer, or else those given for the whole plot, or else '
  'the defaults: the options of one layer never reach another, and the same options mean the same through the methods, the plotter and the command. '
  'A layer without a colour bar puts its label in the title. Grid lines, title and size of the font are those asked for, for that plot alone. '
  'Values which an option cannot have are refused with an error.',
  ['inputs'],
  'every combination of kinds of layers and of options of layers and of plots',
  'The tests compare a few images, which need files that are not there.',
  ['cis/plotting/plot.py', 'cis/plotting/genericplot.py', 'cis/plotting/formatted_plot.py', 'cis/plotting/scatterplot.py', 'cis/plotting/contourplot.py', 'cis/plotting/lineplot.py', 'cis/parse.py'],
  [('options of a layer over those of the plot', 'cis/plotting/plot.py multilayer_plot'), ('appearance', 'cis/plotting/genericplot.py and the plot types'),
   ('datagroup options', 'cis/parse.py get_plot_datagroups'), ('font and grid', 'cis/plotting/formatted_plot.py Plotter')],
  observe=['the artists on the axes', 'cis plot'])

p('R01', 'Packed and range-limited file variables are masked first and then scaled',
  'Reading a file variable yields, for every storage type, each stored element missing exactly when it equals the '
  'fill or missing value of the variable (for netCDF also an element never written), or lies outside the valid range, '
  'minimum or maximum in stored units, and otherwise unpacked as the convention of the product says: netCDF and plain '
  'HDF stored * scale_factor + add_offset, MODIS (stored - add_offset) * scale_factor, CALIOP stored / scale_factor + '
  'add_offset with its own fill values per format, CloudSat (stored - offset) / factor with its missing operator. '
  'Elements of several files follow one another in the order of the files.',
  ['inputs'],
  'every storage type, combination of attributes and stored values, and partition into files',
  'Tests rely on external sample files that are not available.',
  ['cis/data_io/netcdf.py', UD, 'cis/data_io/hdf_sd.py', 'cis/data_io/hdf_vd.py', 'cis/data_io/products/MODIS.py',
   'cis/data_io/products/caliop.py', 'cis/data_io/products/cloudsat.py', 'cis/utils.py'],
  [('unpacking', 'cis/data_io/netcdf.py get_data'), ('unpacking', 'cis/data_io/hdf_sd.py get_data'),
   ('unpacking', 'cis/data_io/products/*.py _get_*_data'), ('masking', UD + ' LazyData')],
  observe=['cis.read_data'])

p('R02', 'A group of files is read as the ordered, duplicate-free concatenation',
  'A file specification (names, wildcards, directories, commas, lists) expands to the existing files it names, each '
  'once however it is spelled, in the given order with wildcard and directory matches sorted (hidden files only where asked for), and fails if a named file does '
  'not exist or nothing at all is found. '
  'Reading a variable from several files yields the concatenation of the individual files in that order.',
  ['inputs', 'configurations'],
  'every directory content and specification',
  'Tests use a fixed directory.',
  ['cis/data_io/data_reader.py', 'cis/data_io/netcdf.py', 'cis/utils.py'],
  [('expansion', 'cis/data_io/data_reader.py expand_filelist'), ('concatenation', 'cis/utils.py concatenate')],
  observe=['expand_filelist', 'cis.read_data'])

p('R03', 'Every file is opened with the highest-priority product that accepts it',
  'Without an explicit product, files are read by the registered product (built in or from a plugin, derived directly or through other classes, except '
  'those whose name starts with abstract) of the highest priority, the first by name among equals, one of whose signatures matches the whole name of the '
  'first file ignoring case and directory and which accepts its content; an explicit product name always wins. A file nobody accepts and an unknown product '
  'name are refused with an error which lists the products there are. An error inside the product which opens a file is reported as one of that product, with its '
  'kind and its text, whether it has a text or not. The built-in products match the names documented for them.',
  ['inputs', 'configurations'],
  'every set of plugin products with any priorities, signatures and verdicts and every file name',
  'Tests check a few built-in names.',
  ['cis/data_io/products/AProduct.py', 'cis/plugin.py'],
  [('selection', 'cis/data_io/products/AProduct.py'), ('plugin discovery', 'cis/plugin.py')],
  observe=['AProduct.get_product_full_name', 'cis.read_data', 'CIS_PLUGIN_HOME'])

p('R04', 'Variable wildcards and aliases select exactly the matching variables',
  'A variable specification selects exactly the named variables, wildcards expanding to all matching variables of the '
  'file and nothing else, each variable once per mention, in order (those matching a wildcard sorted), carrying the alias given for its name or '
  'wildcard; a specification matching nothing, or a different number of aliases, is refused. All variables read together form one list of one kind.',
  ['inputs'],
  'every variable name set and specification',
  'Tests use mocks with two variables.',
  ['cis/data_io/data_reader.py'],
  [('wildcards', 'cis/data_io/data_reader.py _expand_wildcards')],
  observe=['cis.read_data_list', 'DataReader'])

# ------------------------------------------------------------------ command line
p('P01', 'Command-line data groups and options mean exactly what was written',
  'A data group splits at its unescaped colons into variables, files and options, and options split at commas outside '
  'brackets; escaped or bracketed separators stay literal, named options reach the component they belong to with exactly the given value, '
  'and order of options is irrelevant. Options that are flags are True or False (or bare, meaning true). Unknown or duplicated options, malformed groups and invalid product, kernel or '
  'collocator names are refused.',
  ['inputs', 'programs'],
  'every token sequence of names, brackets, escapes, separators and options',
  'Tests parse a fixed list of command lines.',
  ['cis/parse.py', 'cis/utils.py'],
  [('splitting', 'cis/utils.py split_into_float_and_units, multi_split_outside_brackets'), ('groups', 'cis/parse.py')],
  observe=['parse_args'])

p('P02', 'No command overwrites a file without permission or destroys its input',
  'An existing output file is replaced only if overwriting was forced by option or environment or confirmed at the '
  'prompt, and a refused prompt leaves it untouched and exits. No command ever writes over one of its own input files, '
  'whatever spelling the output name has (with or without extension), and the output always gets the .nc extension (images keep theirs).',
  ['configurations', 'histories'],
  'every combination of command, existing files, flag, environment setting and prompt answer',
  'Tests cover the parser for a few combinations only.',
  ['cis/parse.py', 'cis/cis_main.py'],
  [('guard', 'cis/parse.py _check_output_filepath_not_input'), ('overwrite', 'cis/parse.py _file_already_exists_and_no_overwrite')],
  observe=['cis command line'])

p('P03', 'Each command computes what the library call computes and records its history',
  'Running subset, aggregate, collapse, col, eval and stats from the command line writes a file holding exactly the '
  'result of the corresponding library operation on the data read from the inputs, for every variable requested. Each '
  'written variable carries a history recording the operation and its inputs; subset, aggregate, collapse and col append it to the history of the '
  'data it came from.',
  ['inputs', 'histories', 'programs'],
  'every sequence of commands where the output of one is an input of a later one',
  'The integration tests need data files that are not available.',
  ['cis/cis_main.py', 'cis/parse.py', UD, GD, 'cis/data_io/common_data.py'],
  [('commands', 'cis/cis_main.py')],
  observe=['cis command line', 'output file'])
with open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'properties.jsonl'), 'w') as f:
    for x in P:
        f.write(json.dumps(x) + '\n')
print(len(P), 'properties')
