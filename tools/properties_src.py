p('C01', 'Subsetting ungridded data keeps exactly the points inside the limits',
  'Subsetting an ungridded variable (or a list of variables sharing coordinates) by coordinate limits returns exactly '
  'the points whose every limited coordinate lies between the inclusive start and stop, in their original order, with '
  'value, missing flag and all coordinates still belonging to the same point, for every variable alike. An omitted '
  'start or stop does not exclude anything, nothing is returned when no point qualifies, and the source data are '
  'left unchanged.',
  'inputs', 'all coordinate values, data values, missing flags and limits (in any order relation, including ties)',
  'Unit tests subset a few hand-made arrays with fixed limits; ties with the limits, missing values, several '
  'variables and empty results combine in ways they do not sample.',
  'cis/subsetting/subset.py cis/data_io/ungridded_data.py cis/data_io/Coord.py',
  [('combined mask of the inclusive limits', 'UngriddedSubsetConstraint.constrain'),
   ('slice of data and coordinates by one mask', 'UngriddedData.__getitem__')],
  [('combined mask', 'which points satisfy all limits', 'UngriddedSubsetConstraint')],
  ['UngriddedData.subset', 'UngriddedDataList.subset'])
p('C02', 'Longitude limits are circular when subsetting ungridded data',
  'Subsetting ungridded data by an increasing longitude range of at most 360 degrees keeps exactly the points whose '
  'longitude, modulo 360, lies in the (inclusive) range, whatever longitude convention (-180..180 or 0..360) the data '
  'and the limits each use. Values and the other coordinates stay with their points, the longitudes in the result name '
  'the same meridians (moved by whole turns into the requested range), and the source keeps its longitudes.',
  'inputs', 'all point longitudes and all increasing limits within [-180, 360]',
  'Tests use one convention and a few limits; the date line, 0/360 and 180/-180 and limits given in the other '
  'convention are each a boundary.',
  'cis/subsetting/subset.py cis/data_io/ungridded_data.py cis/data_io/Coord.py cis/utils.py',
  [('choice of longitude range', 'subset.subset'), ('longitude mapping', 'Coord.set_longitude_range')],
  [('longitude range start', 'which turn the longitudes are expressed in', 'UngriddedCoordinates.set_longitude_range')],
  ['UngriddedData.subset'])
p('C03', 'Time limits select by calendar time, partial dates covering their period',
  'Subsetting by time compares calendar instants: a pair of date-times (or one open-ended date-time) keeps exactly the '
  'points whose time lies in the inclusive interval, and a partial date (year; year-month; ... down to the second) '
  'keeps exactly the points in the period it names: from its first instant up to the last second of it. Impossible '
  'dates are refused. This holds for times in the standard time units for every year, month length and leap year.',
  'inputs', 'all point times and all dates (year 1600-9999 parts symbolic) in every partial form',
  'Month lengths, leap years and century rules make the periods irregular; tests sample a handful of dates.',
  'cis/subsetting/subset.py cis/parse_datetime.py cis/time_util.py cis/data_io/ungridded_data.py',
  [('limits from partial dates', 'parse_datetime._parse_partial_datetime, cis.subsetting.subset.subset'),
   ('conversion of limits to time units', 'subset.subset')],
  [], ['UngriddedData.subset'])
p('C04', 'Subsetting gridded data keeps exactly the grid points inside the limits',
  'Subsetting gridded data (or a list of gridded variables on one grid) by limits on any of its dimensions keeps '
  'exactly the grid points inside all inclusive limits, with value, missing flag and every dimension and auxiliary '
  'coordinate still belonging to its grid point, for ascending and descending coordinates and in any combination of '
  'dimensions, one-sided limits and dates included. Longitude limits are circular (output longitudes are moved by whole '
  'turns into the range; cells with bounds are kept when they overlap the range). Nothing is returned when no grid '
  'point qualifies, and the source is unchanged.',
  'inputs', 'all grid coordinates (strictly monotonic), values, missing flags and increasing limits',
  'Tests use regular, ascending grids with limits away from grid points and away from the wrap.',
  'cis/subsetting/subset.py cis/data_io/gridded_data.py cis/parse_datetime.py',
  [('limit constraints', 'GriddedSubsetConstraint.constrain'), ('longitude intersection', 'subset.subset')],
  [], ['GriddedData.subset', 'GriddedDataList.subset'])
p('C05', 'Subsetting by a shape keeps exactly the points inside the shape',
  'Subsetting by a latitude/longitude shape keeps exactly the ungridded points inside it (for every variable of a list) '
  'and, for gridded data, cuts the grid to the bounding box of the shape and masks exactly the grid points that are '
  'outside it, leaving values inside untouched and already-missing points missing, whatever the order of the '
  'dimensions. Limits given together with a shape apply as well; nothing is returned when no point qualifies.',
  'inputs', 'all point positions, values, missing flags and further limits',
  'Tests use one shape on one grid with latitude first and no missing values.',
  'cis/subsetting/subset.py cis/data_io/gridded_data.py cis/data_io/ungridded_data.py',
  [('shape mask', 'subset._get_gridded_subset_region_indices'), ('ungridded shape mask',
                                                                 'subset._get_ungridded_subset_region_indices')],
  [], ['UngriddedData.subset', 'GriddedData.subset'])
p('C06', 'Aggregating ungridded data puts each point in exactly the cell that contains it',
  'Aggregating ungridded data onto a grid uses every non-missing data point exactly once, in the half-open grid cell '
  '(lower bound included, upper bound excluded, in each aggregated dimension) that contains its coordinates, and in no '
  'other; points outside every cell and missing points contribute nothing, and a cell without points is missing. '
  'Longitude is circular: a point is counted in the cell that contains its meridian whatever convention the data and '
  'the grid use. This holds in one and several dimensions and for lists of variables, each with its own missing points.',
  'inputs', 'all point coordinates, values, missing flags and grid starts/steps within the stated number of cells',
  'Tests aggregate regular points in cell centres; points on cell edges, across the date line or missing in one of '
  'several variables are not sampled.',
  'cis/data_io/ungridded_data.py cis/aggregation/ungridded_aggregator.py cis/collocation/col_implementations.py '
  'cis/collocation/data_index.py cis/data_io/hyperpoint_view.py',
  [('indexing of points by cell', 'data_index.GridCellBinIndexInSlices, BinnedCubeCellOnlyConstraint'),
   ('longitude range', 'col_implementations._find_longitude_range')],
  [('cell index', 'which points belong to which cell', 'data_index.GridCellBinIndexInSlices')],
  ['UngriddedData.aggregate', 'UngriddedDataList.aggregate'])
p('C07', 'Kernels compute the statistic they are named after from the non-missing points',
  'For every set of points in a cell the kernels give: mean the arithmetic mean, min and max the smallest and largest, '
  'sum the sum, stddev the sample standard deviation (n-1; missing for a single point), moments the mean, the sample '
  'standard deviation and the number of points as three variables (name, name_std_dev, name_num_points, the first two '
  'in the units of the data), with moments as the default for aggregation; missing points take no part and cells '
  'without non-missing points are missing. This holds alike through aggregation and collocation of lists of variables.',
  'inputs', 'all values and missing flags of the points in a cell',
  'Tests use a few fixed arrays; single points, missing values and equal values in combination are not sampled.',
  'cis/collocation/col_implementations.py cis/collocation/col_framework.py cis/aggregation/collapse_kernels.py '
  'cis/data_io/ungridded_data.py',
  [('kernels', 'col_implementations.mean, stddev, min, max, sum, moments'),
   ('kernels on data frames', 'col_framework.AbstractDataOnlyKernel.get_value')],
  [], ['UngriddedData.aggregate', 'UngriddedData.collocated_onto'])
p('C08', 'The aggregation grid is the one that was asked for',
  'Aggregating ungridded data over coordinate=[start, end, step] gives a grid whose first cell starts at start, whose '
  'cells are step wide and contiguous, and whose points are the cell mid-points; start=end or a step covering the '
  'range gives one cell, omitted start or end default to the extent of the data, and coordinates not mentioned (or '
  'named without a grid) are collapsed to a single cell whose bounds are the minimum and maximum of the data and whose '
  'point is the middle. Date limits and time-delta steps mean the same in the units of the time coordinate. Unknown '
  'coordinates are refused.',
  'inputs', 'all starts, ends, steps and coordinate values within the stated number of cells',
  'Tests fix one grid per coordinate; fractional steps, single cells, defaults and dates are boundaries.',
  'cis/data_io/ungridded_data.py cis/aggregation/ungridded_aggregator.py cis/parse_datetime.py',
  [('grid construction', 'aggregate_ungridded / UngriddedAggregator._prepare_grid (grid points and bounds)')],
  [], ['UngriddedData.aggregate'])
p('C09', 'Box collocation uses exactly the data points inside every separation limit',
  'Collocating ungridded data onto ungridded or gridded samples with separation limits passes to the kernel, for every sample point, '
  'exactly the non-missing data points whose great-circle distance is at most h_sep and whose altitude difference, time '
  'difference and pressure ratio (the larger pressure over the smaller) are below a_sep, t_sep and p_sep, for whichever '
  'limits are given; none given means every data point. A sample without such points gets a missing value, as does a missing '
  'sample unless missing samples are to be used. The output lies on the sample points (for a grid: along the dimensions the '
  'data have), in their order, with the requested '
  'or the original variable names and units, for every variable of a list.',
  'inputs', 'all positions, altitudes, pressures, times, values and missing flags of data and samples, and all limits',
  'Tests use regular grids of points and one limit at a time; limits in combination, missing points on either side and '
  'points close to a limit are not sampled.',
  'cis/collocation/col_implementations.py cis/collocation/col_framework.py cis/collocation/kdtree.py '
  'cis/collocation/haversinedistancekdtreeindex.py cis/data_io/ungridded_data.py',
  [('separation limits', 'SepConstraintKdtree'), ('collocation loop', 'GeneralUngriddedCollocator.collocate'),
   ('grids', 'GeneralGriddedCollocator.collocate')],
  [('kd-tree of positions', 'candidate points by distance', 'HaversineDistanceKDTreeIndex')],
  ['UngriddedData.collocated_onto', 'UngriddedData.sampled_from'])
p('C10', 'Nearest-neighbour collocation picks a nearest point',
  'With the kernels nn_h, nn_a, nn_p and nn_t (and their long names) the value of each sample point is the value of a '
  'non-missing data point within the separation limits (if any) that no other such point beats in great-circle distance, '
  'altitude difference, pressure ratio or time difference respectively; nn_horizontal_only does the same over all data '
  'points. Samples without candidates, and missing samples unless these are to be used, get a missing value.',
  'inputs', 'all positions, altitudes, pressures, times, values and missing flags of data and samples',
  'Tests place one data point clearly nearest to each sample.',
  'cis/collocation/col_implementations.py cis/collocation/kdtree.py cis/collocation/haversinedistancekdtreeindex.py',
  [('kernels', 'nn_horizontal, nn_altitude, nn_pressure, nn_time, nn_horizontal_only'), ('distance', 'kdtree.haversine')],
  [], ['UngriddedData.collocated_onto'])
p('C35', 'MODIS level 3 grids and text files of points keep their place and time',
  'Reading a variable of MODIS level 3 files gives a grid with every stored value, unpacked as (v-offset)*scale and missing exactly where it is '
  'the fill value or not valid, at the latitude and longitude stored, and at the middle of the period which the metadata of its own file '
  'states (the bounds of the time); several files are merged in the order of time whatever their order. Only variables on the grid are offered. '
  'Reading text files of points gives a point for every line which has all of its coordinates, in the order of the files and lines, with the '
  'position, date and value of that line, missing where the value is; a line whose date cannot be read is refused. The same holds '
  'for AERONET files of all kinds, whose places may be those stated in the header of each file (at sea level for those of ships) and whose '
  'missing values are those of the kind of file; their columns are named and have the units as in the file.',
  'inputs', 'all stored values, attributes and missing fields; dates from lists',
  'The sample files of the tests are not available; no unit test reads these products.',
  'cis/data_io/products/MODIS.py cis/data_io/products/products.py cis/data_io/hdf.py cis/data_io/hdf_sd.py cis/utils.py cis/time_util.py '
  'cis/parse_datetime.py cis/data_io/aeronet.py',
  [('grid', 'MODIS_L3._create_cube'), ('period', 'MODIS_L3._get_start_date, _get_end_date'), ('text', 'ASCII_Hyperpoints.create_coords'),
   ('AERONET', 'load_aeronet')],
  [], ['cis.read_data', 'DataReader.read_coordinates'])
p('C37', 'The great-circle index finds the nearest and exactly the in-range points',
  'For every set of points on the globe and any leaf size, the kd-tree index returns for a query a point that no other '
  'indexed point beats in great-circle distance, and for a distance r exactly (and once each) the points no farther than r '
  'from each sample, across the date line, at and across the poles, and whatever longitude convention is used.',
  'inputs', 'all positions of points and queries, all distances',
  'Tests compare a few fixed layouts; pruning of the tree goes wrong only for particular layouts.',
  'cis/collocation/kdtree.py cis/collocation/haversinedistancekdtreeindex.py',
  [('pruning bounds', 'RectangleHaversine.min_distance_rectangle, max_distance_rectangle'),
   ('search', 'HaversineDistanceKDTree._query, query_ball_tree'), ('tree', 'KDTree._build')],
  [('tree', 'partition of the points by latitude and longitude', 'KDTree._build')],
  ['HaversineDistanceKDTreeIndex.find_nearest_point', 'HaversineDistanceKDTreeIndex.find_points_within_distance_sample'])
p('C11', 'Interpolating gridded data onto points uses the surrounding grid points',
  'Collocating gridded data onto ungridded samples gives, for every sample point inside the grid, the multilinear '
  'combination of the surrounding grid values (lin, the default) or the value of the nearest grid point along every axis '
  '(nn), whatever the order and direction of the dimensions, around circular longitudes in either longitude convention, and '
  'with hybrid heights or pressures interpolated in the column at the sample position. Samples outside the grid are missing '
  'unless extrapolation is asked for, missing samples are missing unless they are to be used, and the output is on the '
  'sample points for every variable of a list, with its name and units unless others are given.',
  'inputs', 'all sample positions, grid values and missing flags, for grids of the stated shapes',
  'Tests use ascending regular grids and a few sample points; direction, dimension order, seams and hybrid columns are not '
  'combined.',
  'cis/collocation/col_implementations.py cis/collocation/gridded_interpolation.py cis/data_io/gridded_data.py',
  [('collocation', 'GriddedUngriddedCollocator.collocate'), ('interpolation', 'gridded_interpolation.GriddedUngriddedInterpolator')],
  [], ['GriddedData.collocated_onto', 'UngriddedData.sampled_from'])
p('C12', 'Binning onto a grid puts every point in the cell that contains it',
  'Collocating ungridded data onto a gridded sample with bin passes to the kernel, for each cell of the sample, exactly the '
  'non-missing data points with lower bound <= coordinate < upper bound in every coordinate the sample and the data share '
  '(longitudes modulo 360), for ascending and descending axes, given or guessed bounds and separated cells. Cells without '
  'points, and cells where the sample is missing unless missing samples are to be used, are missing; the output has the '
  'shared dimensions of the sample in its order, with the requested or the original names and units, for every '
  'variable of a list.',
  'inputs', 'all positions, values and missing flags of the data, all cell bounds and missing flags of the sample',
  'Tests bin a handful of points on ascending five by three grids with fixed bounds.',
  'cis/collocation/col_implementations.py cis/collocation/data_index.py cis/data_io/hyperpoint_view.py',
  [('collocation', 'GeneralGriddedCollocator.collocate'), ('index of cells', 'data_index.GridCellBinIndexInSlices')],
  [('sorted point slices per cell', 'the points of a cell', 'GridCellBinIndexInSlices.indices')],
  ['UngriddedData.collocated_onto', 'GriddedData.sampled_from'])
p('C14', 'Regridding gridded data onto a gridded sample interpolates along the shared axes',
  'Collocating gridded data onto a gridded sample gives a grid with the shared dimensions of the sample in the order '
  'of the sample followed by the dimensions only the data have, whose values are the linear (lin, the default) or nearest (nn) '
  'interpolation of the data along each shared dimension, whatever the direction of the axes and around circular longitudes. '
  'Points outside the data grid are missing unless extrapolation is asked for; points where the sample is missing are '
  'missing unless missing samples are to be used, provided the sample has no dimension which the data lack; names and units '
  'are the requested or the original ones; every variable of a list is treated alike.',
  'inputs', 'all sample axes, grid values and missing flags, for grids of the stated shapes',
  'Tests use small regular cubes in one order of dimensions.',
  'cis/collocation/col_implementations.py cis/data_io/gridded_data.py',
  [('collocation', 'GriddedCollocator.collocate')], [], ['GriddedData.collocated_onto', 'GriddedData.sampled_from'])
p('C15', 'Changing the longitude range of gridded data moves whole columns',
  'After set_longitude_range(start) every longitude of the gridded data lies in [start, start+360) and differs from its old '
  'value by whole turns, the axis stays monotonic in its direction, the bounds move with their points, and data values, '
  'missing flags and auxiliary coordinates along longitude stay with their longitude; everything else, and data without '
  'longitude, is unchanged. Lists of variables are all moved.',
  'inputs', 'all longitudes (within a span of less than a turn), range starts, values and missing flags',
  'Tests shift one fixed regular grid between two conventions.',
  'cis/data_io/gridded_data.py', [('shift', 'GriddedData.set_longitude_range')],
  [('cube', 'data, longitude coordinate and auxiliary coordinates', 'GriddedData')], ['GriddedData.set_longitude_range'])
p('C24', 'Reading NetCDF variables gives the physical values and the missing flags',
  'Reading an ungridded variable from NetCDF files in the CIS layout gives, for every stored value in the order of the '
  'files, stored*scale_factor+add_offset, and exactly the values equal to _FillValue or missing_value or outside of '
  'valid_min, valid_max or valid_range (in packed units; numbers stored as text count too) are missing. Every coordinate '
  'belongs to its point, points whose coordinate is missing are left out, variables in groups are found, and name and '
  'units are those of the file.',
  'inputs', 'all stored values and attribute values, for the attribute combinations listed',
  'Tests read a few fixed files, none of which combines integer packing, fill values and valid limits.',
  'cis/data_io/netcdf.py cis/data_io/ungridded_data.py cis/data_io/products/products.py',
  [('read and unpack', 'netcdf.get_data'), ('scaling', 'netcdf.apply_offset_and_scaling'), ('product', 'products.cis')],
  [], ['cis.read_data', 'DataReader.read_coordinates'])
p('C20', 'Points read from several files sit where and when their own file says',
  'Reading a variable of GASSP or NCAR-RAF files (aircraft, ship, station), of CCI level 2 files or of EarthCARE files gives every '
  'stored value of every file once, in the order of the files, with the latitude, longitude, altitude, pressure and instant which its own '
  'file states: by coordinate variables, by attributes of the station (numbers, or text starting with one; altitude 0 where none is given), by the '
  'time stamp or the units of that file, or by the reference of the product. Values along an auxiliary dimension (size bins, '
  'heights, layers, pixels) repeat the position and time of their point and have the auxiliary coordinate of their bin, and '
  'the band or class asked for in the name of an EarthCARE variable is the one read. Reading only the coordinates gives the same.',
  'inputs', 'all stored values, coordinates, times, fill values and numeric station attributes, for the layouts listed',
  'Tests read a few small files with fixed values, one layout each.',
  'cis/data_io/products/NCAR_NetCDF_RAF.py cis/data_io/products/CCI.py cis/data_io/products/EarthCARE.py cis/data_io/netcdf.py '
  'cis/data_io/Coord.py cis/utils.py cis/time_util.py',
  [('which variables are coordinates', 'NCAR_NetCDF_RAF_variable_name_selector'), ('coordinates of each file', 'NCAR_NetCDF_RAF._create_time_coord, '
    'NCAR_NetCDF_RAF._create_fixed_value_coord'), ('CCI', 'CCI_L2._create_coord_list'), ('EarthCARE', 'EarthCARE_MSI_ATL._create_coord_list')],
  [], ['cis.read_data', 'DataReader.read_coordinates'])
p('C25', 'Reading CloudSat, CALIOP and MODIS files follows the conventions of each product',
  'Reading a variable of CloudSat, CALIOP (levels 1 and 2) or MODIS level 2 HDF4 files gives every stored value once, in '
  'the order of the files, unpacked as the product says (MODIS (v-offset)*scale, CloudSat (v-offset)/factor, CALIOP '
  'v/scale+offset) and missing exactly when it equals the fill value of the product, satisfies the missing operation of '
  'CloudSat or lies outside of the valid range. Profile positions and times (seconds since 1993 turned into days since 1600) and '
  'heights are repeated so that each coordinate belongs to its point; a MODIS variable with leading dimensions is read as '
  'one dataset per index along them.',
  'inputs', 'all stored values, coordinates and attribute values, for the attribute combinations listed',
  'The files needed by the integration tests are not available; unit tests check the scaling formulas on one array.',
  'cis/data_io/hdf.py cis/data_io/hdf_sd.py cis/data_io/hdf_vd.py cis/data_io/products/caliop.py '
  'cis/data_io/products/cloudsat.py cis/data_io/products/MODIS.py cis/utils.py',
  [('unpack', 'CloudSat._get_cloudsat_sds_data'), ('unpack', 'abstract_Caliop._get_calipso_data'),
   ('unpack', 'MODIS._get_MODIS_SDS_data')], [], ['cis.read_data'])
p('C26', 'Times are converted to the same instants in standard time',
  'Converting a time coordinate to CIS standard time (days since 1600-01-01) gives the same instant for every non-missing '
  'time, whether it was seconds since a reference (of any date and time of day), a Julian date, a number in units "since" a '
  'reference, a number with a separate time stamp, or a date; missing times stay missing and dates are recovered when '
  'converting back. For gridded data this holds for dimension, auxiliary and scalar time coordinates with and without '
  'bounds, and for the time of a hyper point however it was given.',
  'inputs', 'all times and all reference instants',
  'Tests convert a few round values from midnight references.',
  'cis/time_util.py cis/data_io/Coord.py cis/data_io/hyperpoint.py',
  [('conversions', 'time_util.convert_sec_since_to_std_time'), ('gridded', 'time_util.convert_cube_time_coord_to_standard_time')],
  [], ['Coord.convert_to_std_time', 'HyperPoint.modified'])
p('C36', 'Ungridded data survives saving and reading back',
  'Saving ungridded data (one variable or a list) with save_data and reading the file back gives the same number of points with the '
  'same values, missing flags and coordinates, for every shape, whatever missing value the data declare and also when the '
  'data was read from a packed file (with scale and offset) or subset before saving. A variable which shares its name with another one or with a coordinate is saved as well, under a '
  'similar name if its values are others.',
  'histories', 'all values, coordinates and missing flags of read, subset, save and read back sequences',
  'Tests compare one file with fixed values.',
  'cis/data_io/write_netcdf.py cis/data_io/netcdf.py cis/data_io/ungridded_data.py cis/data_io/products/products.py',
  [('write', 'write_netcdf.add_data_to_file'), ('read', 'netcdf.get_data')],
  [('file', 'variables and attributes', 'write_netcdf')], ['UngriddedData.save_data', 'cis.read_data'])
p('C16', 'Changing the longitude range of points moves longitudes by whole turns only',
  'After set_longitude_range(start) every longitude of ungridded data, of a list of it, of coordinates or of a point view '
  '(gridded or not) lies in [start, start+360) and differs from its old value by whole turns. Every other coordinate, the '
  'data values, missing flags, shape and order stay, points without longitude are unchanged, and changing a view leaves '
  'the data behind it alone.',
  'inputs', 'all longitudes (several turns off too), range starts, values and missing flags',
  'Tests shift a few fixed longitudes by at most one turn.',
  'cis/data_io/ungridded_data.py cis/data_io/Coord.py cis/data_io/hyperpoint_view.py cis/utils.py',
  [('shift', 'utils.fix_longitude_range'), ('views', 'UngriddedHyperPointView.set_longitude_range')], [],
  ['UngriddedData.set_longitude_range', 'UngriddedCoordinates.set_longitude_range', 'Coord.set_longitude_range'])
p('C17', 'Points with a missing coordinate are removed consistently',
  'Ungridded data, whether made from arrays or read lazily from one or several files, and ungridded coordinates leave out '
  'exactly the points of which some coordinate is masked or NaN; all remaining points keep their value, missing flag and '
  'coordinates, and shapes, sizes, counts, flattened data and point views agree. The same holds when a coordinate gets '
  'missing values later on, whatever is called first (a copy, subset, slice or point view).',
  'histories', 'all patterns of present, NaN and masked coordinates, data values and missing flags',
  'Tests remove one point from one fixed array.',
  'cis/data_io/ungridded_data.py', [('remove', 'UngriddedData._post_process'), ('remove', 'UngriddedCoordinates._post_process')],
  [('data', 'values and coordinates, loaded on first use', 'LazyData.data')], ['UngriddedData.coords', 'UngriddedData.data'])
p('C18', 'Copies and slices have the right points and are independent',
  'Slicing ungridded data (by slices, numbers, index lists or masks), copying it, a list, a coordinate or a list of '
  'coordinates, and making new data with the same coordinates (flattened or not) gives exactly the selected points with '
  'their values, missing flags, coordinates, shapes, names and units. Changing a copy or slice never changes the original, nor the '
  'other way round; slices and copies of gridded data are gridded data with the same guarantees.',
  'inputs', 'all values, coordinates, missing flags and masks used for slicing',
  'Tests slice one fixed array and do not look for shared memory.',
  'cis/data_io/ungridded_data.py cis/data_io/Coord.py cis/data_io/gridded_data.py',
  [('slice', 'UngriddedData.__getitem__'), ('copy', 'UngriddedData.copy'), ('copy', 'CoordList.copy')], [],
  ['UngriddedData.__getitem__', 'UngriddedData.copy', 'GriddedData.copy'])
p('C23', 'Point views list every point with its coordinates and value',
  'The point views of ungridded data, ungridded coordinates and gridded data have one entry per point, in the order of the '
  'flattened data, with the coordinates of that point in latitude, longitude, altitude, pressure, time order (None where the '
  'data have none) and its value; the non-missing iterations leave out exactly the missing points and number the others by '
  'their position. Indices outside are refused, assigning to a view changes that point only, hyper_point agrees, and data '
  'built from a list of points has those points.',
  'inputs', 'all values, coordinates and missing flags, for the listed combinations of coordinates and shapes',
  'Tests use fixed data with all coordinates present.',
  'cis/data_io/hyperpoint_view.py cis/data_io/hyperpoint.py cis/data_io/ungridded_data.py cis/data_io/gridded_data.py cis/utils.py',
  [('ungridded view', 'hyperpoint_view.UngriddedHyperPointView'), ('gridded view', 'hyperpoint_view.GriddedHyperPointView')],
  [], ['get_all_points', 'get_non_masked_points', 'get_coordinates_points'])
p('C40', 'Looking up a coordinate finds the one asked for, or none',
  'coords() returns exactly the coordinates which match every given criterion (name, standard name, long name, axis, '
  'variable name, attributes, another coordinate) and coord() returns the only one, or raises CoordinateNotFoundError. A '
  'name used for subsetting, aggregation or collapsing stands for a coordinate of that name, standard name, axis or variable '
  'name, and is refused if there is none. A list of coordinates refuses a second one of the same standard name only; the '
  'standard coordinates come in the documented order.',
  'inputs', 'all combinations of names, axes and attributes of up to three coordinates',
  'Tests look up existing coordinates of one list.',
  'cis/data_io/Coord.py cis/data_io/common_data.py cis/data_io/gridded_data.py cis/subsetting/subset.py',
  [('lookup', 'CoordList.get_coords'), ('by any name', 'CommonData._get_coord')],
  [], ['UngriddedData.coord', 'UngriddedData.subset', 'GriddedData.collapsed'])
p('C19', 'Data frames made from ungridded data have the values of every point',
  'as_data_frame of ungridded data, of a list of it and of coordinates gives one row per point, in order, and one column per '
  'coordinate and variable (whether or not they have standard names) holding the coordinates and values of that point, NaN '
  'where a value is missing, and the time of the point as index (as a column when asked for), in whatever units the times '
  'are. By default changing the data frame does not change the data.',
  'inputs', 'all values, coordinates and missing flags, times from a list of instants',
  'Tests compare a few entries of fixed data.',
  'cis/data_io/ungridded_data.py', [('coordinates', 'ungridded_data._coords_as_data_frame'),
                                    ('values', 'ungridded_data._to_flat_ndarray')], [],
  ['UngriddedData.as_data_frame', 'UngriddedDataList.as_data_frame', 'UngriddedCoordinates.as_data_frame'])
p('C21', 'Arithmetic with ungridded data works point by point',
  'Adding, subtracting, multiplying and dividing ungridded data by other data, coordinates, cubes, arrays or numbers, powers '
  'and absolute values give at every point the result for that point, missing exactly where an operand is missing, with the '
  'coordinates of the data and the units which follow from the operands; in-place operations change the data accordingly '
  'and other operations leave the operands alone. Operands of other shapes, and sums in other units, are refused.',
  'inputs', 'all values and missing flags of both operands',
  'There are no tests of missing values in arithmetic or of in-place operations with masks.',
  'cis/maths.py cis/data_io/ungridded_data.py', [('binary', 'maths._binary_op_common'), ('all', 'maths._math_op_common')], [],
  ['LazyData.__add__', 'LazyData.__sub__', 'LazyData.__mul__', 'LazyData.__truediv__', 'LazyData.__pow__'])
p('C22', 'Comparison statistics use exactly the points present in both variables',
  'The statistics of two variables (gridded or not, of any shape of the same size) are computed from exactly the points '
  'which are non-missing in both: their number, both means and corrected standard deviations, mean and standard deviation of '
  'the difference and of the relative difference, and the regression line; rank correlation and regression are given exactly '
  'these points. Printed and saved results agree and the data are unchanged.',
  'inputs', 'all values and missing flags of both variables',
  'Tests use a few fixed arrays with masks.',
  'cis/stats.py cis/utils.py', [('statistics', 'stats.StatsAnalyzer')], [], ['StatsAnalyzer.analyze', 'cis stats'])
p('C33', 'Collapsing gridded data summarises exactly the valid points collapsed',
  'Collapsing any set of dimensions of gridded data (or of a list of it) gives for each remaining position the mean, minimum, '
  'maximum, sum or moments of exactly the valid values collapsed into it, missing if there are none; a mean over latitude is '
  'weighted with the areas of the cells. The other dimensions and coordinates are unchanged and in order, a collapsed '
  'coordinate is one cell spanning what was collapsed, auxiliary coordinates over several dimensions are averaged over just '
  'the dimensions which are collapsed, and hybrid levels are those of the averaged surface. Unknown coordinates are refused.',
  'inputs', 'all values and missing flags; every choice of dimensions; all layouts of auxiliary coordinates',
  'Tests collapse one mock cube whose auxiliary coordinate spans its leading dimensions.',
  'cis/aggregation/gridded_collapsor.py cis/aggregation/collapse_kernels.py cis/data_io/gridded_data.py',
  [('collapse', 'GriddedCollapsor._gridded_full_collapse'), ('kernels', 'collapse_kernels.aggregation_kernels')], [],
  ['GriddedData.collapsed', 'GriddedDataList.collapsed', 'cis collapse'])
p('C32', 'Evaluated expressions hold at every point',
  'eval gives data of the kind of its variables whose value at every point is the expression of the values of the variables '
  '(by name or alias) at that point, missing exactly where a variable used is missing, with the coordinates of that point, '
  'the name, units and attributes asked for; ungridded variables of the same size may have different shapes. Expressions '
  'which use unknown or forbidden names, or do not give an array of the shape of the variables, are refused with an error. '
  'The variables are not changed, nor by later changes to the result.',
  'inputs', 'all values, coordinates and missing flags',
  'Tests evaluate a few expressions of complete data with constant offsets.',
  'cis/evaluate.py cis/data_io/gridded_data.py cis/data_io/ungridded_data.py cis/cis_main.py',
  [('evaluation', 'evaluate.Calculator.evaluate'), ('result', 'Calculator._post_process')], [], ['Calculator.evaluate', 'cis eval'])
p('C13', 'Operations leave the data they are given unchanged',
  'Subsetting, aggregating, collocating (as data or as sample), collapsing, arithmetic, slicing, copying, saving, and making '
  'points, views or data frames leave the values, missing flags and coordinates (their values, their order and their bounds) of '
  'all data given to them as they were, apart from whole-turn shifts of longitudes (with which gridded data are rotated '
  'accordingly); and later changes to the values or coordinates of a result do not change the data it was made from.',
  'histories', 'all values and missing flags of all inputs; every operation with typical arguments, then a change of the result',
  'Tests look at results, hardly ever at the inputs afterwards.',
  'cis/subsetting/subset.py cis/aggregation/ungridded_aggregator.py cis/aggregation/gridded_collapsor.py '
  'cis/collocation/col_implementations.py cis/data_io/gridded_data.py cis/data_io/ungridded_data.py',
  [('copy before subsetting', 'UngriddedSubsetConstraint._create_data_for_subset'), ('copy before collapsing', 'GriddedCollapsor._gridded_full_collapse')],
  [], ['subset', 'aggregate', 'collocated_onto', 'collapsed', 'save_data', 'as_data_frame'])
p('C27', 'Time steps, distances and dates given as text mean what they say',
  'An ISO 8601 period (PnYnMnDTnHnMnS) is the sum of its parts (a year being 365 and a month 30 days); a separation is its '
  'number, in metres or kilometres as its units say; a partial date/time is the earliest instant it is compatible with when '
  'it begins a range and the latest when it ends one. Text which is not entirely one of these is refused, not partly read.',
  'inputs', 'all digits of every form of period, distance and date; every text of up to 4 characters',
  'Tests parse some examples of each.',
  'cis/parse_datetime.py cis/utils.py cis/parse.py',
  [('periods', 'parse_datetime.parse_datetimestr_delta_to_float_days'), ('dates', 'parse_datetime.parse_partial_datetime'),
   ('distances', 'utils.parse_distance_with_units_to_float_km')], [], ['cis subset', 'cis aggregate', 'cis col'])
p('C28', 'A gridded NetCDF variable is read as it is stored, on its own coordinates',
  'Reading a variable of one or more gridded NetCDF files (also CCI level 3 and HadGEM files), by variable, standard or long name, gives every '
  'stored value, missing where it is missing, at the coordinates which its own file states for it: files with one time each are merged in '
  'the order of time and files with several times are joined, whatever the order of the files. The time coordinate is in the standard time of '
  'CIS, and spans the period stated in the attributes of CCI files. A geopotential, geopotential height or air pressure field on the '
  'same grid (or on some of its dimensions, in any order) becomes the altitude in metres or pressure in Pa of each point; a field of another '
  'grid does not. A name which is not there or not unique is refused, and the variables offered are those on space and time only.',
  'inputs', 'all stored values, missing flags and times, for the layouts listed',
  'Tests read a few sample files and hardly look at the values.',
  'cis/data_io/products/gridded_NetCDF.py cis/data_io/products/CCI.py cis/data_io/products/HadGEM.py cis/data_io/gridded_data.py '
  'cis/time_util.py',
  [('selection and auxiliary fields', 'NetCDF_Gridded._create_cube, _add_available_aux_coords'), ('standard time', 'convert_cube_time_coord_to_standard_time'),
   ('CCI', 'Cloud_CCI_L3, Aerosol_CCI_L3 callbacks'), ('HadGEM', 'HadGEM_CONVSH._create_cube')],
  [], ['cis.read_data', 'NetCDF_Gridded.get_variable_names'])
p('C29', 'Lists, limits and grids of the command line mean what they say',
  'Lists are split at the separators outside brackets only. Subset limits (a single value being both limits) and aggregation '
  'grids are the numbers and dates given, a dimension without a grid is collapsed, decreasing or too wide longitude ranges '
  'are refused, and so is anything malformed. Data groups have the mandatory parts in order and each option with the value '
  'given; unknown, missing or additional parts are refused. Methods have just the arguments in their brackets, and each '
  'variable the alias given to it, which has to be unique.',
  'inputs', 'all digits, signs and decimals; all short texts of the characters which matter to the parser',
  'Tests parse a number of command lines.',
  'cis/parse.py cis/parse_datetime.py cis/utils.py',
  [('lists', 'parse.split_outside_brackets'), ('limits', 'parse.get_subset_limits'), ('grids', 'parse.get_aggregate_grid'),
   ('groups', 'parse.parse_colon_and_comma_separated_arguments')], [], ['cis subset', 'cis aggregate', 'cis col', 'cis plot'])
p('C34', 'Lists of data hold only data which fit together',
  'However data are put in a list of data (when making it, append, extend, +, += or insert), it ends up with data of one kind '
  'only (gridded or ungridded) whose coordinates have the same number and shapes; anything else is refused and leaves the list '
  'as it was. append_or_extend adds every element of a list. Slices and sums of lists are lists of the same kind.',
  'histories', 'all shapes of up to three coordinates of the data already there and of those added, in every way of adding them',
  'Tests append a few data of fixed shapes.',
  'cis/data_io/common_data.py cis/data_io/gridded_data.py cis/data_io/ungridded_data.py',
  [('check', 'CommonDataList.append'), ('merge', 'append_or_extend')], [], ['GriddedDataList', 'UngriddedDataList'])
p('C30', 'Output files are not overwritten unasked, and hold all of the output',
  'A command writes to the file named (with .nc, or .png for plots, added where needed) only if there is no such file, or the '
  'user said so: with --force-overwrite before or after the command, with CIS_FORCE_OVERWRITE=TRUE, or at the prompt, which '
  'names the file. It never writes over any of its input files, whatever path or link they are named by, and does not refuse '
  'otherwise. The output of collocating several data groups has the variables of all of them.',
  'histories', 'all states of the files concerned, settings and answers; all values of the collocated data',
  'Tests use one existing file and a fixed answer.',
  'cis/parse.py cis/cis_main.py cis/data_io/write_netcdf.py',
  [('output names', 'parse._validate_output_file'), ('prompt', 'parse._file_already_exists_and_no_overwrite'),
   ('inputs', 'parse._output_file_matches_an_input_file'), ('collocation', 'cis_main.col_cmd')], [], ['cis subset', 'cis col', 'cis eval', 'cis plot'])
p('C31', 'The files and variables read are exactly those named',
  'The files read are those named by the list given, in its order and without repetition: files, the files in a directory '
  '(not those below it) and the files matching a wildcard, each in the order of their names; a name which matches nothing is '
  'refused. The variables read are those named, in order, and those matching the wildcards, and each has the alias which was '
  'given for it; aliases which do not correspond to the names given are refused.',
  'inputs', 'all contents of a small tree of directories; all short names, wildcards and aliases',
  'Tests list a few of the files of the repository.',
  'cis/data_io/data_reader.py cis/__init__.py cis/parse.py',
  [('files', 'data_reader.expand_filelist'), ('variables', 'data_reader.DataReader._expand_wildcards'), ('arguments', 'parse.expand_file_list')],
  [], ['cis.read_data_list', 'cis.get_variables', 'cis subset', 'cis info'])
p('C38', 'Each file is read by the product which is meant for it',
  'A file is read by the product with the highest priority (of equal ones the first by name) of those a signature of which '
  'matches the whole of its base name, whatever the case, and which do not refuse the file; netCDF files whose attributes say '
  'so are read as CIS or RAF files, others as gridded ones. A product which was named is used whatever the file is called. '
  'If there is none that is said; abstract classes are never used; an error within a product is reported naming the product.',
  'inputs', 'all short names, signatures, priorities, attributes and answers of the products to the file; all names of the built-in forms',
  'Tests look up the names of some files for some products.',
  'cis/data_io/products/AProduct.py cis/plugin.py',
  [('ranking', 'AProduct.get_product_classes_for_file'), ('signature', 'AProduct.__get_class'), ('plugins', 'plugin.find_plugin_classes')],
  [], ['cis.read_data', 'cis info', 'cis subset'])
p('C39', 'Plots show each value at the coordinates it belongs to',
  'Whichever coordinates are on the axes (chosen by the user or by default, then along different dimensions), whatever the order of '
  'the dimensions of gridded data, a heatmap has one cell per value at its bounds; contours, lines and points have each value '
  'at its coordinates, a column being repeated only to close the globe; missing values stay missing; times are drawn at their '
  'dates; histograms count each present value (or pair) once; values are drawn against their counterparts; axes are labelled '
  'with what they show. Each data group is drawn as its own type, or that of the figure, with its own colour and label; the figure has the '
  'limits and labels given, and is saved in the file given.',
  'inputs', 'all values, missing flags, positions and bounds of small data in all orders of dimensions and choices of axes',
  'Tests compare pictures of a few files.',
  'cis/plotting/genericplot.py cis/plotting/plot.py cis/plotting/heatmap.py cis/plotting/contourplot.py cis/plotting/histogram2d.py',
  [('unpacking', 'Generic2DPlot.unpack_data_items'), ('axes', 'plot.get_axis'), ('lines', 'GenericPlot'), ('pairs', 'ComparativeScatter')],
  [], ['cis plot', 'data.plot'])

p('C41', 'Each command does to its files what its operation does, with the options given',
  'Running a cis command writes to the output file, and prints, exactly the result of its operation on the variables and files of its data groups: '
  'subset keeps the points in the limits; aggregate and collapse summarise with the kernel given (moments by default) the points of each cell or '
  'of the dimensions collapsed; col collocates each data group onto the sample with the collocator, kernel and options given, leaving out missing '
  'samples by default exactly if a sample variable is given; eval computes the expression with the names or aliases, output name, units and '
  'attributes given; stats compares the points present in both; info lists or describes the variables. A command which cannot be carried out (no data '
  'left, no grid, other kinds of data, more data groups than it takes, files or variables which do not exist, output into an input) '
  'ends with an error, without output, and the input files are left alone.',
  'inputs', 'all values, coordinates and missing flags of small files, for a list of command lines with each option',
  'The tests of whole commands need sample data and are not run; no unit test executes a command.',
  'cis/cis_main.py cis/parse.py cis/data_io/data_reader.py cis/stats.py cis/evaluate.py cis/info.py cis/aggregation/ungridded_aggregator.py',
  [('commands', 'subset_cmd, aggregate_cmd, collapse_cmd, col_cmd, evaluate_cmd, stats_cmd, info_cmd'), ('errors', 'main')],
  [], ['cis'])

p('C42', 'Operations on lists of data do to each variable what is done to one',
  'Collapsing, subsetting, interpolating, regridding, intersecting, extracting, transposing, aggregating, collocating, copying, '
  'slicing, adding, rotating the longitudes or changing the coordinates of a list of data gives, for each of its variables in order, '
  'the same values, missing flags, coordinates, names, units and attributes as doing it to that variable alone; the '
  'coordinates of the list are those of its variables and its names and files are theirs; parts, sums and copies of a list are lists of the '
  'same kind of the variables they were made of. What is refused for one variable is refused for a list.',
  'inputs', 'all values, missing flags, coordinates and limits of lists of up to three variables of small data',
  'Tests use single variables nearly everywhere; the list operations are tested for their types.',
  'cis/data_io/gridded_data.py cis/data_io/ungridded_data.py cis/data_io/common_data.py cis/collocation/col_implementations.py',
  [('gridded', 'GriddedDataList'), ('ungridded', 'UngriddedDataList'), ('both', 'CommonDataList')],
  [], ['GriddedDataList', 'UngriddedDataList'])

p('C43', 'The variables offered for files are those on the coordinates of the data',
  'The variables which cis info lists for files, and among which wildcards are looked up, are exactly those which can be read with '
  'the coordinates of the product, in any of the files: datasets of MODIS level 2 of the shape of the latitudes; of CALIOP, profiles by altitudes; of '
  'CloudSat, those of the shape of the heights and the records as many as the latitudes; of netCDF products those (also in groups) '
  'without other than spatiotemporal dimensions, or along the time of NCAR RAF; else all datasets (or records, if asked for).',
  'inputs', 'all sizes of the datasets of one or two files of a few variables, all dimensions out of a list',
  'The sample files of the tests are not available; no unit test lists the variables of these products.',
  'cis/data_io/products/MODIS.py cis/data_io/products/caliop.py cis/data_io/products/cloudsat.py cis/data_io/products/AProduct.py '
  'cis/data_io/products/NCAR_NetCDF_RAF.py cis/data_io/netcdf.py cis/data_io/hdf.py',
  [('listing', 'AProduct.get_variables, get_variable_names'), ('netCDF', 'netcdf.remove_variables_with_non_spatiotemporal_dimensions')],
  [], ['cis info', 'cis.get_variables'])
