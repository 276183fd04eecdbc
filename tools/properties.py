"""The properties, as they are written to properties.jsonl and MANIFEST.json."""

NOTE = (
    "Random search with shrinking against an independent oracle: no violation on the generated cases, "
    "which the evidence counts. "
)

PROPERTIES = [
    # Formats ----------------------------------------------------------------------------------
    dict(
        id='F01', title='A map in the gmx flow format reads back as what was written',
        statement="Reading a map that was written in the gmx flow format returns the same grid (shape, spacing, origin) "
                  "and the same values in every bin, at single precision. Bins without mass may be left out of the file, "
                  "and then read as zero at their right place. Files of other writers with any header, field order and "
                  "any selection and order of bins read just the same.",
        over=['inputs'], all="All grids from one bin, bin sizes, origins, values and selections of empty bins",
        why="The tests write and read one or two fixed grids of bins; the layout of the header and which bins are stored "
            "depend on every value.",
        files=['strata/dataformats/gmx_flow_version_1/write.py', 'strata/dataformats/gmx_flow_version_1/read.py',
               'strata/dataformats/read.py', 'strata/dataformats/write.py'],
        mechanism=[('read_data, read_header, read_values', 'strata/dataformats/gmx_flow_version_1/read.py'),
                   ('write_data, write_header', 'strata/dataformats/gmx_flow_version_1/write.py'),
                   ('guess_read_module', 'strata/dataformats/read.py')],
        observe=['values and information returned by reading', 'bytes of the written file'],
        technique='round trip and differential against an independent codec of the format',
        note=NOTE + "Trusts the codec in pbt/files.py; grids up to 9x9 bins.",
    ),
    dict(
        id='F02', title='Maps in the simple formats read back as written, and are recognised',
        statement="Reading a map that was written as simple binary or simple plain text returns the same values in every "
                  "bin (to the precision of the format) and the grid they are on, for single rows, columns and bins too. "
                  "Which of the formats a file has is recognised from its content, whatever values it begins with.",
        over=['inputs'], all="All regular grids and values, in either of the simple formats",
        why="The tests read one fixed file of each format. Recognition depends on the first bytes, the grid on all of "
            "the coordinates.",
        files=['strata/dataformats/simple/read.py', 'strata/dataformats/simple/write.py', 'strata/dataformats/read.py',
               'strata/dataformats/write.py'],
        mechanism=[('read_binsimple, read_plainsimple, calc_information', 'strata/dataformats/simple/read.py'),
                   ('write_data', 'strata/dataformats/simple/write.py'),
                   ('guess_read_module', 'strata/dataformats/read.py')],
        observe=['values and information returned by reading', 'bytes of the written file'],
        technique='round trip and differential against an independent codec of the formats',
        note=NOTE + "Trusts the codec in pbt/files.py; grids up to 9x9 bins.",
    ),
    dict(
        id='F03', title='Converting maps keeps every bin and all of its values, file by file',
        statement="Converting a series of maps gives one output map for every input map of the chosen range, under the "
                  "right number, with the same bins and the values that the target format can hold. The type "
                  "that was asked for is the type of every output file, and the inputs stay as they were.",
        over=['inputs', 'configurations'], all="All series of maps of any grids, source and target formats, begin and end",
        why="The tests convert a few fixed files and compare single ones of the formats.",
        files=['strata/convert.py', 'strata/utils.py', 'strata/dataformats/read.py', 'strata/dataformats/write.py'],
        mechanism=[('convert', 'strata/convert.py'), ('find_singles_to_singles', 'strata/utils.py'),
                   ('convert_cli', 'strata/strata.py')],
        observe=['files in the directory after the command, decoded'],
        technique='differential against an independent codec over generated series',
        note=NOTE + "For simple maps made into gmx maps the coordinates are only judged up to the half bin that "
                    "existing tests pin.",
    ),
    dict(
        id='F04', title='An incomplete map file is rejected, never read as another map',
        statement="Reading a gmx flow file that ends before all of its data does return, and fails. It never gives a map "
                  "in which the lost bins are empty. So does reading a simple binary file that ends inside of a bin, and all "
                  "commands fail on simple files whose bins do not fill a grid. No output is written for any such file.",
        over=['inputs', 'crash_points'], all="All maps and all positions at which the file is cut",
        why="No test reads an incomplete file; there is a different outcome for almost every position of the cut.",
        files=['strata/dataformats/gmx_flow_version_1/read.py', 'strata/dataformats/read.py', 'strata/dataformats/simple/read.py'],
        mechanism=[('read_data, read_header, read_values', 'strata/dataformats/gmx_flow_version_1/read.py'),
                   ('read_binsimple, read_plainsimple', 'strata/dataformats/simple/read.py')],
        observe=['exception or returned data', 'exit status and files of commands'],
        technique='generated files cut at structural and random positions',
        note=NOTE + "Positions: all field boundaries, one byte around them, and random ones.",
    ),
    dict(
        id='F05', title='Writing output never destroys a file, it is kept as a numbered backup',
        statement="When an output file already exists it is kept with its content under the first free "
                  "backup name #name.N#, and every other file stays as it is. Missing output directories are made. This "
                  "holds for any history of writes to the same names by any of the writers.",
        over=['histories'], all="All histories of writing to, adding and removing files and backups",
        why="Tests make one or two backups of one name; the guarantee is about whatever is in the directory by then.",
        files=['strata/utils.py', 'strata/dataformats/gmx_flow_version_1/write.py', 'strata/dataformats/simple/write.py',
               'strata/spreading/collect.py', 'strata/spreading/view.py'],
        mechanism=[('prepare_path', 'strata/utils.py')],
        observe=['names and contents of all files after each step'],
        technique='stateful histories of writes compared with a model of the directory',
        note=NOTE + "Runs in a scratch directory; up to 14 steps on a few names.",
    ),
    dict(
        id='F06', title='Files of a series are found, bundled and numbered as described',
        statement="The search for numbered maps of a base name returns exactly the existing files from the begin number to the "
                  "end number or the first gap, in order. Bundles are the complete consecutive (or rolling) groups "
                  "of these, each under its output number.",
        over=['inputs', 'configurations'], all="All sets of files in a directory, begin, end, bundle lengths and extensions",
        why="The tests use one list of files without gaps.",
        files=['strata/utils.py'],
        mechanism=[('find_datamap_files, find_singles_to_singles, find_groups_to_singles, gen_filenames',
                    'strata/utils.py')],
        observe=['yielded input and output paths'],
        technique='generated directories against a model of the documented search',
        note=NOTE,
    ),

    # Flow data --------------------------------------------------------------------------------
    dict(
        id='D01', title='Flow data objects keep bins intact, and copies are independent',
        statement="A flow data object holds the fields and values it was made from, bin by bin. Translating, limiting, "
                  "sorting and copying never mix values of different bins, and a copy or a derived "
                  "object shares no data or information with the one it came from.",
        over=['inputs', 'histories'], all="All sets of fields and bins, and all histories of operations on a pool of objects",
        why="The tests make single operations on one small object; sharing shows after later changes.",
        files=['droplets/flow.py'],
        mechanism=[('FlowData', 'droplets/flow.py')],
        observe=['data and information of every object of the pool after each step'],
        technique='stateful histories compared with a model',
        note=NOTE,
    ),
    dict(
        id='D02', title='Limits select exactly the bins inside of them',
        statement="Limiting flow data on any field keeps exactly the bins whose values lie within the "
                  "inclusive limits, in their order, with either side open if it is not given. Cutting a system also "
                  "gives it the shape and number of the bins that are left.",
        over=['inputs', 'configurations'], all="All data and limits: on, between and outside of values, one-sided, empty, inverted",
        why="The tests use a single set and limits between its values.",
        files=['droplets/flow.py', 'droplets/data_utils.py'],
        mechanism=[('FlowData.lims, FlowData.cut', 'droplets/flow.py'), ('get_lim_indices', 'droplets/data_utils.py')],
        observe=['selected bins, shape and count'],
        technique='differential against a direct selection of bins',
        note=NOTE,
    ),

    # Averages ---------------------------------------------------------------------------------
    dict(
        id='A01', title='Averaged maps are the weighted means of their bundle',
        statement="Every bin of an averaged map has the mean mass and number of the maps in its bundle, their temperature weighted by "
                  "number and their flow weighted by mass, and zero where there is no weight. "
                  "There is one output map for each complete (or rolling) bundle, on the same grid and in the same format, "
                  "and a bundle of one map or of equal maps is that map.",
        over=['inputs', 'configurations'], all="All series of maps with any empty bins, formats, bundle lengths, fixed or rolling",
        why="The tests average two or three maps with fixed values.",
        files=['strata/average.py', 'strata/dataformats/simple/average.py', 'strata/dataformats/gmx_flow_version_1/main.py',
               'droplets/average.py'],
        mechanism=[('average', 'strata/average.py'), ('average_data', 'strata/dataformats/simple/average.py')],
        observe=['decoded output maps', 'names of output files'],
        technique='differential against a model of the command over generated series',
        note=NOTE + "Trusts the model in pbt/avg.py.",
    ),
    dict(
        id='A02', title='Flow data on different parts of a lattice is averaged on their union',
        statement="The average of flow data sets is on the smallest grid that covers all of them, with each bin the (weighted) mean over the "
                  "data sets, in which those that do not have the bin count as zero. Empty sets count too unless they "
                  "are excluded, the inputs are unchanged, and their order does not matter. Sets that are on no common lattice are refused.",
        over=['inputs'], all="All numbers of sets with any size and offset on a common lattice, also empty ones, any weights",
        why="The tests combine two small sets in one arrangement.",
        files=['droplets/average.py'],
        mechanism=[('average_flow_data, get_combined_grid, transfer_data', 'droplets/average.py')],
        observe=['data and information of the average'],
        technique='differential against a direct mean over a dictionary of bins',
        note=NOTE,
    ),
    dict(
        id='A03', title='Combining bins conserves what is in them and where they are',
        statement="Combining a map by whole factors gives bins with the total mass and number of those they replace and with the "
                  "mean flow and temperature weighted by these, on a grid with the same lower corner and the bin size "
                  "multiplied by the factors. Only an incomplete rest at the upper sides is left out, and the order "
                  "of the input bins does not matter.",
        over=['inputs', 'configurations'], all="All maps, factors along x and y, limits and orders of bins",
        why="The tests combine one map by one factor, dividing it evenly.",
        files=['strata/average.py', 'droplets/resample.py', 'strata/dataformats/simple/average.py',
               'strata/dataformats/gmx_flow_version_1/main.py'],
        mechanism=[('combine_bins', 'strata/dataformats/simple/average.py'),
                   ('downsample_flow_data', 'droplets/resample.py')],
        observe=['combined data, shape, spacing, origin'],
        technique='differential against a direct block sum; conservation of totals',
        note=NOTE,
    ),
    dict(
        id='A04', title='Recentred maps are shifted by whole bins and cut to the common columns',
        statement="Recentring maps moves each by the whole number of bins closest to its centre of mass or chosen edge, so that these "
                  "meet, and keeps exactly the columns that all of the maps have. No value is changed, mixed or lost "
                  "inside these columns, and every written map has the shape of its data.",
        over=['inputs', 'histories'], all="All series of maps of droplets that move by any distance, and reference positions",
        why="The tests recentre two maps by fixed distances; rounding and cutting depend on all of them.",
        files=['strata/average.py'],
        mechanism=[('recenter_maps, average', 'strata/average.py')],
        observe=['recentred data and information', 'decoded output maps of the command'],
        technique='differential against shifting of arrays by whole bins',
        note=NOTE + "Positions half-way between two bins are not judged.",
    ),
    dict(
        id='A05', title='Limits and steps of an average work together on the right bins',
        statement="An average with limits on x and y has exactly the bins inside of the limits, on their part of the grid. Limits, "
                  "recentring, combination and supersampling give together what they give one after another, and "
                  "every output map has the shape, origin and spacing of its data.",
        over=['inputs', 'configurations'], all="All limits on any sides with any of the other steps",
        why="The tests use single options on one map.",
        files=['strata/average.py'],
        mechanism=[('average, cut_system, get_cut_info', 'strata/average.py'), ('average_cli', 'strata/strata.py')],
        observe=['decoded output maps'],
        technique='differential against a model of the command with random combinations of options',
        note=NOTE + "Trusts the model in pbt/avg.py.",
    ),
    dict(
        id='A06', title='Supersampling splits bins and smooths over the split ones',
        statement="Supersampling by a factor splits every bin into that number along each axis, and gives each of them the mean over "
                  "the bins closer than the factor, weighted where weights are set. The covered area and the lower "
                  "corner stay the same, a constant field stays constant, and factor 1 changes nothing.",
        over=['inputs', 'configurations'], all="All maps, factors and weights, in any order of bins",
        why="The tests supersample a map of a few bins by one factor.",
        files=['droplets/resample.py', 'strata/average.py'],
        mechanism=[('supersample_flow_data', 'droplets/resample.py')],
        observe=['supersampled data, shape, spacing', 'decoded output maps'],
        technique='differential against a direct mean over split bins',
        note=NOTE,
    ),

    # Interface search -------------------------------------------------------------------------
    dict(
        id='I01', title='The interface search returns the outermost liquid bins of every layer',
        statement="For every layer within the height limits the search returns the leftmost and rightmost bins that reach the "
                  "cutoff and have enough bins of the cutoff within the radius, and nothing for layers without any. The "
                  "result depends neither on the order of the bins nor on the labels, and the data is not changed.",
        over=['inputs', 'configurations'], all="All maps, orders of bins, cutoffs, radii, numbers of neighbours and limits",
        why="The tests search three small droplets with one or two settings.",
        files=['droplets/interface.py'],
        mechanism=[('get_interface, _cell_is_droplet, _get_indices_in_radius', 'droplets/interface.py')],
        observe=['yielded edges and heights'],
        technique='differential against an exhaustive search over all bins, permutation of bins',
        note=NOTE + "Bin sizes are dyadic when the default radius is used, where rounding would decide.",
    ),
    dict(
        id='I02', title='The periodic search returns the longest liquid stretch of every layer',
        statement="In a periodic system the search returns for every layer the first and last bin of its longest stretch of "
                  "liquid bins, also across the boundary, wherever the system begins. Rotating the "
                  "system around the box rotates the result.",
        over=['inputs', 'configurations'], all="All periodic maps, rotations, translations, orders of bins and settings",
        why="The tests search a few layers across one boundary of a system at the origin.",
        files=['droplets/interface.py'],
        mechanism=[('get_interface with pbc', 'droplets/interface.py')],
        observe=['yielded edges and heights'],
        technique='differential against all stretches of a ring of bins, rotation and translation',
        note=NOTE + "Any of several longest stretches is accepted.",
    ),
    dict(
        id='I03', title='Contact angles are those between the contact line and a height',
        statement="The contact angles are those of the straight lines from the edges of the lowest layer to the interface at the "
                  "chosen height above it, through the liquid. If there is no interface at that height no angle is returned, and no error "
                  "is raised.",
        over=['inputs', 'configurations'], all="All droplets, heights, floors and search settings",
        why="The tests measure one droplet at one height.",
        files=['droplets/interface.py'],
        mechanism=[('get_contact_angle', 'droplets/interface.py')],
        observe=['returned angles'],
        technique='differential against the angle from an exhaustive search; mirror symmetry',
        note=NOTE,
    ),
    dict(
        id='I04', title='Contact line cells are those at the edge and out to the interface',
        statement="The cells of a contact line are exactly the bins of the area which is chosen, measured from the outermost bin of the lowest "
                  "layer, within its height, together with those out to the interface of each layer. Moved to the "
                  "origin the cells keep all values and their distances, and can be moved back.",
        over=['inputs', 'configurations'], all="All droplets, areas, heights and search settings",
        why="The tests extract one area of one droplet.",
        files=['droplets/contact_line.py'],
        mechanism=[('get_contact_line_cells, adjust_cell_coordinates', 'droplets/contact_line.py')],
        observe=['extracted cells'],
        technique='differential against a direct selection of bins',
        note=NOTE,
    ),

    # Spreading --------------------------------------------------------------------------------
    dict(
        id='S01', title='Edges moving around a periodic system are followed to absolute positions',
        statement="While a droplet moves through a periodic system by less than half the box per frame, its edges are followed to "
                  "their absolute positions, through any number of crossings in both directions. The distance "
                  "between the two edges is always the true one.",
        over=['histories'], all="All histories of positions of a left and a right edge, boxes and bin sizes",
        why="The tests make single crossings from fixed states.",
        files=['strata/spreading/collect.py'],
        mechanism=[('check_and_update_periodic_info, add_pbc_multipliers_to_edges', 'strata/spreading/collect.py')],
        observe=['absolute edges after each step'],
        technique='stateful histories with known absolute positions',
        note=NOTE + "At most one edge crosses the boundary per frame, as the box is the largest distance.",
    ),
    dict(
        id='S02', title='Collected spreading has the right radius and time for every map',
        statement="Collecting the spreading of a series returns for each map from the impact on the time after it and the radius "
                  "of the droplet at the floor, half the distance between its edges, also in periodic systems. "
                  "The written file has these values and the impact time, each collection of a process is "
                  "independent of those before, and the inputs are unchanged.",
        over=['histories', 'configurations'], all="All series of droplets which approach, land and spread, formats and settings",
        why="The tests collect one fixed series; impact and boundary crossing depend on the history.",
        files=['strata/spreading/collect.py'],
        mechanism=[('collect, get_spreading_edges', 'strata/spreading/collect.py'), ('spreading_collect_cli', 'strata/strata.py')],
        observe=['returned series', 'written file'],
        technique='generated droplet histories with known edges',
        note=NOTE + "The floor is chosen strictly between layers.",
    ),
    dict(
        id='S03', title='Spreading series are read, scaled, synchronised and written without loss',
        statement="Series which are read from plain or Grace files have every time and radius of these; scaling divides times and radii by "
                  "their factors; synchronising moves each series in time so that all are closest to the radius at the same "
                  "time, the earliest at which any of them was. The written data reads back as what was drawn.",
        over=['inputs', 'configurations'], all="All sets of series, of any lengths and times, and factors",
        why="The tests handle two or three fixed series.",
        files=['strata/spreading/view.py'],
        mechanism=[('read_spreading_data, combine_spreading_data, scale_spreading_data, sync_time_at_radius, '
                    'write_spreading_data', 'strata/spreading/view.py')],
        observe=['returned tables', 'written files'],
        technique='differential against lists of pairs, round trip through files',
        note=NOTE + "Written values are compared to the precision of the file.",
    ),
    dict(
        id='S04', title='The power law fit of spreading data is that of least squares',
        statement="Fitting spreading data gives the amplitude and exponent of least squares of the logarithms of the data within "
                  "the limits, which recovers an exact power law. The fitted curve and the written file are "
                  "that power law at the times of the data within the output limits.",
        over=['inputs', 'configurations'], all="All series, limits of the fit and limits of the output",
        why="The tests fit one series of one power law.",
        files=['strata/spreading/fit.py'],
        mechanism=[('get_fitting_parameters, get_fitted_data, fit_spreading_data', 'strata/spreading/fit.py')],
        observe=['returned parameters and curves', 'written file'],
        technique='differential against closed-form least squares; recovery of exact power laws',
        note=NOTE,
    ),

    # Interfaces -------------------------------------------------------------------------------
    dict(
        id='N01', title='Collected interfaces are the edges of all layers at absolute positions',
        statement="Collecting interfaces writes for each map the left and right edges of all layers of the droplet at "
                  "their heights, followed through any crossings of the periodic boundary from the first map "
                  "on, whichever layers come and go in between. Recentring moves each interface as a whole "
                  "to the chosen reference.",
        over=['histories', 'configurations'], all="All histories of droplets in a periodic system and settings",
        why="The tests track single edges and a droplet of fixed layers.",
        files=['strata/interface/collect.py', 'strata/spreading/collect.py', 'droplets/interface.py'],
        mechanism=[('collect_interfaces, get_interface_coordinates, transfer_values, update_interface_with_pbc_info',
                    'strata/interface/collect.py')],
        observe=['written interface files'],
        technique='generated droplet histories with known absolute edges',
        note=NOTE,
    ),
    dict(
        id='N02', title='Averaged interfaces are the mean edges of layers in common',
        statement="Averaging interfaces gives for every complete bundle the mean left and right edges at the heights which all of its "
                  "interfaces have, as one line up the left side and down the right. Files which can not be read are left out, "
                  "and the saved file has the averaged lines.",
        over=['inputs', 'configurations'], all="All series of interfaces of any heights and bundle lengths",
        why="The tests average two or three interfaces of a few layers.",
        files=['strata/interface/view.py'],
        mechanism=[('view_interfaces, average_interfaces, combine_interfaces', 'strata/interface/view.py')],
        observe=['returned and saved interfaces'],
        technique='differential against means over a dictionary of heights',
        note=NOTE,
    ),
    dict(
        id='N03', title='Areas and lengths of interfaces are those of their polygons',
        statement="The area of an interface is that of the polygon between its edges, its length that of the line along it, "
                  "whatever the shape. Neither changes when it moves or is mirrored, and a "
                  "series has one value per interface at the right time.",
        over=['inputs'], all="All interfaces and series of them",
        why="The tests compute one or two fixed shapes.",
        files=['strata/interface/sample.py'],
        mechanism=[('get_area_of_interface, calc_length, sample_interfaces', 'strata/interface/sample.py')],
        observe=['returned values', 'written file'],
        technique='differential against the shoelace formula; translation, scaling, mirroring',
        note=NOTE,
    ),
    dict(
        id='N04', title='Contact angles of interfaces are measured on the right side and height',
        statement="The contact angles of collected interfaces are those of the lines from the lowest layer to the one at the chosen height, "
                  "on the left and on the right side, and mirrored interfaces have them swapped. Fitted to a "
                  "circular segment, the angle of the segment is recovered.",
        over=['inputs', 'configurations'], all="All series of interfaces and heights, and all circular segments",
        why="The tests measure a few fixed edges.",
        files=['strata/interface/angle.py'],
        mechanism=[('interface_contact_angle, measure_angle, fit_angle_from_segment', 'strata/interface/angle.py')],
        observe=['returned angles and times', 'written file'],
        technique='differential against direct trigonometry, recovery of known segments, mirroring',
        note=NOTE,
    ),

    # Sampling ---------------------------------------------------------------------------------
    dict(
        id='M01', title='Samples of a series are the mean or sum over the selected bins',
        statement="Sampling a label over a series of maps gives for each map the mean and standard deviation, or the sum, over exactly the "
                  "bins inside the limits which reach the cutoff of the cutoff label, at the times of the maps. "
                  "Several labels give what each gives alone, and the written file has the returned values. "
                  "A sum of angles, or a label that is not in the map, is refused with a message and without writing samples.",
        over=['inputs', 'configurations'], all="All series of maps, labels, limits, cutoffs and processes",
        why="The tests sample a single file with one setting.",
        files=['strata/sample_average.py', 'droplets/sample.py'],
        mechanism=[('sample_average_files, sample_value', 'strata/sample_average.py'), ('sample_average_cli', 'strata/strata.py')],
        observe=['returned times and values', 'written file'],
        technique='differential against direct statistics over generated series',
        note=NOTE,
    ),
    dict(
        id='M02', title='The viscous dissipation is that of the gradients of the flow',
        statement="The viscous dissipation of a map is the dissipation function of the second-order gradients of its flow "
                  "along the right axes with the right bin sizes, bin by bin. It is exact for quadratic flow, zero "
                  "for rigid translation and rotation, proportional to the viscosity, and does not depend "
                  "on the order of the bins or the origin.",
        over=['inputs'], all="All flow fields on grids of at least three bins per axis, orders of bins and viscosities",
        why="The tests compute one field on one grid.",
        files=['droplets/sample.py'],
        mechanism=[('sample_viscous_dissipation', 'droplets/sample.py')],
        observe=['returned dissipation with the sorted data'],
        technique='analytic quadratic flows, differential against finite differences, metamorphic relations',
        note=NOTE,
    ),
    dict(
        id='M03', title='Samples per angle average exactly the bins of each interval and radius',
        statement="Sampling by angle around a point gives for each interval of angles the (weighted) mean of the bins whose "
                  "direction from the point is in it and whose distance is within the radii, counter-clockwise "
                  "from the x axis over the whole circle, and zero for intervals without bins or weight.",
        over=['inputs', 'configurations'], all="All maps, points, intervals, angles, radii and weights",
        why="The tests sample one grid around one point.",
        files=['droplets/sample.py'],
        mechanism=[('sample_per_angle_from', 'droplets/sample.py')],
        observe=['returned angles and values'],
        technique='differential against a direct assignment of bins to intervals',
        note=NOTE + "Bins within 1e-5 degrees below the edge of an interval are not generated.",
    ),
    dict(
        id='M04', title='Centre of mass, inertial energy and flow angle follow their definitions',
        statement="The centre of mass is the mean position weighted by mass, the inertial energy of a bin half its mass times its speed "
                  "squared, and the flow angle the direction of the (weighted total) flow in degrees. None of these "
                  "changes the data, depends on the order of bins or breaks the symmetries of its definition.",
        over=['inputs'], all="All maps, labels and weights",
        why="The tests compute single fixed maps.",
        files=['droplets/sample.py'],
        mechanism=[('sample_center_of_mass, sample_inertial_energy, sample_flow_angle', 'droplets/sample.py')],
        observe=['returned values'],
        technique='differential against direct sums; translation, mirroring, rotation by quarter turns',
        note=NOTE,
    ),
    dict(
        id='M05', title='The slip length is where the flow profile extrapolates to zero',
        statement="The sampled slip length is the mean over all columns of the distance below the floor at which the line of least squares of the heights against "
                  "the flow along x reaches zero flow. It recovers the slip length of any linear flow profile, whatever else "
                  "is sampled with it.",
        over=['inputs', 'configurations'], all="All flow profiles, floors, grids, formats and other labels of the same command",
        why="The tests sample a single profile.",
        files=['strata/sample_average.py'],
        mechanism=[('sample_slip_length', 'strata/sample_average.py')],
        observe=['returned values', 'written file'],
        technique='recovery of generated linear profiles, differential against closed-form least squares',
        note=NOTE,
    ),

    # Contact lines ----------------------------------------------------------------------------
    dict(
        id='L01', title='Collected contact lines are the averaged bins of both edges in place',
        statement="Collecting contact lines writes for each complete (or rolling) bundle of maps, each with a contact line, a map of the bins "
                  "at the left and right contact lines, averaged relative to the moving edges and put back at their mean position. "
                  "All averaged bins are in the output, as their mean where the edges overlap; recentring puts the edges "
                  "symmetrically around zero and fusing puts them next to each other there.",
        over=['histories', 'configurations'], all="All series of moving droplets, areas, bundle lengths and options",
        why="The tests average a single system with one area.",
        files=['strata/contact_line_analysis.py', 'droplets/contact_line.py', 'droplets/average.py'],
        mechanism=[('extract_contact_line_bins, get_averaged_contact_line_edges, combine_flow_data, fuse_edges',
                    'strata/contact_line_analysis.py')],
        observe=['decoded output maps'],
        technique='differential against a model of the extraction over generated droplet series',
        note=NOTE,
    ),
    dict(
        id='L02', title='Samples of contact lines are means over the averaged bins of both edges',
        statement="Sampling contact lines gives for each bundle of maps the mean (or total) of the samples over the averaged bins of "
                  "the left and right edge above the cutoff, with the flow along x taken radially, "
                  "at the time of the middle of the bundle. A mirrored series of droplets has the same samples. "
                  "A sum of angles, or a label that is not in the map, is refused without writing samples.",
        over=['histories', 'configurations'], all="All series of droplets, labels, areas, bundle lengths and settings",
        why="The tests do not sample contact lines.",
        files=['strata/contact_line_analysis.py', 'strata/sample_average.py'],
        mechanism=[('sample_contact_line_edges, get_averaged_contact_line_edges', 'strata/contact_line_analysis.py')],
        observe=['returned times and samples', 'written file'],
        technique='differential against a model, mirroring of the system',
        note=NOTE,
    ),

    # Views ------------------------------------------------------------------------------------
    dict(
        id='V01', title='Drawn quantities are computed from the right bins and drawn at them',
        statement="The speed, radial flow, viscous dissipation, density gradients and evaporation which views of "
                  "maps add to the data follow their definitions bin by bin, without changing other data. Height "
                  "maps, contours and flow fields draw exactly these values at the bins within limits and cutoff.",
        over=['inputs', 'configurations'], all="All maps, labels, limits and cutoffs",
        why="The tests compute single fields of one map and draw nothing.",
        files=['strata/view_flowmap.py', 'droplets/sample.py'],
        mechanism=[('add_absolute_flow, add_radial_flow, add_viscous_dissipation, add_density_gradient, add_evaporation, '
                    'get_quiver_data, height, contour', 'strata/view_flowmap.py')],
        observe=['returned data', 'arguments of the drawing calls'],
        technique='differential against direct definitions, recorded drawing calls',
        note=NOTE,
    ),
    dict(
        id='V02', title='Figures show the calculated data as it was asked for',
        statement="Figures of interfaces, of samples and angles of them, of spreading series and of fits show one line per averaged "
                  "interface, sample or series (and fit), at the calculated data, with the right legends. "
                  "Every command that draws saves its figures exactly to the asked for paths and shows them exactly when that is asked for. "
                  "Titles, labels, limits, logarithmic axes, hidden axes, colour maps, colour bars with "
                  "their labels and ticks, resolution, transparency and dimensions in pixels are those of the options.",
        over=['inputs', 'configurations'], all="All data, drawing commands and combinations of figure options",
        why="The tests draw no figures.",
        files=['strata/utils.py', 'strata/interface/view.py', 'strata/interface/sample.py', 'strata/interface/angle.py',
               'strata/spreading/view.py', 'strata/spreading/fit.py', 'strata/view_flowmap.py', 'strata/strata.py'],
        mechanism=[('decorate_graph', 'strata/utils.py'),
                   ('plot_interface_data', 'strata/interface/view.py'), ('plot_interface_area', 'strata/interface/sample.py'),
                   ('draw_figure', 'strata/interface/angle.py'), ('plot_spreading_data', 'strata/spreading/view.py'),
                   ('plot_fitting_data', 'strata/spreading/fit.py')],
        observe=['artists and settings of the figures when they are saved or shown', 'paths of saved figures'],
        technique='differential of inspected figures against models over generated data and options',
        note=NOTE,
    ),
    dict(
        id='H01', title='Text output records the input and options it was made from',
        statement="The headers of all text output name the working directory, the input (its base or all of its files) and "
                  "the values of the options which decided the data, "
                  "such as the time difference, cutoffs and limits, as they were given or as their defaults. "
                  "They also name what wrote the output and when, and the columns of its data.",
        over=['configurations'], all="All commands that write text and all values of their options",
        why="The tests read few of the headers, and with default options only.",
        files=['strata/sample_average.py', 'strata/contact_line_analysis.py', 'strata/spreading/collect.py',
               'strata/spreading/view.py', 'strata/spreading/fit.py', 'strata/interface/collect.py',
               'strata/interface/sample.py', 'strata/interface/angle.py'],
        mechanism=[('write_header, write_interface_data, write_angle_data, write_spreading_data, write_fitting_data',
                    'strata')],
        observe=['headers of written files'],
        technique='generated command lines, recorded options compared with given ones',
        note=NOTE,
    ),
    dict(
        id='C01', title='Every command completes on valid input and leaves its input as it was',
        statement="Every command of the program completes without an error on any valid series of maps or data files, with any valid "
                  "choice of options. No command changes, moves or removes its input files, writes anything but the output that was "
                  "asked for, or gives another result when it is repeated.",
        over=['inputs', 'configurations'], all="All commands, valid inputs and combinations of options",
        why="The tests do not run most of the commands, and no combinations of options.",
        files=['strata/strata.py', 'strata/average.py', 'strata/convert.py', 'strata/spreading/collect.py',
               'strata/interface/collect.py', 'strata/contact_line_analysis.py', 'strata/sample_average.py',
               'strata/view_flowmap.py'],
        mechanism=[('the command line', 'strata/strata.py')],
        observe=['exit status, exception', 'all files in the working directory before and after'],
        technique='generated command lines; unchanged inputs and equal repeated results as oracle',
        note=NOTE,
    ),
    dict(
        id='P01', title='A call does not depend on the calls that were made before it',
        statement="Every function and command which reads files gives the same result, output and figures no matter which other calls "
                  "were made before it in the same process, and also if it is the first that is imported and called in its "
                  "process. Nothing of a call stays behind for the next ones but the files it wrote: files that were replaced or "
                  "overwritten in between are read as they are now.",
        over=['histories', 'configurations'], all="All sequences of successful calls of library functions and commands",
        why="The tests import everything into one process and call each function a few times.",
        files=['strata/spreading/collect.py', 'strata/spreading/view.py', 'strata/spreading/fit.py', 'strata/utils.py',
               'strata/interface/angle.py', 'strata/view_flowmap.py', 'strata/average.py'],
        mechanism=[('static_variable, decorate_graph, write_module_header', 'strata/utils.py'),
                   ('write_spreading', 'strata/spreading/collect.py'), ('write_header', 'strata')],
        observe=['returned values', 'printed text', 'written files but for their date', 'artists of figures'],
        technique='generated sequences of calls in one process, differential against each call in a new process',
        note=NOTE + "After a call which failed, figures are not compared.",
    ),
    dict(
        id='T01', title='Progress, results and messages on the terminal are true',
        statement="Commands which go through a series print progress that counts up to the number of items (files, or bundles of "
                  "files) they work on, whatever part of the series is read. With the quiet option nothing is printed, and "
                  "results and written files are the same either way. Results which are printed (means and standard deviations "
                  "of samples, times and radii of spreading, parameters of fits) are those that are calculated, and are printed "
                  "exactly if asked for. Input files which are bad and left out, backups of earlier output, and a series "
                  "that is not there are each named in a message, and nothing else is.",
        over=['inputs', 'configurations'], all="All commands that read series, their ranges, bundles and quiet and printing options, "
                                              "and all positions of bad files",
        why="The tests run all functions with the quiet option and look at nothing that is printed.",
        files=['strata/utils.py', 'strata/average.py', 'strata/convert.py', 'strata/sample_average.py',
               'strata/spreading/collect.py', 'strata/spreading/view.py', 'strata/spreading/fit.py',
               'strata/interface/collect.py', 'strata/interface/sample.py', 'strata/interface/angle.py',
               'strata/interface/view.py', 'strata/contact_line_analysis.py', 'strata/strata.py'],
        mechanism=[('find_datamap_files, prepare_path', 'strata/utils.py'), ('sample_average_files', 'strata/sample_average.py'),
                   ('spreading_fit_cli, spreading_collect_cli', 'strata/strata.py')],
        observe=['standard output and error at the level of the file descriptors', 'returned values and files'],
        technique='generated series and options; printed text is parsed and compared with counts and values calculated apart',
        note=NOTE,
    ),
    dict(
        id='W01', title='Output that can not be written is told, and destroys nothing',
        statement="A measurement whose output file cannot be opened names it in a warning and gives the same results without it. "
                  "All other commands that cannot write fail or say so. A write that fails at any byte of the output is never "
                  "silent. Whatever fails, earlier output and all input files stay whole, under their names or as backups. Input "
                  "files which are there but cannot be read are never left out in silence.",
        over=['inputs', 'configurations', 'fault_sequences'],
        all="All commands that write, their output paths, directories without permission, full disks at all sizes of what was "
            "written, and unreadable files at all positions of a series",
        why="The tests write to directories where nothing fails.",
        files=['strata/utils.py', 'strata/average.py', 'strata/convert.py', 'strata/sample_average.py',
               'strata/spreading/collect.py', 'strata/spreading/view.py', 'strata/spreading/fit.py',
               'strata/interface/collect.py', 'strata/interface/sample.py', 'strata/interface/angle.py',
               'strata/interface/view.py', 'strata/contact_line_analysis.py', 'strata/dataformats'],
        mechanism=[('prepare_path, reset_fields_to_zero', 'strata/utils.py'), ('collect', 'strata/spreading/collect.py'),
                   ('sample_average_files', 'strata/sample_average.py'), ('sample_interfaces', 'strata/interface/sample.py')],
        observe=['bytes of all files before and after', 'printed text, raised errors and returned values'],
        technique='fault injection at generated points: denied directories, limits to the size of files, unreadable inputs; '
                  'results are compared with the same run without faults',
        note=NOTE,
    ),
    dict(
        id='E01', title='A command line does what its options say, or is refused',
        statement="Every command line does what the function of that command does with those options: in the long or the short "
                  "spelling, in any order, with `none` where it is allowed, and with the documented defaults for options that "
                  "are left out. Files and figures are the same. Values of the wrong kind or out of range, unknown options and "
                  "commands, missing arguments and files which are not there are refused with an error that names them, before "
                  "anything is written or drawn. Asking for help or the version shows them and does nothing else.",
        over=['inputs', 'configurations'],
        all="All commands, all combinations of their options and values, and all arguments that are not valid",
        why="The tests call functions; the few command lines they run use one or two options.",
        files=['strata/strata.py', 'strata/utils.py'],
        mechanism=[('strata, spreading_cli, contact_line_cli, interface_cli, view_cli', 'strata/strata.py'),
                   ('set_none_to_inf', 'strata/strata.py')],
        observe=['written files', 'recorded figures', 'exit status and printed text'],
        technique='differential: generated command lines against calls of the functions with a table of options and defaults '
                  'that was written apart from the code; faults in one argument must be refused',
        note=NOTE,
    ),
]

NOT_APPLICABLE = []
