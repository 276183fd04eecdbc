"""How each property is decided: the text of the section in DESIGN.md that make.py writes.

Per property: what decides (the oracle), how far (bounds), and what was left out of it on purpose.
"""

DECIDE = {
    'F01': dict(
        oracle="`pbt/files.py` has its own encoder and decoder of the format, made from its description (lines of text up to a null byte, "
               "then a column of values per field). `write_read` writes with the code and reads with both; `foreign_read` reads what "
               "the own encoder made; `rewrite` reads, writes and reads once more and expects the same bytes of data.",
        bounds="Grids of 1x1 to 9x9, values to 1e6, any subset of stored bins, headers padded around the 4096 byte blocks that are read.",
        left="Bins with M = 0 lose other values when written (documented by the format's filter)."),
    'F02': dict(
        oracle="The same codec for the simple formats. Recognition is judged by what is read: a binary file whose first "
               "bytes (or all of them) are text must still be read as binary, a plain text file as text.",
        bounds="Grids of 1x1 to 9x9, all float32 bit patterns whose bytes are printable are generated on purpose.",
        left="The spacing of a single row or column can not be known from its file."),
    'F03': dict(
        oracle="The set of output files is that of a model of the range; each is decoded with the codec and compared by bin with its input; "
               "inputs are compared by bytes.",
        bounds="1 to 4 maps, 3x3 formats, function and command line.",
        left="simple to gmx shifts coordinates by half a bin; existing tests pin this."),
    'F04': dict(
        oracle="Every cut of a file before its end must raise an exception (and end a command with an error and without output), never return "
               "a map.",
        bounds="Cuts at all field boundaries and one byte around, and at random positions.",
        left="Cuts of the trailing bytes which store no values are not errors."),
    'F05': dict(
        oracle="A model of the directory: name -> bytes. After each write all bytes the model knows must be found: under their name or as the "
               "first free `#name.N#`, and nothing else may have appeared.",
        bounds="Up to 14 writes, in a scratch directory that is made for the case.",
        left="Figures are saved by matplotlib and overwrite; not claimed."),
    'F06': dict(
        oracle="A model of the documented search: consecutive numbers from begin to end or the first gap, bundles, output numbers.",
        bounds="Numbers around 0, 1, 99 and 99999.", left=""),
    'D01': dict(
        oracle="A pool of objects and a pool of dictionaries of lists, on which the same operations are made. After each step all of both "
               "are compared, so that an object changed through another is seen.",
        bounds="Histories of up to 12 steps, 40 bins, 12 fields.", left="Integer fields truncate (only through the API)."),
    'D02': dict(
        oracle="A list comprehension over the bins.", bounds="Up to 64 bins; limits are often exactly on values, one-sided, inverted or zero.",
        left="The origin of a cut grid, where the limit is not at a bin edge."),
    'A01': dict(
        oracle="`pbt/avg.py`: maps as dictionaries bin -> values, averaged with plain loops (M and N as means over the bundle, T, U, V weighted).",
        bounds="1 to 6 maps, bundle lengths beyond the number of maps, rolling.", left="Bundles of mixed formats are refused."),
    'A02': dict(
        oracle="Means over a dictionary with the coordinates of bins in whole numbers of the lattice as keys.",
        bounds="Up to 5 pieces.", left="Data that is not sorted by rows."),
    'A03': dict(
        oracle="Block sums by slicing of the model's arrays, and the totals of mass and momentum are compared.",
        bounds="Factors which leave a rest too; this rest is dropped as documented.", left=""),
    'A04': dict(
        oracle="Shifts of the model's arrays by whole bins.", bounds="Up to 4 maps, shifts to the width of the map.",
        left="Positions half-way between two bins."),
    'A05': dict(
        oracle="`pbt/avg.py` composed: limits, recentring, combination and supersampling in their documented order.",
        bounds="All pairs of steps, limits outside of the system.", left=""),
    'A06': dict(
        oracle="Means over split bins with plain loops.", bounds="Factors 1 to 4.", left=""),
    'I01': dict(
        oracle="`pbt/edges.py`: exhaustive search over all pairs of bins for neighbours within the radius.",
        bounds="9x8 bins, any subset above of the cutoff, radii exactly at distances of bins (dyadic).", left="Rounding of non-dyadic default radii."),
    'I02': dict(
        oracle="All stretches of a ring of bins are listed, and the edges of any longest are accepted. Metamorphic: "
               "rotating the ring rotates the edges, moving the system moves them.",
        bounds="10x7 bins, radii below half the box.", left=""),
    'I03': dict(
        oracle="Edges from the exhaustive search, then the angle from the arctangent.", bounds="10x9 bins.", left=""),
    'I04': dict(
        oracle="Cells selected by whole-number columns from the exhaustive edges.", bounds="12x8 bins.", left=""),
    'S01': dict(
        oracle="The absolute positions are generated first, and wrapped to make the input.", bounds="40 frames, 4 to 20 columns.",
        left="Edges that move by half of the box or more."),
    'S02': dict(
        oracle="The droplets are generated as absolute columns per layer; radius, impact time and edges are known from them.",
        bounds="12 maps of 14x6 bins, through the function and the command line, two in a process.", left="A floor exactly on a layer."),
    'S03': dict(
        oracle="Series as lists of pairs; synchronisation and scaling are single additions and multiplications.",
        bounds="Up to 160 times, gaps and `nan` values.", left="A single column of a plain file has no times."),
    'S04': dict(
        oracle="Closed-form least squares of logarithms; exact power laws are recovered.",
        bounds="2 to 15 times within limits.", left="Fewer than two positive times."),
    'N01': dict(
        oracle="As S02, per layer.", bounds="8 maps; layers that come and go, on either or both sides of the boundary.",
        left="Frames with fewer than two consecutive layers."),
    'N02': dict(
        oracle="Means over a dictionary height -> edges.", bounds="6 interfaces of 7 layers.", left="Bundles without a common height."),
    'N03': dict(
        oracle="Shoelace formula and sum of distances. Metamorphic: translated, scaled, mirrored.", bounds="7 layers.", left=""),
    'N04': dict(
        oracle="Arctangent of differences; segments of a known circle; mirroring exchanges the sides.",
        bounds="Bases at any height.", left="Fits of segments that do not begin at a height of 0 (collected interfaces always do)."),
    'M01': dict(
        oracle="Selection by list comprehension, then sum or mean.", bounds="5 maps of 7x7 bins.", left=""),
    'M02': dict(
        oracle="Quadratic flow fields with known gradients (central differences are exact inside), rigid rotation dissipates nothing, "
               "and direct finite differences for random flow.", bounds="9x8 bins.", left=""),
    'M03': dict(
        oracle="Angle and distance of each bin with `math.atan2`, assigned to an interval by loops.", bounds="9x9 bins, 1 to 180 degrees.",
        left="The bin at the point itself."),
    'M04': dict(
        oracle="Sums in plain Python. Metamorphic: moving the map moves the centre, mirrors flip the angle, quarter turns turn it.",
        bounds="8x8 bins.", left=""),
    'M05': dict(
        oracle="Profiles are generated with a known slip length; random profiles against closed-form least squares.",
        bounds="7x8 bins.", left="Columns with flow that does not change."),
    'L01': dict(
        oracle="Extraction, shift and average as whole-number operations on dictionaries (`pbt/lines.py`).", bounds="5 maps of 12x7 bins.",
        left="Maps without a contact line."),
    'L02': dict(
        oracle="As L01, then the mean. Metamorphic: the mirrored system has exchanged sides and opposite U.", bounds="5 maps of 12x7 bins.",
        left="Unknown labels."),
    'V01': dict(
        oracle="matplotlib draws into recorded artists which are inspected (`pbt/figures.py`): colours, positions, limits, levels, "
               "compared with values calculated per bin.", bounds="9x8 bins.", left="What a rendered pixel looks like; cutoff of contours."),
    'V02': dict(
        oracle="As V01, with labels, scales, limits, sizes and the choice to show or to save.", bounds="Up to 5 series.", left=""),
    'H01': dict(
        oracle="Header lines are parsed and compared with the options given (or documented defaults); the version and paths too.",
        bounds="All options of the commands that write text.", left=""),
    'C01': dict(
        oracle="Exit code 0, inputs unchanged by bytes, the second run gives the same results and keeps the first as backups.",
        bounds="Histories of 5 commands, each with any of its options.", left="Options whose arguments the command refuses."),
    'P01': dict(
        oracle="Differential of the code with itself: every call is also made alone in a process forked from one that has imported "
               "nothing of the project (`pbt/alone.py`). Returned values, files, printed text and artists of figures are compared. "
               "Histories in which maps are replaced (by another format, other frames, fewer or more of them), converted in place, "
               "or made by a call and read by the next, are done in one process and with one process per call.",
        bounds="Sequences of 2 to 5 calls. About 0.1 s per call for the process.", left="Figures after a call that failed."),
    'T01': dict(
        oracle="The terminal is a pair of files behind descriptors 1 and 2. The last count of progress is compared with the number of "
               "bundles in the range, printed rows with values calculated apart, and messages with the files that were spoiled.",
        bounds="6 files, bundles of 3.", left="How the bar looks, and the wording of messages."),
    'W01': dict(
        oracle="The same call with room and permission gives the values. Faults are real: the effective user has no permission in a "
               "directory of mode 555, `RLIMIT_FSIZE` ends the disk at a generated byte, input files are made unreadable, empty or "
               "directories. The bytes of all files are compared before and after; printed text must name what failed unless an "
               "error is raised.",
        bounds="5 frames, limits of 1 to 6000 bytes.", left="Power loss (nothing is synced), devices that lie."),
    'E01': dict(
        oracle="A table of every option (spellings, values, what the function is given, default) which was written from the "
               "documentation, not from the code. The function called with those values gives the files and figures to compare "
               "with. Command lines with one fault must exit with an error that names it and leave the directory as it was.",
        bounds="Series of up to 5 files; any number of options.", left="The wording of help."),
}
