from __main__ import P
L = "lib/libfrencutils/"
ENG = "Machine integers and doubles are treated as mathematical numbers, pointer parameters as non-aliasing, malloc as succeeding; termination is not proved. "

P("C01", "Domain decomposition assigns every grid point to exactly one processor",
  "For every grid size and every number of divisions not larger than it, the computed blocks are non-empty, contiguous, in increasing order and cover every grid point exactly once, and are mirror symmetric whenever grid size and number of divisions have the same parity. The processor layout chosen for any number of processors multiplies to exactly that number, and every processor's description of a two-dimensional decomposition (own compute, data and global extents and the lists of all processors' extents) agrees with those one-dimensional blocks.",
  ["inputs", "configurations"], "all grid sizes, numbers of divisions, layouts, halo widths and processor ranks",
  "The tests run a handful of grids on one processor; the decomposition is only exercised on a few sizes and never compared point by point.",
  [L + "mpp_domain.c"],
  [("1-D block decomposition", "mpp_compute_extent"), ("layout choice", "mpp_define_layout"), ("1-D/2-D domain construction", "mpp_define_domain_1d, mpp_define_domain2d"), ("domain queries", "mpp_get_compute_domain2d, mpp_get_compute_domains2d, mpp_get_data_domain2d, mpp_get_global_domain2d")],
  note=ENG + "mpp_init/MPI supply rank and size.")

P("C02", "Gathering decomposed data loses, moves and invents nothing",
  "When a field that is distributed over processors is assembled (on the root processor or on all of them, integer, double or three-dimensional, stored with or without halo points and with either staggering), every global point receives exactly the value of a processor that owns it, nothing outside the global array is written, and processors that do not receive the result get nothing written. Gathering per-processor lists concatenates them in processor order, each element once, including processors with empty lists. Data whose size matches neither the compute nor the data domain is refused.",
  ["inputs", "configurations"], "all grid sizes, decompositions, halo widths, staggerings, roots, per-processor list lengths and values",
  "The test suite runs the tools serially, where gathering is a single local copy; no test runs a decomposed field with several processors, halos and staggering.",
  [L + "mpp_domain.c"],
  [("assembling fields", "mpp_global_field_all_double, mpp_global_field_double, mpp_global_field_int, mpp_global_field_double_3D"), ("gathering lists", "mpp_gather_field_int, mpp_gather_field_double, mpp_gather_field_int_root, mpp_gather_field_double_root"), ("size check", "mpp_get_shift")],
  note=ENG + "The message layer (mpp_send/recv/sync) is an assumed contract: a receive yields what the peer sent in the same phase; where two processors share a staggered edge point the higher rank's value is the result.")

P("C03", "Scattering a file splits it into pieces that hold exactly their block",
  "mppncscatter splits a file into nx*ny pieces (or as many as the io layout asks for). Every dimension recognised as x or y (by name on the command line, by its units or by its cartesian_axis attribute) is divided into non-empty consecutive blocks that cover it exactly once; every variable of a piece (no, one to four dimensions, with or without records, character, short, int, float or double) holds exactly the input values of that piece's block, in order, with its attributes, and the domain_decomposition attribute of each divided coordinate states the block; other dimensions are kept whole. The pieces are named and numbered as the options ask, and nothing else is written.",
  ["inputs", "configurations"], "all classic-format files with up to four dimensions per variable, division numbers not larger than the dimension, io layouts dividing them, and name options",
  "The tests scatter two files with one layout each and compare with stored output; other shapes, types, dimension orders and options are not run.",
  ["src/mpp-ncscatter/mppncscatter.c", "src/mpp-ncscatter/opt.c", "src/mpp-ncscatter/scatterdim.c"],
  [("block sizes", "mpp_compute_extent, get_scatter_extents, get_scatter_extents_iolayout, get_num_divs"), ("copying a block", "hyperslabcopy"), ("which dimensions are divided", "get_scatter_dims"), ("writing pieces", "def_dim, def_var, put_var, mppncscatter, getmnsopts")],
  note=ENG + "hyperslabcopy and the block arithmetic are proved for all inputs; the NetCDF-calling code is decided by the bounded stand-in that runs the real program on generated files.")

P("C04", "Combining pieces puts every value at its place in the whole",
  "mppnccombine writes a file whose dimensions are the full sizes recorded in the pieces and in which every variable (no to four dimensions, with or without records, any of the six classic types) holds at each point exactly the value of the piece whose domain_decomposition covers that point; points covered by no piece (only possible with -f) are zero, or the variable's missing_value with -m; variables that are not decomposed are taken from the first piece; attributes are kept except domain_decomposition and NumFilesInSet, and filename becomes the output's name. This holds for every order and number of pieces, every blocking factor (-k) and number of records, and numbered or listed inputs. Scattering a file with mppncscatter and combining the pieces gives the original values back.",
  ["inputs", "configurations"], "all sets of classic-format pieces with uneven blocks, up to four dimensions per variable, any number of records, and the options -n -e -k -m -h -64 -n4 -f",
  "The tests combine one or two sets of files and compare with a stored result; blocking factors, record counts, uneven blocks, missing pieces and most types are not run.",
  ["src/mpp-nccombine/mppnccombine.c"],
  [("placing a piece into the whole", "process_vars"), ("writing the whole", "flush_decomp"), ("reading the decomposition", "process_file"), ("numbering, blocks of records, options", "main")],
  note=ENG + "process_vars is proved for one decomposed variable of each rank and type, flush_decomp for any number; the rest of the program runs in the bounded stand-in on generated files.")

P("C05", "Combining never destroys data that was not safely combined",
  "mppnccombine removes input files only when asked with -r and only after every input was read, every variable was written and the output was closed without error, and then removes exactly the files it combined. It never overwrites or removes an existing output file (unless appending with -a), never removes or changes any other file, leaves no partial output behind when an input piece is missing or no piece is found, and exits with status 0 only if everything was combined: missing, unreadable or inconsistent pieces and failed reads, writes or closes (any number of them) give a non-zero exit status. Estimating memory (-x) writes and removes nothing.",
  ["inputs", "faults"], "all sets of pieces and options, and every read, write or close that may fail",
  "No test makes a read, write or close fail, removes a piece, or looks at which files remain.",
  ["src/mpp-nccombine/mppnccombine.c"],
  [("when inputs are removed, exit status", "main"), ("error reporting", "process_file, process_vars, flush_decomp")],
  note=ENG + "The proofs follow errors through process_vars, flush_decomp, process_file and main with ghost state and check every unlink; names of files are not modelled in the proof and are covered by the bounded stand-in, which compares the directory before and after with injected faults.")

P("C06", "One-dimensional and vertical interpolation",
  "For every increasing input grid, every output position inside it and every data column: nearest_index returns an index of the array whose element is nearest to the value; linear_vertical_interp gives the straight-line value between the two levels around each output level; cubic_spline and cubic_spline_sp reproduce the data at the grid points and join two points by a straight line; cubic_spline is the cubic spline with continuous second derivative (natural or with given end slopes); cubic_spline_sp stays between the two data around each position, so it keeps monotone data monotone. fregrid's vertical interpolation (setup_vertical_interp, do_vertical_interp) uses the first input level for output levels above the input levels, the last one for levels below, the straight-line value inside, and leaves the data alone if the levels are equal or the field has no vertical axis. None of them reads or writes outside its arrays.",
  ["inputs"], "all grids, positions and data",
  "The tests reach the splines only through a few grids and vertical interpolation through one file; flat intervals, single levels and levels outside the range are not run.",
  ["lib/libfrencutils/interp.c", "lib/libfrencutils/mosaic_util.c", "src/fre-grid/fregrid_util.c"],
  [("splines and linear interpolation", "cubic_spline, cubic_spline_sp, linear_vertical_interp"), ("lookup", "nearest_index"), ("fregrid vertical interpolation", "setup_vertical_interp, do_vertical_interp")],
  note=ENG + "Real arithmetic. That cubic_spline's second derivatives are those of the spline is decided only by the bounded stand-in (dense solve); everything else in the statement is proved.")

P("C07", "Conservative remapping applies the exchange grid exactly",
  "do_scalar_conserve_interp gives every cell of every output tile the area-weighted mean of the exchange cells that lie in it, each with its own input tile, cell, area (times the input cell's weight, and times area over cell area with cell measures) and value: the input cell's value for conserve_order1; plus the gradient times the distance for conserve_order2, without gradient where the gradient mask is set; for the monotonic option with its deviation from the input cell's value scaled down (by one factor for the whole input cell) so that it stays between the smallest and largest non-missing value of the cell and its eight neighbours. Exchange cells with missing data contribute nothing; an output cell with no contribution is missing, one whose contributions all have zero area is zero. With the sum method values are divided by the cell area and added, not averaged; with the target option the mean is scaled by the covered fraction of the output cell (not for volume fields). All levels are treated alike, tiles may differ in size, data are neither read nor written outside their arrays, and so a constant field stays constant, order 1 stays in the range of the data, and value times covered area adds up to the input integral over the exchange grid.",
  ["inputs", "configurations"], "all exchange grids, tile sizes, data, missing values, weights and options",
  "The tests compare a few fregrid outputs with stored ones; tiles of different size, weights, cell measures, sums, levels and the monotonic limiter are not run.",
  ["src/fre-grid/conserve_interp.c"],
  [("remapping", "do_scalar_conserve_interp")],
  note=ENG + "Real arithmetic. Proved for both orders with and without missing values, levels and target scaling; the monotonic limiter is decided by the bounded stand-in.")

P("C08", "Grid descriptions are read as they are written",
  "The mosaic reading functions return exactly what the files say. Exchange-grid files (read_mosaic_xgrid_size/order1/order1_region/order2): every cell, or every cell of the requested region, gets its stored indices counted from 0, its area as a fraction of the earth's surface, and its distances. Mosaic files: number of tiles and contacts (none if there is no contacts variable), model grid sizes (half the supergrid; odd sizes are refused), coordinates of the supergrid points that coincide with the requested cell position, and for every contact the numbers of exactly the tiles it names and, in stored orientation, the model cells its supergrid indices fall in; contacts that name no tile, have the wrong number of parts, are not numbers, do not cover whole model cells, or connect a point, or a line with an area, are refused, and valid ones are not. Names are split at the separators without blanks (tokenize) and files are looked for in the mosaic's directory (get_file_dir). A file, variable, dimension or attribute that cannot be read always ends the program with an error.",
  ["inputs", "faults"], "all mosaic and exchange-grid files, names, regions and contacts",
  "The tests read a handful of well-formed mosaics; similar tile names, partial regions, damaged contacts and failing reads are not run.",
  ["lib/libfrencutils/read_mosaic.c", "lib/libfrencutils/mosaic_util.c"],
  [("exchange grid", "read_mosaic_xgrid_order1, read_mosaic_xgrid_order1_region, read_mosaic_xgrid_order2"), ("contacts", "read_mosaic_contact, transfer_to_model_index, read_mosaic_ncontacts"), ("grids", "read_mosaic_grid_sizes, read_mosaic_grid_data"), ("file access", "get_var_data, get_var_data_region, get_string_data_level, get_dimlen, field_exist, get_file_dir"), ("names", "tokenize")],
  note=ENG + "All functions named are proved; strings are compared through an assumed contract of strcmp and numbers are parsed by an assumed contract of atoi; the stand-in runs the real functions on generated files.")

P("C09", "The NetCDF layer passes data, names and errors through unchanged",
  "All tools read and write NetCDF through mpp_io. For every sequence of calls: an id returned by mpp_open, mpp_get_varid or mpp_def_var keeps referring to exactly the file or variable it was given for, however many others are used (a file opened again for reading keeps its id, no two share one); values (char, short, int, float, double; whole variables or blocks) and attributes are read, written and copied unchanged and as the type of the variable; queries (names, sizes, types, dimensions, numbers and names of attributes, axis letter, bounds name, record dimension, existence, great circle attribute) answer what the file says, for variables with up to five dimensions, names up to 127 characters and attributes of any length the caller has room for; new files get the format asked for, the name with .nc added where it is missing, and compression settings as asked or as in the input; only the root processor writes. Invalid ids, unsupported types, unknown formats and files opened or created twice are refused, and every failed NetCDF call (except in queries for existence and optional attributes) ends the program with an error; nothing else does.",
  ["inputs", "histories", "faults"], "all files, names, types and sequences of calls, and every NetCDF call that may fail",
  "The tests use the layer through a few tools on well-formed files; long names, five dimensions, similar names, short and char data and failing calls are not run.",
  [L + "mpp_io.c"],
  [("files", "mpp_open, mpp_close, set_in_format, mpp_file_exist"), ("variables", "mpp_get_varid, mpp_def_var"), ("data", "mpp_get_var_value, mpp_get_var_value_block, mpp_put_var_value, mpp_put_var_value_block, mpp_copy_data"), ("attributes", "mpp_get_var_att, mpp_get_var_att_double, mpp_get_global_att, mpp_copy_var_att, mpp_copy_global_att, mpp_def_var_att"), ("compression", "mpp_set_deflation")],
  note=ENG + "Every function of mpp_io.c is proved against ghost state for the NetCDF calls; strings are compared through assumed contracts; the environment variable NC_BLKSZ is taken as unset.")

P("C10", "The exchange grid has one cell for every pair of overlapping cells",
  "For grids whose cells are convex, run counter-clockwise, are narrower than a quarter of a turn and have longitudes within one turn of the other grid: create_xgrid_1dx2d_order1/2, 2dx1d_order1/2, 2dx2d_order1/2 and create_xgrid_great_circle record, for every source cell whose mask is above 0.5 and every destination cell, exactly one exchange cell when their intersection has at least three vertices and an area above the relative threshold, and none otherwise; the record carries that pair's source and destination indices and its area (times the source mask where the function applies it) and, in second order, its own centroid integrals; the count returned is the number of records, and the arrays are never written beyond MAXXGRID elements: more cells than that end the run with an error. clip returns the part of the polygon inside the box, in order, or nothing when they do not meet; get_grid_area and its variants give every cell the area of its own four corners; poly_area sums every side of the polygon exactly once with its own latitudes and longitude difference, taken the short way round; fix_lon inserts the pole vertices, removes repeated ones and keeps every other vertex in order, moved by whole turns so that no side crosses more than half a turn.",
  ["inputs", "configurations"], "all pairs of grids, masks, sizes and vertex positions",
  "The tests compare whole fregrid or mosaic outputs with stored ones to a tolerance; partial masks, tiny overlaps, cells at the poles or the seam and full arrays are not run.",
  [L + "create_xgrid.c", L + "mosaic_util.c"],
  [("exchange grids", "create_xgrid_1dx2d_order1, create_xgrid_2dx1d_order1, create_xgrid_2dx2d_order1, create_xgrid_2dx2d_order2, create_xgrid_great_circle"), ("clipping and areas", "clip, get_grid_area, poly_area_main, fix_lon")],
  note=ENG + "Real arithmetic. Clipping in two curvilinear grids and on great circles, and the centroid integrals, are assumed contracts in the proof of the record keeping and are decided by the bounded stand-in against an independent intersection (great circles: cells under half a radian whose sides do not nearly coincide).")

P("C11", "Contacts between tiles are where their boundaries coincide",
  "For all tiles: get_align_contact lists, in the documented order, one contact for each of the eight pairs of sides (east-west, east-south, south-north, south-east, west-east, west-north, north-south, north-west; only the first and third within one tile) whose boundaries coincide in at least two points, modulo the periods where they apply, and one for a folded north boundary exactly when every point of it has its mirror image in the other half; each contact gives the cells of each tile from the first to the last coincident point, in the direction in which they run. get_overlap_contact gives a contact exactly when all four corners of one tile are points of the other without rotation, with the cells covered in each. make_solo_mosaic writes every contact of every pair of tiles with the names of its own two tiles, and the tile names, files and directory it was given.",
  ["inputs", "configurations"], "all tiles, sizes, periods and orientations",
  "The tests build a cubed sphere and a few single tiles; turned, nested, doubly periodic and partly touching tiles are not run.",
  ["src/make-solo-mosaic/get_contact.c", "src/make-solo-mosaic/make_solo_mosaic.c"],
  [("contacts", "get_align_contact, get_contact_index, get_overlap_contact"), ("mosaic file", "main")],
  note=ENG + "Real arithmetic. get_contact.c is proved completely; the collecting and writing in make_solo_mosaic's main is decided by the bounded stand-in, which runs the tool.")

P("C12", "Generated grids follow their prescription",
  "For every number of regions (each at least a cell wide), bounds, cell counts or resolutions and centering: compute_grid_bound makes a line whose number of cells is the sum over the regions, with every bound a grid line at its place (centering none and t_cell) or both ends at the outer bounds (c_cell), cell centres midway between their sides (t_cell) or sides midway between centres (c_cell), and refuses counts that do not divide; compute_grid_bound_legacy makes a line that starts at the first bound and whose cells have the widths prescribed by the resolutions, the cosine between them and the stretching of the last region, with get_legacy_grid_size cells when not stretched, and refuses regions that hold no whole number of cells; create_vgrid and make_vgrid write that line. In the regular, f-plane, beta-plane, simple Cartesian and spectral grids of make_hgrid (cells narrower than half a turn) every point lies on its own two lines, and each dx, dy, area (box or great-circle, as asked) and rotation angle is the one of its own points; a tripolar grid is the regular one below the join row and its bipolar transform from the join row on, with lengths, areas and angles of its own points; a spectral grid with an even number of latitudes has meridians spaced evenly, parallels at the Gaussian nodes and cell sides at the partial sums of the weights.",
  ["inputs", "configurations"], "all prescriptions of grid lines and all cells of the grids made from them",
  "The tests make a few grids and compare them with stored ones; several regions, resolutions, stretching, great-circle areas on a tripolar grid and small or odd sizes are not run.",
  [L + "tool_util.c", "src/make-hgrid/create_lonlat_grid.c", "src/make-vgrid/create_vgrid.c", "src/make-vgrid/make_vgrid.c"],
  [("grid lines", "compute_grid_bound, compute_grid_bound_legacy, get_legacy_grid_size, create_vgrid"), ("grids", "set_regular_lonlat_grid, set_f_plane_grid, create_simple_cartesian_grid, create_spectral_grid, create_tripolar_grid, tp_trans, spherical_dist, cartesian_dist")],
  note=ENG + "Real arithmetic; sin, cos, tan and their inverses are uninterpreted functions. Decided by the bounded stand-in only: that Newton's iteration finds the Gaussian nodes, bipolar_dist's formula, option handling and writing in the mains of make_hgrid and make_vgrid.")
P("C13", "Topography respects its levels, its land mask and its prescription",
  "For every size of grid, level table (positive, increasing, each level at least as thick as the smallest partial cell allowed), source data and choice of options, in the files make_topog writes: where a vertical grid is given, num_levels is 0 on land and otherwise between 1 and the number of levels with the depth inside that bottom level (below its top, not below its bottom); a cell that is not adjusted holds its source depth, set to the level above when the partial cell would be thinner than --min_thickness and to the deepest level when it is deeper than all; --full_cell puts the depth at the bottom of its level and --flat_bottom every ocean cell at the deepest level; filling of isolated cells sets each cell in turn to the deepest of its four blocks of neighbours, with the neighbours across a cyclic or folded edge, not on the last row of a folded grid, and with --dont_change_landmask never turns ocean to land; after adjustment every bottom cell below the first level has at least the thickness its level prescribes (fraction_full_cell, or 50 m or the first level if that is 0), ocean cells have at least --kmt_min levels, and those with fewer were made land, deepened or rounded as asked. filter_topo is the 1-2-1 mean over ocean neighbours, applied the number of times asked, never moves the coast and never deepens unless asked. Land in the source is what is missing or not positive after scaling; data on the grid are copied, all others averaged over the ocean cells of all source rows that meet the grid; --fill_first_row makes the first row land. The rectangular, bowl, gaussian, box channel, dome and idealized topographies have at every cell the depth their formula prescribes at the cell centre.",
  ["inputs", "configurations"], "all grids, level tables, source fields and options of make_topog",
  "The tests make one realistic topography and compare it with a stored one; no test covers the other kinds, filtering, on-grid data, partial-cell options, edges or small grids.",
  ["src/make-topog/topog.c", "src/make-topog/make_topog.c", L + "interp.c"],
  [("levels", "process_topo, remove_isolated_cells, restrict_partial_cells, enforce_min_depth, hmin, kmin, min4/max4"), ("source", "create_realistic_topog, filter_topo"), ("shapes", "create_rectangular_topog, create_bowl_topog, create_gaussian_topog, create_idealized_topog, set_depth, create_box_channel_topog, create_dome_topog")],
  note=ENG + "Real arithmetic; exp, sin and cos are uninterpreted; conserve_interp and nearest_index by contract (C06, C07 and C01 cover them). Decided by the bounded stand-in only: option handling, reading and writing in make_topog's main, the trapezoids of the idealized world as listed.")
