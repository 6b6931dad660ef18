PROP = {
"C01": dict(bounded="nothing (stand-in only replays)", how="""
`mpp_compute_extent`: invariant over the block counter with ghost start/end of the next block; postconditions:
blocks non-empty, consecutive, first starts at isg, last ends at ieg; mirror symmetry as a two-state invariant.
`mpp_define_layout`: product equals the number of processors (termination measure included).  `mpp_define_domain2d`
and the queries against `mpp_compute_extent`'s contract.  Oracle: the arithmetic statement itself.  ~10 s."""),
"C02": dict(bounded="nothing (stand-in runs N processes' code with stubbed send/recv)", how="""
Message passing is ghost state: `mpp_send/recv` contracts move the sender's buffer (an uninterpreted function
of rank and index, constrained by the sender's proved postcondition) to the receiver.  Every gather/global-field
function is proved on root and non-root: value of every global point = owner's value, frame: nothing else written;
list gathers: concatenation by prefix sums (lemma by induction).  `mpp_get_shift` accepts exactly the matching sizes.  ~25 s."""),
"C03": dict(bounded="option parsing, dimension recognition, definition of pieces, put_var (whole tool on random files against an oracle)", how="""
Block arithmetic (`mpp_compute_extent`, `get_scatter_extents`, `get_scatter_extents_iolayout`, `get_num_divs`) and
the data movement (`hyperslabcopy`, 1 to 4 dimensions, every type width) are proved for all sizes; the rest of the tool
is string and NetCDF calls and is covered by the stand-in: random classic files, oracle computes each piece.  ~50 s."""),
"C04": dict(bounded="main's numbering and options, process_file's reading of attributes (whole tool on random piece sets, round trip with mppncscatter)", how="""
`process_vars` is proved per rank (1-4 dimensions) and NetCDF type, with and without a record dimension, with new or
existing buffers and with missing values: after the loops each global point that the piece covers holds the
piece's value and every other point is unchanged (frame).  `flush_decomp` writes every buffer of the block of records
once at the right start/count.  ~95 s."""),
"C05": dict(bounded="fault injection on the real tool: every n-th NetCDF call fails, files before/after compared", how="""
Ghost state: number of failed NetCDF calls, output closed, inputs removed, files created by this run.  Contracts on
`process_vars`, `flush_decomp`, `process_file`: an error in any call is in the returned count.  `main`: `unlink` requires
(all read, all written, output closed, no errors, -r and the name is one of the combined pieces) or (it is the output this run
created and no data were combined); exit 0 implies no error.  ~60 s."""),
"C06": dict(bounded="that cubic_spline's tridiagonal solution has continuous second derivative (numerical oracle); reproduction at the grid points and straight lines are proved", how="""
`nearest_index`, `linear_vertical_interp`, `cubic_spline`, `cubic_spline_sp`, `setup_vertical_interp`, `do_vertical_interp`
over the reals.  The shape-preserving bound uses a polynomial lemma (a cubic Hermite segment with limited slopes stays
between its ends), proved by nonlinear arithmetic in factored form.  Rounding is not modelled.  ~30 s."""),
"C07": dict(bounded="the value of the monotonic limiter (rank 3 neighbourhood extrema); memory safety of it is proved", how="""
`do_scalar_conserve_interp` per option combination (order 1/2, missing values, target, sum, cell measures, weights,
monotonic): ghost partial sums over the exchange cells (recursive functions data_sum(n), area_sum(n) per output cell)
are the loop invariants; postcondition: output = data_sum/area_sum as the statement says.  Constant preservation,
range and conservation follow from that formula (lemmas on the sums).  ~60 s."""),
"C08": dict(bounded="agreement with files written by an independent writer (whole read path)", how="""
Ghost file model: a variable's stored values are an uninterpreted function of (file, name, index); `nc_*` contracts
either return them or set a pending error, and then every path must end in the error handler.  All reading functions,
the contact arithmetic and `tokenize` (string contracts, byte by byte) are proved against the statement.  ~45 s."""),
"C09": dict(bounded="agreement with files written and read by an independent NetCDF-3 implementation", how="""
All 44 functions of mpp_io.c.  NetCDF calls are contracts over ghost state: each either does what it is asked (and is
counted) or sets a pending error; every path with a pending error must end in the error handler, every path without one must
return.  Argument specifications (file id, variable id, name, buffer, start/count) are exact, so a call on the wrong file,
variable or type fails a named `call ... requires` obligation.  The file and variable tables are proved to stay consistent.  ~27 s."""),
"C10": dict(bounded="clip_2dx2d, great-circle clipping, poly_ctrlat/ctrlon (grids up to 7x4, polygons up to 8 vertices, cells under a quarter turn)", how="""
`create_xgrid_*`: an arbitrary ghost pair of cells (i1,j1,i2,j2) is followed through all loops; the invariant says that its
record, and no other with its indices, is in the arrays at the position counted by an uninterpreted Position function as soon as
the loops have passed it, exactly when the clipping contract gives a polygon whose area ratio exceeds the threshold; the clipping
call must get exactly the four corners of the two cells moved to the same turn.  Room: no store at MAXXGRID or beyond.  `clip`:
every output vertex is in the box and on the polygon's sides, input vertices inside are kept in order.  `poly_area*`: sum over the
sides with an uninterpreted recursive sum.  `fix_lon`, `insert_vtx`, `delete_vtx`: vertex lists with ghost tags.  Oracle of the
stand-in: independent convex intersection and integrals.  ~60 s.  Observed outside the statement: great-circle clipping misses
overlaps of cells wider than 0.6 rad (its bounding box ignores that arcs bulge) and of sides that nearly coincide."""),
"C11": dict(bounded="make_solo_mosaic's main (collecting the contacts and writing the mosaic file)", how="""
`get_align_contact`, `get_overlap_contact` and their parts (`get_contact_index`, `get_overlap_index`, `*_bound`): the reported index range is the set of
boundary points of tile 1 that coincide with boundary points of tile 2, with lexicographically first and last witnesses as ghost
constants; both ends of the range are shown to match their partners in the stated order; a single shared point is no contact; the
periodic shift is the one of the axis.  The stand-in runs the functions and make_solo_mosaic on generated tile pairs whose contacts
are computed independently.  ~30 s."""),
"C12": dict(bounded="Newton's iteration for the Gaussian nodes, bipolar_dist's formula, mains of make_hgrid and make_vgrid", how="""
`compute_grid_bound`, `compute_grid_bound_legacy`, `get_legacy_grid_size` and `create_vgrid` carry contracts that give every point of
the line (partial sums over the regions as recursive ghost functions); the grid builders are verified against them with an arbitrary
ghost cell: the stored x, y, dx, dy, area and angle of that cell are the named function (spherical_dist, box_area, poly_area, tp_trans ...)
of its own points.  Trigonometric functions are uninterpreted.  The stand-in runs make_hgrid and make_vgrid on generated prescriptions
and recomputes each value in numpy.  ~90 s."""),
"C13": dict(bounded="option handling, reading and writing in make_topog's main, the list of trapezoids of the idealized world", how="""
The level functions of topog.c carry contracts over an arbitrary ghost cell of a symbolic halo grid: `remove_isolated_cells` is verified
twice (that the levels stay consistent with the depths, with quantified invariants; and that one cell is the max of the four block minima at
the moment its turn comes, the sweep being stated by ghost snapshots), `restrict_partial_cells`, `enforce_min_depth` and `filter_topo`
give the exact value of the cell, and `process_topo` is verified against these contracts with its halo filling inlined.
`create_realistic_topog` is verified in three variants (with levels, without, integer data) against contracts of the mpp reads.
The stand-in runs make_topog on generated mosaics with every option and recomputes each depth and level in numpy.  ~200 s."""),
}
CAUGHT = {"B01": "proof + input", "B02": "proof + input", "B03": "proof (bounds) + input", "B04": "proof + input", "B05": "proof + input",
"B06": "input", "B07": "proof + input", "B08": "proof + input", "B09": "proof + input", "B10": "proof + input", "B11": "proof + input", "B12": "proof + input", "B13": "proof + input", "B14": "proof + input", "B15": "proof + input", "B16": "proof + input", "B17": "proof + input", "B18": "proof + input", "B19": "proof + input", "B21": "proof + input", "B22": "proof + input", "B23": "proof + input", "B24": "proof + input"}
NOT = """
* Fortran tools (combine-restarts' Fortran parts, decompress-ncc, iceberg_comb.sh's helper, plevel, timeavg, split_ncvars, mppnccp, cr_lake_files,
  nct_nc_utils): no Fortran front end of the engine and no Fortran verifier is installed; the contract technique cannot attach.
* Shell/Python drivers: string plumbing around the tools; no verifier for sh here.
* GPU variant (src/fregrid-gpu): needs OpenACC, is not built by the baseline build.
* Floating-point accuracy of spherical geometry (areas, great-circle clipping with long double tolerances): the
  engine works over the reals without trigonometry, so "exact to rounding" cannot be expressed; the combinatorial and
  algebraic parts that do not depend on it are claimed instead.
"""
