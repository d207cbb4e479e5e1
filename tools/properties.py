"""The properties, with how each is decided. tools/manifest.py writes
properties.jsonl and MANIFEST.json from this file."""
ALL = []
EXACT = ("Assumes real arithmetic for floats (rounding and NaN are outside), no integer overflow, and "
         "compares the conditions of explicit stops but not those of index errors inside slices; trusts go/types, x/tools go/ssa and the analyser in gtv/. ")


def P(id, title, statement, over, q, why, files, mech, technique=None, level="translation_validation",
      note="", na=None):
    d = dict(id=id, title=title, statement=statement,
             quantifier=dict(over=over, text=q), why_tests_cant=why,
             anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech]))
    if na:
        d["not_applicable"] = na
    else:
        d["check"] = dict(technique=technique, level=level, level_note=note)
    ALL.append(d)


VG = "value-graph equivalence: SSA summarised to a normal form (loops become closed forms, arrays become functions of the index) and compared with a reference"

P("C23", "Vector operations compute their component formulas in every form",
  "Every vector operation (scale, modulus, add, periodic subtract, dot, cross, norm) returns its component-wise "
  "formula, with periodic differences in [-width/2, width/2] for points less than two box widths apart. The in-place and write-to-output forms "
  "give exactly the same result as the allocating form, including when the output is one of the operands, and no operand other than the output changes.",
  ["inputs"], "every pair of vectors, every width > 0, every legal aliasing of output and operands",
  "the existing test samples a few tetrahedra; nothing exercises aliased outputs or the periodic branch on each axis",
  ["render/geom/vec.go"], [("Vec methods and their Self/At variants", "render/geom/vec.go")],
  VG, note=EXACT + "Decided for all inputs, including the alias patterns out==v1, out==v2 and v1==v2.")

P("C34", "Cosmological densities follow the Friedmann formulas",
  "The Hubble fraction, critical density and mean matter density returned for any parameters and redshift equal the "
  "flat-universe Friedmann formulas in solar masses per cubic megaparsec.",
  ["inputs"], "every H0 > 0, OmegaM, OmegaL and z",
  "no test covers the package; a formula must hold at every redshift",
  ["cosmo/param.go", "cosmo/const.go"], [("HubbleFrac, RhoCritical, RhoAverage", "cosmo/param.go")],
  VG, note=EXACT + "Physical constants are taken from the repository's own constant table.")

P("C12", "Tetrahedron sampling places points inside with the right weights",
  "A point of the unit cube is folded into the unit tetrahedron by the volume-preserving fold (all barycentric weights "
  "nonnegative, summing to one) and mapped to the weighted mean of the four corners; drawing directly, folding first and "
  "mapping afterwards, and both output element types give the same points, for a fresh or a re-initialised tetrahedron. Random "
  "sampling uses three [0,1) numbers per point and rejects a buffer of any other length.",
  ["inputs"], "every tetrahedron, every sample point of the unit cube, every buffer length",
  "tests look at the mean of a few random samples; a wrong fold in one of its regions or a swapped corner stays inside the tetrahedron",
  ["render/geom/tetra.go"], [("Distribute, DistributeUnit, DistributeTetra, DistributeTetra64, RandomSample", "render/geom/tetra.go")],
  VG, note=EXACT + "The random generator is an uninterpreted function of its arguments.")

P("C21", "Finite differences use the right stencil at every cell",
  "GridLocation.Deriv and calc.Deriv/DerivAt give, at every cell, the second- or fourth-order finite difference along the "
  "chosen axis: centred inside, centred with wrapped neighbours at the faces of a periodic grid that spans the box, and one-sided "
  "of the same order otherwise. Each cell is written exactly once, by assignment, addition or subtraction as asked; arrays too "
  "narrow for the stencil, bad axes and bad orders are rejected.",
  ["inputs"], "every field, grid shape, axis, order, operation and periodicity",
  "the tests use one small cube and cannot see a wrong coefficient or neighbour on an axis, edge layer or operation they do not sample",
  ["render/geom/deriv.go", "math/calc/deriv.go"],
  [("GridLocation.Deriv, wrapDeriv, edgesDeriv and the two derivTakers", "render/geom/deriv.go"), ("Deriv, DerivAt", "math/calc/deriv.go")],
  VG, note=EXACT + "Input and output arrays are distinct. Array accesses out of range are not part of the comparison.")

P("C22", "Vector calculus operators combine the right partial derivatives",
  "On a grid, the gradient's i-th output is the derivative along axis i, the curl's i-th output is d_j v_k - d_k v_j for cyclic "
  "(i,j,k), and the divergence is the sum of d_i v_i; each result depends only on the inputs of that call, whatever was computed "
  "before into the same buffers, and the caller's options (operation included) come back unchanged.",
  ["inputs", "histories"], "every vector field, options value (nil included) and sequence of calls sharing buffers or options",
  "tests use one field with one set of options and fresh buffers",
  ["render/geom/deriv.go"], [("Curl, Divergence, Gradient", "render/geom/deriv.go")],
  VG, note=EXACT + "Deriv itself is an uninterpreted operation here (its stencils are C21).")

P("C24", "Tetrahedron geometry is exact and never stale",
  "Volume is |det|/6, the barycenter is the mean of the corners, and Contains accepts a point exactly when the four "
  "sub-tetrahedra have one orientation and add up to the whole volume within the stated tolerance. The values depend only on the "
  "current corners: whatever was asked before, in any order, re-initialising replaces every cached quantity.",
  ["inputs", "histories"], "every set of corners and every interleaving of Init with the queries",
  "tests query fresh tetrahedra; stale caches need a particular order of calls on a reused one",
  ["render/geom/tetra.go"], [("Tetra.Init, Volume, Barycenter, Contains and their cached fields", "render/geom/tetra.go")],
  VG, note=EXACT + "Interleavings are covered by straight-line programs of calls ending in every query; rounding is outside.")

P("C25", "Cell bounds cover their points and intersections are decided right",
  "The cell bounds of a tetrahedron run from the cell of its least coordinate to the cell of its greatest on every axis; a sheet "
  "segment's bounds do the same for the whole segment. Unbounded intersection is exactly overlap on every axis; periodic "
  "intersection accepts whenever an end of the narrower box lies in the wider one modulo the grid; grid indices and coordinates are inverse to each other, x fastest, and "
  "scaling to cell units wraps positions before the origin.",
  ["inputs"], "every box of nonnegative origin in the periodic grid, every coordinate",
  "tests sample a handful of boxes on one axis",
  ["render/geom/grid.go", "render/geom/tetra.go", "render/io/io.go"],
  [("CellBounds, Intersect, IntersectUnbounded, ScaleVecs*", "render/geom/grid.go"), ("Grid.Idx, Coords, BoundsCheck", "render/geom/grid.go"),
   ("SheetHeader.CellBounds", "render/io/io.go")],
  VG, note=EXACT)

P("C05", "No input or output error is silently lost",
  "When opening, creating, reading, writing, closing, seeking, listing or parsing fails, the program does not carry on as if it had "
  "worked: on every path on which a call returned a non-nil error, that error is returned to the caller, reported before the program "
  "stops, or deliberately answered (asking whether a file exists). No error result is dropped or overwritten before it was looked at.",
  ["fault_sequences"], "every call returning an error in every function and script, and every path on which the error is not nil",
  "tests run on a healthy file system; a disk that fills or a file that disappears hits one call site at a time",
  ["render/main/main.go", "render/io", "render/halo", "render/io/config.go", "render/scripts"],
  [("calls returning errors", "render/main/main.go, render/io/io.go, render/io/output.go, render/scripts/*.go")],
  "path-sensitive error-flow analysis over SSA (all paths on which the error is non-nil must return it, stop, or test it), with an interprocedural does-not-return analysis",
  level="other", note="Every error-returning call site of the repository is an obligation. Standard output messages and deferred Close of files opened for reading are outside.")

P("C07", "Every file opened is closed once it is finished with",
  "On every path of every function, a file that was opened is closed before the function returns, or is handed to the caller or to an "
  "owner whose own Close closes it, and is not used or closed again afterwards; a loop over thousands of files never accumulates descriptors.",
  ["histories", "fault_sequences"], "every call site that opens a file and every path after a successful open, early returns included",
  "tests open a handful of files; leaks show after thousands of segments or on an error path",
  ["render/io", "render/halo", "render/main/main.go", "render/scripts"],
  [("os.Open, os.Create, os.OpenFile call sites and their owners", "render/io/*.go, render/halo/*.go, render/main/main.go, render/scripts/*.go")],
  "open/close typestate over SSA paths, interprocedural for functions that return open files and types that own them",
  level="other", note="Paths that stop the program (log.Fatal, panic) owe nothing.")

P("C11", "The tetrahedra of a cell tile the cell for every skip",
  "The six tetrahedra a lattice cell is cut into have lattice corners, equal volume, disjoint interiors and fill the cell exactly, "
  "consistently across shared faces, so that the whole sheet is covered exactly once; this holds at every cell index of every grid and for every skip, "
  "and the corner indices stay in the cell's own corners.",
  ["inputs"], "every cell index, grid width, skip and tetrahedron direction",
  "a test samples a few indices; a wrong corner in one direction, skip or table row leaves gaps and overlaps elsewhere",
  ["render/geom/tetra.go", "render/density/density.go"],
  [("TetraIdxs, the Dirs table and the index functions", "render/geom/tetra.go")],
  VG, note=EXACT + "The corner offsets are read from the value graphs for a symbolic cell and skip, then tiled with exact integer arithmetic.")

P("C04", "A phase sheet file holds exactly the documented layout and reads back",
  "Writing a phase sheet produces the endianness flag, the header size (152), the header, the positions and the velocities, in that "
  "order, element by element and little endian, and refuses vectors whose number is not the grid's. Reading the header, the positions "
  "or the velocities of any sheet file, of either byte order, returns exactly the values stored at those offsets (Count being the cube "
  "of CountWidth), and an error or a stop when the file is short or malformed, whatever the file's contents.",
  ["inputs"], "every path, file content and length, byte order, header and vector block",
  "there is no I/O test; offsets and byte orders must be right for every file",
  ["render/io/io.go"], [("WriteSheet, ReadSheetHeaderAt, ReadSheetPositionsAt, ReadSheetVelocitiesAt", "render/io/io.go")],
  VG + "; files are modelled as functions from position to byte, and written files as sequences of encoded elements",
  note=EXACT + "Assumes a file's contents do not change while it is read, that Close and Seek succeed, and a little endian host. "
  "What a failed read leaves in the caller's buffer is not compared.")

P("C06", "Block reads and writes equal element-by-element encoding",
  "The fast block readers and writers (vectors of three floats of either width, 32 and 64 bit ids, single integers), which view Go "
  "slices as bytes and swap bytes in place, give exactly the values that decoding or encoding the block element by element in the "
  "given byte order gives, for both byte orders and every length, and report short files.",
  ["inputs"], "every file content, block length and byte order",
  "nothing tests the unsafe slice casts or the byte swaps; they must be right for every element and length",
  ["render/io/io.go"], [("readVecAsByte, readVec64AsByte, writeVecAsByte, readInt64AsByte, readInt32AsByte", "render/io/io.go")],
  VG + "; slices recast through reflect.SliceHeader are modelled as byte views of the same memory",
  note=EXACT + "Assumes a little endian host (isSysOrder itself is compared with a byte-level reference).")

P("C36", "Gadget-2 snapshots are read into the standard form",
  "Reading a Gadget-2 snapshot of either byte order returns, for every file, the dark matter particles' positions wrapped once into the box, "
  "velocities times the square root of the scale factor, and ids, for 32 and 64 bit ids and for 32 and 64 bit vector blocks (told apart "
  "by the block size), skipping the Fortran record markers; the standardised header carries the count, total count, mass, box width and cosmology.",
  ["inputs"], "every snapshot content, byte order, id size and vector block size",
  "no snapshot ships with the repository and no test reads one",
  ["render/io/io.go"], [("ReadGadgetHeader, ReadGadget, ReadGadgetParticlesAt, Standardize, WrapDistance", "render/io/io.go")],
  VG + "; files are modelled as functions from position to byte",
  note=EXACT + "The high words of the particle counts (always zero for the files handled, see known findings) are not part of the reference.")

P("C14", "Samples and workspaces land in the right pixels with the right value",
  "Each sample point adds its value to exactly one pixel of the workspace, the one whose cell holds it (coordinates relative to the segment's or "
  "the box's cells, wrapped around the simulation box), or to none when it lies outside the box or outside the projected slab; plain samples add the "
  "point value, weighted ones the value times the weight, vectors componentwise, and counts go up by one; a projection divides by the depth of the box. "
  "Adding a workspace to the box adds every workspace pixel once, at its periodic image inside the box, values and counts alike. The stated workspace "
  "size is the number of pixels used.",
  ["inputs"], "every segment and box position and size, grid size, projection axis, sample list, stride and content",
  "no test covers render; a wrong stride, wrap or axis loses or misplaces mass only for some box positions",
  ["render/box.go"], [("Interpolate, Add, BufferSize, ScaleVecs of the four overlap types", "render/box.go")],
  VG, note=EXACT + "Workspace contents are accumulated sums compared as functions of the pixel. Adding 3D segment workspaces is decided one axis at "
  "a time: that axis arbitrary, the other two fixed at a case that takes every branch.")

P("C15", "A render box covers the requested region with matching buffers",
  "A box's cells are exactly those from the cell holding its lower corner to the cell holding its upper corner on each axis; a projection drops the "
  "named axis, and only for quantities that can be projected. Its pixel buffer has one entry per cell (per cell of the image plane when projecting), "
  "for the requested quantity, with the box's own grid location. The overlap made for a sheet segment carries the segment's cells, the box's cells, "
  "the grid size, the simulation width and the axis, and uses whichever of the two grids is smaller (for projections the segment's also when the box "
  "is half the simulation wide or more).",
  ["inputs", "configurations"], "every box position and size, grid size, quantity, projection axis and sheet header",
  "no test covers render; sizes that disagree show only for some box shapes and axes",
  ["render/box.go", "render/io/io.go"], [("NewBox, box2D/box3D.Overlap, accessors", "render/box.go"), ("SheetHeader.CellBounds", "render/io/io.go")],
  VG, note=EXACT + "Density.NewBuffer is an uninterpreted function of its arguments here; C20 decides what it makes.")

P("C16", "A grid file holds the documented header and arrays and reads back",
  "Writing a buffer produces the 344 byte little endian header (endianness and version flag, header size, quantity, vector flag, cosmology, "
  "render and location blocks, in order) followed by the buffer's finished 32 bit values: one array for a scalar quantity, the x, y and z arrays "
  "one after another for a vector quantity. The header reader returns the stored header; the grid reader returns, for a scalar grid, as many "
  "values as the pixel span times over (leaving out the projected axis) and an error for vector grids and short files. The header blocks are "
  "built from the arguments: scale factor 1/(1+z), mean and critical density, projection axis X, Y, Z as 0, 1, 2 (otherwise -1), pixel and length coordinates.",
  ["inputs"], "every buffer, cosmology, box location, path and file content",
  "no test writes or reads a grid; another language parses these bytes by offset",
  ["render/io/output.go"], [("WriteBuffer, ReadGridHeader, ReadGrid, NewCosmoInfo, NewRenderInfo, NewLocationInfo, EndiannessVersionFlag", "render/io/output.go")],
  VG + "; written files are sequences of encoded elements",
  note=EXACT + "Write failures are C05. The vector case is decided for the velocity buffer; the other buffers' finished forms are C20.")

P("C19", "The table of quantities is one consistent enumeration",
  "Each of the five quantities has one name, which converts back to it and to no other; exactly the three velocity quantities require "
  "velocities; exactly density and velocity can be projected; values outside the table stop the program instead of being treated as some quantity.",
  ["inputs"], "every integer value and every string",
  "no test covers the tables; each must be total and agree with the others",
  ["render/density/quantity.go"], [("String, QuantityFromString, RequiresVelocity, CanProject", "render/density/quantity.go")],
  VG, note=EXACT)

P("C20", "Finished buffers are the totals, means and derivatives of what was added",
  "A density buffer finishes to its totals; a velocity buffer to totals over counts, zero where nothing was counted; gradient, divergence and "
  "curl buffers to the fourth order periodic derivative of those on the buffer's grid location. Each buffer offers exactly its own kind "
  "(scalar or vector) and, for velocities, its counts; clearing empties totals and counts; narrowing keeps totals and counts in step; a new "
  "buffer has the asked kind and lengths, and setting vectors or the grid location affects exactly the kinds that hold them.",
  ["inputs", "histories"], "every buffer state, quantity, length and vector list",
  "the one test in the package does not touch buffers",
  ["render/density/buffer.go"], [("NewBuffer and the five buffer types", "render/density/buffer.go")],
  VG, note=EXACT + "Gradient, Divergence and Curl are uninterpreted operations here (they are C22).")

P("C09", "The rendered result does not depend on how many workers share it",
  "Rendering a sheet file adds to each box that needs the file every cube of the segment exactly once, and to no other box "
  "anything, whatever the number of workers: each worker's share is disjoint, every share is taken, every workspace is cleared "
  "before use and added to the box once. Histogram filling splits the cubes the same way and adds every worker's histograms once.",
  ["configurations", "inputs"], "every sheet content and box state, for 1, 2, 3 and 5 workers, with and without skipping",
  "no test covers rendering, and a dropped or doubled share shows only for particular worker counts and segment widths",
  ["render/render.go", "render/hist.go"], [("RenderDensityFromFile, renderDensity worker shares", "render/render.go"), ("HistFromFile worker shares", "render/hist.go")],
  VG, note=EXACT + "Bounded: a two-cube-wide segment, 1, 2, 3 and 5 workers, two boxes. Goroutines are run to completion in the "
  "order they are started, which is exact when they share no written memory.")

P("C08", "Workers never touch the same memory at the same time",
  "While a sheet is rendered or a histogram is filled, two goroutines never use the same memory at the same time with one of them "
  "writing: every worker writes only what belongs to it, what workers share (particles, sample points, headers, grids) is not written "
  "until they are done, and the caller uses a worker's result only after that worker has reported it. Every worker that is started is "
  "waited for, and no send, receive or wait blocks for ever.",
  ["schedules", "inputs"], "every interleaving the channels and locks allow, for sheets, boxes, quantities and sample points of any content; three workers, two boxes",
  "a data race shows only under particular interleavings, corrupts a few pixels when it does, and no test starts a worker",
  ["render/render.go", "render/hist.go", "render/density/interpolator.go", "render/box.go"],
  [("RenderDensityFromFile and chanInterpolate", "render/render.go"), ("HistFromFile and chanHistogram", "render/hist.go"), ("mcarlo.Interpolate", "render/density/interpolator.go")],
  "happens-before analysis: every memory access on every path of the workers is recorded with vector clocks over an abstraction that keeps addresses and "
  "forgets values; conflicting accesses must be ordered by channels, wait groups or locks",
  level="other", note="Two start orders of the goroutines are followed, each covering every schedule with the same order of messages; "
  "addresses are exact, stored numbers are forgotten, loops of unknown length are followed for as many rounds as addresses keep changing (at most three). "
  "Generators and file readers are stand-ins that write what they are given; append is taken to make a new array; select is outside. Three workers, two sample points. "
  "Controls that share memory must be reported on every run.")

P("C13", "Each sampled tetrahedron deposits its share of the mass",
  "For every cube of its share a worker deposits each of the six tetrahedra whose corners meet the box, spread over the sample "
  "points: the value per point is the particle value times skip cubed over six over the number of points, the particle value is the "
  "number of render cells per particle, velocities and other fields are interpolated with the weights that place the point, and "
  "tetrahedra that do not meet the box deposit nothing.",
  ["inputs"], "every sheet content, box, quantity, skip and set of unit points",
  "the mass weights, corner numbering and interpolation must agree over four functions for every cube; no test runs them",
  ["render/density/interpolator.go", "render/render.go"],
  [("mcarlo Interpolate", "render/density/interpolator.go"), ("particle value and share of the cubes", "render/render.go")],
  VG, note=EXACT + "Cubes are decided one at a time and in small segments; the sampling primitives are those decided by C11, C12 and C25.")

P("C10", "Each box is given every sheet that touches it and nothing else",
  "Of the sheets offered, a manager keeps those that touch some box, in order, and for each box exactly those that touch it; an unreadable "
  "header is an error. The sample points and workspaces are large enough for the largest box and the largest overlap, and velocities have room "
  "only when the quantity uses them. Rendering takes the kept sheets once each, in order, up to the first error; a sheet's positions, and its "
  "velocities when needed, are read afresh. Before each box, every worker's workspace is cut to that overlap, put on that box's grid and emptied, "
  "the sample points cut to that box's number, and the workers start at successive cubes.",
  ["inputs", "histories"], "every set of sheets and boxes: which touch, how large the overlaps, which files cannot be read",
  "no test covers the manager; a sheet left out or a buffer sized for another box shows only for particular arrangements",
  ["render/render.go"], [("NewManager, loadFile, requiresFile, initWorkspaces, RenderDensity", "render/render.go")],
  VG, note=EXACT + "Bounded: up to three sheets, two boxes, two workers. Whether a sheet touches a box and the size of an overlap are uninterpreted "
  "here (C25, C14).")

P("C35", "Histograms count the grid's value at each sample inside the box",
  "Bins are of equal width in the quantity or its logarithm, their centres in the middle, and each accepted value is counted in the one bin it lies in, "
  "values outside in none. A sheet or a cube of particles is looked at when its periodic segment meets the box on every axis, a cube's segment being the "
  "one that holds its corners across the edge of the simulation. A tetrahedron across the edge is put together again before sampling; a sample is accepted when "
  "the box and the grid hold it, and its value is that of the grid cell that holds it. Every file is looked at, starting from empty bins; a box has the "
  "position and size it was configured with.",
  ["inputs"], "every value, limit, bin count, box, sheet, cube, tetrahedron and grid location",
  "no test covers histograms; the edges of bins, boxes and the simulation are where one comparison or wrap differs from another",
  ["render/hist.go"], [("histogram, histCenters, getDensities, gridIndex, cubeBoundingBox", "render/hist.go"), ("HistManager, HistBox", "render/hist.go")],
  VG, note=EXACT + "A cube's segment is decided one varying corner coordinate at a time (24 of them), samples for one tetrahedron of each direction.")

P("C01", "Snapshots are assembled into one grid ordered by particle id",
  "Whatever the order of the files and of the particles in them, a particle buffer writes each appended particle at the place its id names, "
  "the last one appended winning, for any buffer size and any split into calls. The grids of a snapshot hold every particle of every one of its "
  "files, with positions, velocities, mass and width in the configured units and the header of the first; their width is the cube root of the "
  "particle count. Converting a range of snapshots converts each of them from and into its own directory, up to a missing one.",
  ["inputs", "histories"], "every particle, id, file content, unit factor and iteration range; file counts and buffer sizes bounded",
  "no test covers the conversion; a particle lost at a buffer boundary or misplaced by its id shows only for particular files",
  ["render/io/io.go", "render/main/main.go"], [("ParticleBuffer", "render/io/io.go"), ("lGadget2Main, createGrids", "render/main/main.go")],
  VG, note=EXACT + "Bounded: up to three files and a few particles in each, buffers of up to three particles, ranges of up to three snapshots.")

P("C02", "The grid is cut into complete, overlapping, uniquely named segments",
  "A grid is written as the cube of the number of cells many sheets, in order, each under its own zero padded name, with the header fields its "
  "segment has; a grid that cannot be cut evenly is refused. A segment holds its own part of the grid and the first layer of the next on every axis, "
  "periodically. Its bounds hold every one of its points, periodically and in whatever order they are added; its origin lies in the simulation; its "
  "velocity bounds are the least and greatest on each axis.",
  ["inputs"], "every particle grid content and header; 2, 3 and 11 cells, every segment of a grid of four cubed",
  "no test covers the cutting; the layer shared across the periodic edge and the width of the names differ only for particular sizes",
  ["render/main/main.go"], [("writeGrids, copyToSegment, boundingBox", "render/main/main.go")],
  VG, note=EXACT + "Bounds are claimed for segments that span less than half of the simulation, as the code requires.")

P("C26", "Each mode runs with its configuration and writes what was asked",
  "The program runs exactly one mode, the one asked for, and only with a complete, valid configuration and the bounds files it needs; otherwise it "
  "stops before doing anything. Rendering and histograms take every box of every bounds file, with the pixels, particles and sample points its "
  "configuration gives, and write each under its own name with headers that describe that box, its cosmology and how it was rendered.",
  ["configurations", "inputs"], "every flag and configuration value; numbers of bounds files and boxes bounded",
  "no test covers the program itself; a box skipped, a header of another box or a mode run unvalidated needs particular configurations",
  ["render/main/main.go"], [("main, renderMain, tetraHistMain, setupIO", "render/main/main.go")],
  VG, note=EXACT + "Log and profile files are not covered. Bounded: up to two bounds files and three boxes.")

P("C28", "Configuration options are accepted exactly when usable",
  "Each option of each mode is accepted for exactly the values that can be used, defaults are the documented ones, and a box or ball is refused when "
  "its position, width or axis is missing, misplaced or too large. A ball becomes the box around it, periodically. A bounds file yields every box and "
  "ball in it, named, or an error. A subsample length is a power of two.",
  ["configurations"], "every value of every option; bounds files of up to three entries",
  "no test covers the configuration; an edge value accepted by mistake fails only much later",
  ["render/io/config.go"], [("Valid*, CheckInit, Ball.Box, ReadBoundsConfig", "render/io/config.go")],
  VG, note=EXACT + "Subsample lengths are decided for a list of values around the powers of two.")

P("C40", "Rendered mass is conserved to rounding error",
  "Summing a rendered density over all cells gives the mass of the particles to within a rounding error which does not grow beyond single precision "
  "accumulation.", ["inputs"], "every particle set and grid", "tests sample few grids and cannot bound accumulated rounding",
  ["render/density", "render/geom/tetra.go"], [("accumulation into float64/float32 cells", "render/")], None,
  na="Quantifies over accumulated floating point error of data-dependent sums of millions of terms; no sound static bound in reach is useful. "
     "Over the reals the conservation is decided by C11-C14, C20.")

P("C41", "Random and quasi-random points are uniform and independent",
  "The generators give points which are uniform in the unit cube, with period and discrepancy as documented, for every seed.",
  ["inputs"], "every seed and length of sequence", "a test samples a short prefix of a few seeds",
  ["math/rand"], [("Generator, xorshift, tausworthe, Sobol", "math/rand")], None,
  na="A statistical property of runtime sequences; static analysis cannot bound discrepancy or correlation. What the renderer does with the points is decided by C12.")

P("C42", "A render finishes within the memory and time it estimates",
  "A render needs no more memory than two sheets and one buffer for each worker, and its time grows with the number of particles in the boxes.",
  ["inputs"], "every configuration", "tests run tiny inputs", ["render/render.go", "render/main/main.go"],
  [("Manager.Load, workspaces", "render/render.go")], None,
  na="Quantifies over runtime memory and time under the garbage collector and scheduler; out of reach of a sound static argument. Sizes of the buffers are decided by C10 and C15.")

P("C43", "The research scripts and the halo package compute what they say",
  "Profiles, shell splashback fits and halo catalogues read by render/scripts and render/halo follow their documented formulas.",
  ["inputs"], "every catalogue and profile", "there are no tests of them", ["render/scripts", "render/halo"], [("scripts and halo packages", "render/scripts, render/halo")], None,
  na="These packages do not type-check at this commit (they import a module, phil-mansfield/table, that is absent), so there is no program to analyse.")

P("C17", "Linear interpolation gives the line, plane or cell through the nearest points",
  "The linear interpolators give, for every point within the table, the value on the line (bilinear, trilinear form in two and three dimensions) through "
  "the table's neighbouring points, whether the points are evenly spaced or not and whether they rise or fall; at the points themselves they give the table's "
  "values; outside the table, or for a table of the wrong size, they stop.",
  ["inputs"], "every table and every point", "there are no tests of them; a wrong cell shows only for uneven or falling tables, near the ends",
  ["math/interpolate/linear_interpolators.go", "math/interpolate/search.go"], [("Linear, BiLinear, TriLinear", "math/interpolate/linear_interpolators.go"), ("searcher", "math/interpolate/search.go")],
  VG, note=EXACT + "Even tables have any number of points; uneven ones have 3 or 4 points (2 by 3, 2 by 2 by 2), with every value symbolic.")

P("C18", "Smoothing kernels are normalised and treat the edges as asked",
  "Convolving gives at each point the sum of the coefficients times the data around it, where data beyond an end are those of the other end, the mirror "
  "image, zero or the last value, as asked. Top-hat and Gaussian kernels are the documented functions, centred, with sum one; a Savitzky-Golay kernel is the "
  "least squares fit. Kernels of even width are refused.",
  ["inputs"], "every data set at least as long as the kernel, each treatment of the edges", "tests smooth a few constant or linear sequences, which hide misplaced edges",
  ["math/interpolate/filter.go"], [("Kernel, BoundaryCondition", "math/interpolate/filter.go")],
  VG, note=EXACT + "Kernels of 3 and 5 coefficients; the Savitzky-Golay kernel of order 2 and width 5.")

P("C27", "Splines are the natural cubic spline with its derivatives and integrals",
  "A spline through a table passes through its points, is the cubic between them with continuous slope and curvature and no curvature at the ends; Deriv and "
  "Integrate are the derivative and the integral of the curve Eval gives, also against the order of the table. Points outside the table and unsorted tables stop.",
  ["inputs"], "every value of tables of two and three points, rising or falling, and every point in each interval",
  "tests compare a few splines with tables and miss intervals, falling tables and derivatives",
  ["math/interpolate/spline.go"], [("Spline, TriDiag", "math/interpolate/spline.go")],
  VG, note=EXACT + "Tables of two and three points; a tridiagonal system of two equations.")

P("C29", "Matrix operations compute products, solutions, inverses and determinants",
  "Products and transposes have the right elements and shape; a solution solves the system, an inverse is the inverse and a determinant has the right value "
  "and sign, whichever rows have to be exchanged, in double and single precision; operands of unfit shapes are refused.",
  ["inputs"], "every value of the elements, for fixed shapes and patterns of pivots", "tests use a few matrices that need few exchanges of rows",
  ["math/mat/mat.go", "math/mat/mat32.go"], [("Matrix, LUFactors", "math/mat/mat.go"), ("Matrix32, LUFactors32", "math/mat/mat32.go")],
  VG, note=EXACT + "Shapes up to 3 by 3. Elements are symbolic in 2 by 2 systems that do and do not exchange rows, in triangular and cyclic 3 by 3 systems; "
  "a dense 3 by 3 system has fixed elements and a symbolic right side.")
