package main

var props = map[string]*propDef{
	"C16": {pkgs: []string{"render/io"}, level: "translation_validation", min: 7,
		explain: "value graphs of the grid file writer and readers against the byte layout"},
	"C35": {pkgs: []string{"render"}, level: "translation_validation", min: 42, fork: true,
		explain: "value graphs of the histogram functions against their statements"},
	"C01": {pkgs: []string{"render/io", "render/main"}, level: "translation_validation", min: 13, fork: true,
		explain: "value graphs of the snapshot conversion against particles placed by their ids"},
	"C26": {pkgs: []string{"render/main"}, level: "translation_validation", min: 17, fork: true,
		explain: "value graphs of the program's modes against what their configuration asks for"},
	"C02": {pkgs: []string{"render/main"}, level: "translation_validation", min: 32, fork: true,
		explain: "value graphs of the sheet segments against the particle grid they are cut from"},
	"C28": {pkgs: []string{"render/io"}, level: "translation_validation", min: 12,
		explain: "value graphs of the configuration checks against one statement of what each option may be"},
	"C10": {pkgs: []string{"render"}, level: "translation_validation", min: 7, fork: true,
		explain: "value graphs of the render manager against one statement of the sheets a box needs"},
	"C20": {pkgs: []string{"render/density"}, level: "translation_validation", min: 16,
		explain: "value graphs of the buffers against their finished form"},
	"C19": {pkgs: []string{"render/density"}, level: "translation_validation", min: 5,
		explain: "value graphs of the quantity tables against one enumeration"},
	"C15": {pkgs: []string{"render"}, level: "translation_validation", min: 29, fork: true,
		explain: "value graphs of the render boxes against one statement of the cells a region covers"},
	"C09": {pkgs: []string{"render"}, level: "translation_validation", min: 10, fork: true,
		explain: "value graphs of rendering a sheet with several workers against one pass over its cubes"},
	"C13": {pkgs: []string{"render/density", "render"}, level: "translation_validation", min: 13, fork: true,
		explain: "value graphs of the tetrahedron sampler against one statement of what each cube deposits"},
	"C14": {pkgs: []string{"render"}, level: "translation_validation", min: 61, fork: true,
		explain: "value graphs of the overlaps against one statement of where a sample goes"},
	"C36": {pkgs: []string{"render/io"}, level: "translation_validation", min: 7, fork: true,
		explain: "value graphs of the snapshot reader against the block layout"},
	"C08": {pkgs: []string{"render"}, level: "other", min: 14, extra: extraC08,
		explain: "memory accesses of every goroutine under vector clocks, conflicting ones ordered by channels or locks"},
	"C04": {pkgs: []string{"render/io"}, level: "translation_validation", min: 4,
		explain: "value graphs of the sheet files, written and read, against the byte layout"},
	"C06": {pkgs: []string{"render/io"}, level: "translation_validation", min: 7,
		explain: "value graphs of the block readers and writers against element-by-element encoding"},
	"C17": {pkgs: []string{"math/interpolate"}, level: "translation_validation", min: 12,
		explain: "value graphs of the interpolators against the formula on the cell that holds the point"},
	"C18": {pkgs: []string{"math/interpolate"}, level: "translation_validation", min: 13,
		explain: "value graphs of the smoothing kernels and the convolution against sums with the documented edges"},
	"C27": {pkgs: []string{"math/interpolate"}, level: "translation_validation", min: 15,
		explain: "value graphs of the splines on two and three points against the natural spline"},
	"C29": {pkgs: []string{"math/mat"}, level: "translation_validation", min: 28,
		explain: "value graphs of the matrix operations on fixed shapes against their formulas"},
	"C34": {pkgs: []string{"cosmo"}, level: "translation_validation", min: 3,
		explain: "value graphs of the cosmology functions against closed formulas"},
	"C05": {all: true, level: "other", min: 60, extra: extraC05,
		explain: "every call that returns an error, followed along every path on which the error is not nil"},
	"C07": {all: true, level: "other", min: 15, extra: extraC07,
		explain: "every call that opens a file, followed along every path on which it succeeded"},
	"C11": {pkgs: []string{"render/geom"}, level: "translation_validation", min: 14, extra: extraC11,
		explain: "lattice offsets of every tetrahedron's corners, read off the value graphs and tiled exactly"},
	"C12": {pkgs: []string{"render/geom"}, level: "translation_validation", min: 7,
		explain: "value graphs of the point distributions against barycentric formulas"},
	"C24": {pkgs: []string{"render/geom"}, level: "translation_validation", min: 5,
		explain: "value graphs of the tetrahedron geometry and its cached values against determinant formulas"},
	"C25": {pkgs: []string{"render/geom", "render/io"}, level: "translation_validation", min: 9,
		explain: "value graphs of the cell bounds and their intersections"},
	"C21": {pkgs: []string{"render/geom", "math/calc"}, level: "translation_validation", min: 29, fork: true,
		explain: "value graphs of the finite differences against their stencils"},
	"C22": {pkgs: []string{"render/geom"}, level: "translation_validation", min: 5,
		explain: "value graphs of curl, divergence and gradient in terms of single derivatives"},
	"C23": {pkgs: []string{"render/geom"}, level: "translation_validation", min: 24,
		explain: "value graphs of the vector operations against component formulas, including outputs that overlap an operand"},
}
