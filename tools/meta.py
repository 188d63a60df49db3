"""Properties, levels and notes: the single source of properties.jsonl, MANIFEST.json and the table of DESIGN.md."""
C = "src/wulfric/crystal/"
K = "src/wulfric/kpoints/"
CONV, PRIM, SYMB, VARI = C + "_conventional.py", C + "_primitive.py", C + "_hpkot_extended_bl_symbol.py", C + "_sc_variation.py"
SPG = "src/wulfric/_spglib_interface.py"
TECH_VG = "abstract interpretation to a gated value graph + value numbering by random interpretation"
NOTE_VG = ("Static: the value graph of the public function is extracted from the current source (helpers inlined) and read off on representatives "
           "of every region of the stated finite decomposition; equality of closed-form terms is decided by value numbering at random points (one-sided error: "
           "a reported difference is real, a missed one has negligible probability). ")

PROPS = []


def P(id, title, statement, over, text, why, files, mech, decide, level="other", technique=TECH_VG, note="", state=(), na=None):
    PROPS.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech, decide=decide, level=level,
                      technique=technique, note=note or NOTE_VG, state=state, na=na))


P("C01", "Conventional and primitive cells generate the lattice of the crystal",
  "For every crystal, lattice type and supported convention, the returned conventional and primitive cells consist of lattice vectors of the input crystal in the "
  "orientation of its standardised cell. Their volume is that of the standard conventional cell (one lattice point for the primitive cells and for the SC "
  "rhombohedral conventional cell), and the handedness is that of the standardised cell. No call with valid data of these lattice types raises an error.",
  ["inputs", "configurations"], "every crystal of the 15 lattice types, every order of lattice parameters and angles, ties and right angles, three conventions",
  "Tests use a handful of example cells per lattice type, one order of lattice parameters each, and do not compare lattices or volumes.",
  [CONV, PRIM, "src/wulfric/constants/_sc_convention.py", "src/wulfric/constants/_hpkot_convention.py"],
  [("choice of transformation per order of parameters", CONV), ("centring matrices", "src/wulfric/constants/_hpkot_convention.py")],
  "Value graph of the returned cell for (function x convention x lattice type); rows compared with the centred standard lattice, determinant, sign, on every weak order of the parameters.")
P("C02", "Atoms of the returned structures are exactly the atoms of the crystal",
  "The atoms returned with a conventional or primitive cell are the atoms of the standardised crystal expressed in the returned cell: every atom occupies, modulo lattice "
  "translations, the absolute position of an atom of the same type. Each class of lattice-equivalent atoms of a type occurs exactly once (primitive) or once per lattice point of "
  "the cell (conventional), whatever the order in which atoms are listed.",
  ["inputs", "configurations"], "all lattice types, conventions, positions, atom orders",
  "Tests inspect few structures and never compare atoms modulo the lattice; removal of duplicates depends on order and wrapping of positions.",
  [CONV, PRIM], [("recalculation of relative positions", CONV), ("selection of unique atoms", PRIM)],
  "Value graph of positions and types; absolute positions compared modulo the lattice at random positions and permutations of the atoms; classes counted.")
P("C03", "Per-atom data follow the type of the atom",
  "Every per-atom key of the input atoms is present in the returned conventional and primitive atoms, with one value per returned atom. Each value is the value of an input atom of the "
  "same spglib type (the last listed one), and all keys of one returned atom come from the same input atom. Types of the returned atoms are those of the standardised structure.",
  ["inputs", "configurations"], "all key names, value types, numbers of atoms, orders of types, conventions",
  "Tests check only that calls succeed; mixing values between types shows only with several types in unusual order.",
  [CONV, PRIM], [("transfer of user keys by type", CONV), ("transfer of user keys by type", PRIM)],
  "Symbols stand for the values of every key; the returned lists are read off for interleaved and repeated types and compared symbol by symbol.")
P("C04", "Conventional cell obeys the ordering and angle rules of its convention",
  "The conventional cell satisfies the published conditions of the chosen convention: SC orders a<=b<=c (orthorhombic), a<=b for base-centred, b<=c and alpha<=90 (monoclinic), equal "
  "vectors and angles (rhombohedral), reciprocal angles all obtuse or all acute with k_gamma nearest to the right angle (triclinic). HPKOT keeps the standardised cell except for triclinic crystals, where it "
  "is reciprocal to the reduced reciprocal cell with all acute or all non-acute angles and the smallest |k_a k_b cos k_gamma|. The spglib convention returns the standardised cell, and names are case-insensitive.",
  ["inputs", "configurations"], "every weak order of lattice parameters and every sign pattern of reciprocal angles including ties and right angles",
  "Each branch of the selection is a separate case (dozens per convention), tests visit one or two and do not check the conditions.",
  [CONV], [("branches on lengths and angles", CONV)],
  "Decision structure evaluated on representatives of every weak order / sign pattern; published conditions tested on the returned cell.")
P("C05", "Primitive cell is the published centring transformation of the conventional cell",
  "For the HPKOT and SC conventions the matrix relating conventional and primitive cells is the published one for each lattice type, with determinant one over the number of lattice points. The primitive cell of a convention is "
  "exactly this transformation of the conventional cell of the same convention.",
  ["inputs", "configurations"], "14/15 lattice types x two conventions, all cells",
  "Tests check only the keys of the tables; wrong entries survive because no test compares lattices.",
  [PRIM, "src/wulfric/constants/_sc_convention.py", "src/wulfric/constants/_hpkot_convention.py"],
  [("matrices of the conventions", "src/wulfric/constants/_hpkot_convention.py")],
  "Exported tables read off and compared with independently written matrices; value graph of the primitive cell = P^T conventional cell.", level="proof")
P("C06", "Extended Bravais lattice symbol is the published one for every crystal",
  "For every space group and every cell compatible with it the extended Bravais lattice symbol of the HPKOT convention is the one defined by the published table: by space group for cP, cF, hP, and "
  "by the inequalities between lattice parameters of the HPKOT conventional cell otherwise, with ties assigned as published. The function never returns nothing and never raises for valid data.",
  ["inputs"], "230 space groups, every region and boundary of the inequalities",
  "Tests use one stored example per symbol; boundaries, ties and 200 of the 230 space groups are not visited.",
  [SYMB], [("classification", SYMB)],
  "Decision structure per space group, evaluated on representatives of every region and tie, against an independent transcription of the published rules.")
P("C07", "SC lattice variation is the published one; undefined cases are refused",
  "For every crystal the lattice variation of the SC convention is the one defined in the paper from the SC conventional cell (and the reciprocal primitive cell for base-centred monoclinic crystals), where equalities hold within the tolerances stored "
  "in the spglib data. Cells for which the convention defines no variation (a = c for BCT, equal parameters for ORCF, alpha = 90 for RHL, k_alpha or k_beta = 90 for TRI) are refused with ValueError.",
  ["inputs"], "all lattice types, every region and boundary, several tolerances",
  "Tests use one example per variation, never a boundary or another tolerance.",
  [VARI], [("variation per lattice type", VARI)],
  "Decision structure per lattice type and tolerance evaluated on both sides of every boundary against the published rules.")
PP, HP, SP, KC = K + "_path_and_points.py", K + "_hpkot_points.py", K + "_sc_points.py", "src/wulfric/constants/_kpoints.py"
P("C08", "Every label of a recommended k-path has coordinates and a plot name",
  "For every lattice type, extended symbol or variation of both conventions, space group with or without inversion and value of with_time_reversal, the recommended path consists of subpaths of at least two labels without repeated neighbours. "
  "Each of its labels is among the returned points, each returned point has three coordinates and a name in HS_PLOT_NAMES, and GAMMA is the origin. Valid crystals to which the convention applies never raise an error.",
  ["inputs", "configurations"], "closed world: all lattice types, variations, conventions, flags, every region of the parameters",
  "Tests run stored examples with default flags; a missing label of a rare variation surfaces only when a user plots it.",
  [PP, HP, SP, KC], [("path tables", KC), ("dispatch to coordinates", PP)],
  "Value graphs of path and points for every (convention, lattice type, inversion, flag); path split, labels looked up in the returned dictionary and in the exported table of plot names.")
P("C09", "Recommended paths and k-points are the published ones",
  "For every extended Bravais lattice symbol (HPKOT) and lattice variation (SC) the recommended path is the published one, and the returned points are exactly the published ones. Each point has the published coordinates (functions of the lattice "
  "parameters of the conventional cell of the convention), relative to the reciprocal of the primitive cell of the same convention.",
  ["inputs", "configurations"], "24 HPKOT symbols, 25 SC variations, all lattice parameters of each region",
  "About 500 coordinates, most of them formulas; tests check that points exist, not where they are.",
  [PP, HP, SP, KC], [("coordinates", HP), ("coordinates", SP), ("paths", KC)],
  "Value graph of each coordinate compared with an independent transcription of the published tables at random parameters of every region.")
P("C10", "Relative k-points refer to the given cell, absolute ones to Cartesian axes",
  "With relative=True (default) the coordinates of the recommended points are relative to the reciprocal cell of the cell given by the user, whatever basis of the lattice or supercell it is. With relative=False the same points are given in Cartesian "
  "coordinates (2 pi included), and for a crystal in a fixed orientation they do not depend on the cell given.",
  ["inputs"], "all lattice types, both conventions, cells of the user with other bases and supercells",
  "Tests use cells which coincide with the primitive one, where a wrong frame changes nothing.",
  [PP], [("conversion to the given cell", PP)],
  "Value graphs for both values of the flag with the user's cell symbolic and different from the standardised cells.")
P("C11", "Paths are extended with opposite points exactly when inversion is lost",
  "Path and points are extended if and only if the space group of the crystal has no inversion and with_time_reversal=False (the default is True). The extension appends a copy of the path with every label except GAMMA marked by the suffix _P, and each marked point is "
  "minus the original one; nothing else depends on the flag.",
  ["inputs", "configurations"], "230 space groups, both conventions, all symbols and variations",
  "Tests call the function with the default flag; 138 groups without inversion are not visited.",
  [PP, "src/wulfric/constants/_space_groups.py"], [("extension of the path", PP), ("INVERSION_SYMMETRY", "src/wulfric/constants/_space_groups.py")],
  "Value graphs per space group and flag; doubled path and negated coordinates verified against the crystallographic definition of the point group.")
P("C12", "Functions change neither their arguments nor the state of the package",
  "No public function or method changes the objects passed to it (cells, atoms and their lists or arrays, k-point data) or any module-level object of the package, for any combination of options. The exceptions are the documented in-place ones: shift_atoms, "
  "cure_negative and ensure_000 may change atoms[\"positions\"], and nothing else.",
  ["inputs", "histories"], "every public function, array and list inputs, every optional key and option",
  "Tests compare results, not arguments after the call; a write that shows only for array inputs, for one option or for a second call escapes them.",
  ["src/wulfric"], [("in-place functions", C + "_atoms.py"), ("conversion of inputs", CONV)],
  "Effect analysis on the abstract heap: each write of the call is attributed to the object it changes; writes to objects older than the call are violations.", level="proof",
  technique="effect analysis by abstract interpretation (heap objects labelled with their origin)",
  note="Static effect analysis over the abstract heap: every write performed on any path of the public function is attributed to an object created by the call, to an argument or to a module-level object. ")
P("C13", "Results share no mutable state with inputs or with the package",
  "Objects returned by public functions (cells, positions, lists of atoms, spglib data, k-points, Kpoints objects and their copies) are not the objects given by the caller, parts or views of them, nor the arrays stored in SpglibData or in tables of the package. Changing a result therefore never "
  "changes the input, the spglib data or a later result.",
  ["inputs", "histories"], "every public function returning containers, every option and key",
  "Sharing is invisible until somebody writes to the result; tests never do.",
  ["src/wulfric"], [("copies of arrays", CONV), ("stored input", SPG)],
  "Ownership analysis: objects reachable from the result (views included) are intersected with the objects that existed before the call.", level="proof",
  technique="ownership / alias analysis by abstract interpretation (heap objects labelled with their origin)",
  note="Static alias analysis: reachability in the abstract heap from the result; values of per-atom keys and elements of user sequences are opaque. ")
P("C14", "spglib_data never changes the result; foreign or stale data are refused",
  "get_conventional, get_primitive, hpkot_get_extended_bl_symbol, sc_get_variation, get_path_and_points and Kpoints.from_crystal give the same result without spglib_data as with the data created from the same cell and atoms with default tolerances, and given data are used "
  "instead of newly created ones. Objects of other classes raise TypeError; data whose cell, positions (beyond the tolerance of allclose) or types differ from the given ones raise ValueError.",
  ["inputs", "histories"], "six functions, all conventions and lattice types, every kind of mismatch",
  "Tests pass data of the same structure; stale data after a modification of atoms is the case that matters.",
  [SPG, CONV, PRIM, SYMB, VARI, PP, "src/wulfric/_kpoints_class.py"], [("validation of data", SPG)],
  "Value graphs with and without the argument compared; guards of the raises evaluated for every kind of mismatch.", level="proof")
KO = "src/wulfric/_kpoints_class.py"
TECH_TS = "typestate / value-graph analysis of a symbolic object"
TECH_CW = "closed-world constant propagation over the extracted value graph"
P("C15", "SpglibData describe the given crystal in its own orientation",
  "The object created by get_spglib_data holds the given cell, positions and types, the dataset returned by spglib for exactly these data and tolerances (defaults 1e-5 and -1), and its conventional and primitive cells rotated back to the orientation "
  "of the given cell. For each of the 230 space groups the crystal family and centring type, and the tables of families, centrings and inversion symmetry, agree with the International Tables. RuntimeError is raised when spglib finds no symmetry.",
  ["inputs", "configurations"], "every crystal (modulo spglib), 230 space groups, both kinds of datasets, arrays and lists, all tolerances",
  "Tests create data for a few examples in standard orientation; a wrong rotation or a swapped tolerance is invisible there.",
  [SPG, "src/wulfric/constants/_space_groups.py"], [("rotation back to the input orientation", SPG), ("families and centrings", SPG)],
  "spglib replaced by a symbolic dataset; fields and arguments of the calls compared with their definition; tables and all 230 groups enumerated.", level="proof")
P("C16", "spglib types distinguish exactly the different species of atoms",
  "get_spglib_types returns positive integers, one per atom, equal for two atoms if and only if their species are equal, and the types depend on the set of species only, not on order or multiplicity of atoms. Given spglib_types are returned as they are, else species, else names are used; "
  "names from which no species can be deduced stand for themselves. Atoms with none of the three keys raise ValueError.",
  ["inputs"], "all partitions of up to four atoms into species and names (with numbers, in any case, without element)",
  "Tests use two or three patterns; merging of two species or dependence on the order shows only for others.",
  [SPG], [("enumeration of species", SPG)],
  "Patterns enumerated; types read off the analysed function and the equivalence relation compared.", technique=TECH_CW)
P("C17", "Species are deduced from names of atoms; tables of elements are complete",
  "A name consisting of an element symbol in any case with digits or underscores before or after it is attributed to this element for all 118 elements, a symbol of two letters wins over its letters. A name without an element gives 'X' with a warning or raises FailedToDeduceAtomSpecies. "
  "Tables of species, colors and masses have an entry for each element: valid #RRGGBB colors and the atomic masses.",
  ["inputs", "configurations"], "118 elements x decorations of names, three tables",
  "Tests sample a few names; 118 x 3 entries of tables are not looked at.",
  [C + "_atoms.py", "src/wulfric/constants/_atoms.py"], [("search of the symbol in the name", C + "_atoms.py")],
  "Closed world of element symbols propagated through the analysed function; tables compared entry by entry.", technique=TECH_CW)
P("C18", "Ticks, labels and points of a k-path agree with the path and the points",
  "For every Kpoints object and path: there is one label per tick, the label at a junction of subpaths is 'A|B'; ticks are cumulative lengths of segments from zero without jumps between subpaths. points holds n + 2 evenly spaced points per segment including both ends, flat_points their distances along the path. "
  "Relative and Cartesian versions are consistent, and all of it follows every change of n and path; an empty path has no labels and empty arrays.",
  ["inputs", "histories"], "all coordinates and reciprocal cells, eight shapes of paths, several n, changes after construction",
  "Tests check one path in a cubic cell; mixed relative/absolute lengths and junction bookkeeping differ elsewhere.",
  [KO], [("cumulative distances", KO), ("labels of junctions", KO)],
  "Objects with symbolic points analysed; value graphs of the properties compared with the definition.", technique=TECH_TS)
P("C19", "Kpoints objects stay consistent under every change, refused or accepted",
  "Names, coordinates and labels of a Kpoints object describe the same points after construction and after every sequence of adding and removing points, Cartesian coordinates are converted to relative ones, other points and the path stay as they are. Refused changes (undefined points or subpaths of one point in a path, a path that is neither string nor list, n which is not of an integer type (Python's or numpy's), a second point with a defined name, "
  "mismatched or repeated names in the constructor) raise ValueError and leave the object unchanged. Without names the points are K1, K2, ..., with the labels K$_1$, K$_2$, ...; labels default to given names. Without a given path it leads through all points in order (it is empty for less than two) and later points do not enter it. Changes of a copy never reach the original.",
  ["inputs", "histories"], "constructor arguments, sequences of add/remove/assign/copy, accepted and refused",
  "Tests check that errors are raised, not that the object survives them, and no sequences of operations.",
  [KO], [("add and remove of points", KO), ("validation of the path", KO)],
  "Abstract object states after each operation compared; abstract heap at every raise must equal the heap before the call.", technique=TECH_TS,
  state=[("hs_names, hs_coordinates, hs_labels, path, n", "defined points, their coordinates and labels, path through them, number of points per segment")])
P("C20", "String and list notations of a k-path are inverse to each other",
  "Conversion of every path from list to string and back gives the same path, for any number of subpaths and points and any names without the separators. Strings with an empty subpath or a subpath of less than two points, objects which are not strings, and objects which are not sequences of sequences raise ValueError.",
  ["inputs"], "all shapes of up to four subpaths of 2-5 points, malformed strings",
  "Tests hold a short list of strings and one direction.",
  [K + "_path_and_points.py"], [("parsing of the string", K + "_path_and_points.py")],
  "Shapes enumerated and propagated through both analysed functions.", technique=TECH_CW)

CB, GEO, NUM, CBM, VASP = "src/wulfric/cell/_basic_manipulation.py", "src/wulfric/geometry/_geometry.py", "src/wulfric/_numerical.py", C + "_basic_manipulation.py", "src/wulfric/io/_vasp.py"
P("C21", "Reciprocal cell, cell parameters, volumes and angles satisfy their definitions",
  "For every non-degenerate cell (array or nested lists, either handedness): reciprocal vectors are dual with the factor 2 pi, lengths, angles (in degrees) and scalar products belong to the pairs (bc, ac, ab), the transposed transformation matrix turns the original cell into the transformed one, all three forms of get_volume agree and other numbers of arguments raise ValueError. "
  "from_params gives a cell with exactly the given parameters, a along x and b in the xy plane. Angles are finite for parallel vectors and ValueError is raised for zero ones, spherical coordinates describe the given vector for any pair of perpendicular axes in degrees and radians, including the poles and all half-planes.",
  ["inputs"], "all cells, vectors, axes, forms of the arguments",
  "Tests use a few orthogonal cells and axes; swapped pairs, transposition and half-planes coincide there.",
  [CB, GEO], [("duality and parameters", CB), ("angles and spherical coordinates", GEO)],
  "Value graph of each function compared with an independent definition on every region its branches distinguish.")
P("C22", "Comparisons with tolerance and the parallelepiped check decide as documented",
  "compare_with_tolerance decides each of the six conditions as documented for every pair of numbers and tolerance (given, or absolute plus relative to the second number), and raises ValueError for any other condition. parallelepiped_check is true exactly when lengths are positive, angles are between 0 and 180 degrees, each angle is less than the sum of the other two and the sum of "
  "all three is less than 360, all with the given tolerances; with raise_error it raises ValueError exactly when it would return False. from_params refuses exactly the parameters which fail the check.",
  ["inputs"], "both sides of the tolerance of every condition and of every single inequality",
  "Each inequality has to be violated alone and near its tolerance; tests violate a few at once.",
  [NUM, GEO, CB], [("inequalities", GEO), ("definition of conditions", NUM)],
  "Result term and guards of the raises evaluated on representatives of every region cut by the comparisons.", level="proof")
P("C23", "Atom vectors, distances, shifts and wrapping are rigid and exact",
  "get_vector gives the vector from the first to the second atom in the cell shifted by R (Cartesian or relative), get_distance its length. shift_atoms and cure_negative move all atoms by one vector: the first puts the middle of the extreme coordinates to the gravity point (given in relative or Cartesian coordinates), the second makes the smallest negative coordinate of each axis zero and leaves non-negative ones. "
  "ensure_000 moves each coordinate into [0, 1] by an integer and leaves the ones inside. Other keys of atoms are unchanged, positions may be arrays or lists, and a Cartesian gravity point without a cell raises ValueError before anything is changed.",
  ["inputs"], "all positions with every sign pattern, 1-4 atoms, forms of positions and vectors",
  "Tests use doctest examples; sign patterns, one atom and non-cubic cells with Cartesian gravity point are not covered.",
  [CBM], [("rigid shifts", CBM), ("wrapping of coordinates", CBM)],
  "Positions left by the analysed call compared with the definition on every sign pattern of coordinates.")
P("C24", "Every POSCAR file is read as its format defines",
  "load_poscar returns the cell, atoms and comment the file describes: one scale factor (negative means the volume of the cell) or three positive ones, names or counts only (names X1, X2, ...), selective dynamics, and direct or Cartesian (scaled) positions with any of the accepted spellings of the mode (first letter D, C or K in any case). Positions are returned in relative coordinates. Other numbers of scale factors raise ValueError. "
  "The file may be given as an open file, a path, a directory or by default, and FileNotFoundError is raised for a missing one.",
  ["inputs"], "162 layouts of the file with symbolic numbers, all ways to give the file",
  "There are no tests of reading; the branches combine multiplicatively.",
  [VASP], [("scale factors and modes", VASP)],
  "Reader analysed on an abstract file with symbolic numbers; every layout enumerated and compared with the definition of the format.", technique=TECH_VG)
P("C25", "Every written POSCAR file describes the given crystal",
  "The text written by dump_poscar is a POSCAR file with a one-line comment, the given cell, and every given atom exactly once with its species (key species, else deduced from names) and position in the requested mode, up to the requested number of decimals, whatever the order of atoms and form of the arrays. "
  "A wrong mode or a name without an element raises ValueError before the file is opened or anything is written.",
  ["inputs"], "orders of species, both modes, decimals, comments with line breaks, forms of the arrays",
  "There are no tests of writing; interleaved species, non-orthogonal cells and line breaks matter.",
  [VASP], [("grouping of atoms by species", VASP), ("formatting of numbers", VASP)],
  "Written text is a term over symbolic cell and positions; it is read off and parsed by an independent reader.", technique=TECH_VG)
P("C26", "Opened files are closed on every way out, files of the caller stay open",
  "Each file opened by load_poscar or dump_poscar is closed when the function returns and when it raises an error of its own (wrong scale factors, wrong mode, names without an element). A file object given by the caller is left open.",
  ["inputs", "histories"], "every return and raise of both functions, all ways to give the file",
  "Unclosed handles are invisible to tests under reference counting.",
  [VASP], [("open and close", VASP)],
  "Typestate open/closed of file objects inspected in the abstract heap at every return and raise.", technique="typestate analysis over the abstract heap of the analysed functions")
NIG, VOR, PLT = "src/wulfric/cell/_niggli.py", "src/wulfric/cell/_voronoi.py", "src/wulfric/_plotly_engine.py"
P("C27", "Own Niggli reduction keeps lattice and handedness and ends with a Niggli cell",
  'With implementation="wulfric" every pass of the reduction multiplies the cell by an integer matrix with determinant +1 and keeps its metric parameters consistent with it, the reduction ends exactly when all '
  "Niggli conditions (main and special ones, within eps_relative times the cubic root of the volume) hold, and the returned cell is that integer combination of the given vectors. More than max_iterations passes raise NiggliReductionFailed, a cell with zero volume raises ValueError.",
  ["inputs", "histories"], "any number of passes, all cells, ties of parameters, borders of the conditions",
  "Tests reduce a handful of cells; borders of the eight conditions and long histories of passes are not sampled, handedness is not checked.",
  [NIG], [("steps of the reduction and their matrices", NIG), ("limit of iterations", NIG)],
  "Loop invariant: the body of the loop is analysed once from an arbitrary state that satisfies the invariant; the transition is compared with the invariant and the independent Niggli conditions on metrics with ties.",
  technique="inductive loop invariant over the value graph of one pass, value numbering by random interpretation",
  note="Static: one pass is analysed from an arbitrary state of the invariant, the number of passes is not bounded. Assumed: convergence itself; floating point error of one pass.")
P("C28", "Plotted objects are drawn at their absolute coordinates",
  "PlotlyEngine draws cells as their twelve edges (each once) with lattice vectors from the origin of the cell, lattice points, atoms, Wigner-Seitz cells, Brillouin zones (of the reciprocal cell), k-paths (segments of the path only, no line between "
  "subpaths) and k-points (all, or those of the path) at their absolute coordinates plus the shift, in the requested subplot and legend group. One call makes one entry in the legend if a label is given and none otherwise. Atoms are labelled with their names and have the colors given or those of their species; hover texts show their "
  "relative and absolute coordinates.",
  ["inputs", "configurations"], "all cells, shifts, atoms, k-points, forms of arguments",
  "There are no tests of the plotting engine at all.",
  [PLT], [("coordinates of traces", PLT)],
  "Analysis over a model of the figure; recorded traces are value graphs, their segments and points are compared with the definition.")
P("C29", "Axes of a figure contain everything that was plotted",
  "After any sequence of plotting calls, also in several subplots, also after a previous show() or save(), the ranges of axes set by show() and save() contain all plotted lines, points, atoms, cells, paths and labels of vectors of the subplot. The ranges have finite positive length and the aspect ratio is finite and positive, "
  "also for flat figures, for single points and for objects far away from the origin.",
  ["inputs", "histories"], "sequences of plotting calls, arrangements of points",
  "There are no tests of the plotting engine at all; cut off objects are only seen by eye.",
  [PLT], [("update of ranges of axes", PLT)],
  "Ordered pairs of plotting calls are analysed over a model of the figure; ranges and recorded traces are compared at generic, remote and flat arrangements.")
P("C30", "Lattice points, Wigner-Seitz cell and Brillouin zone are those of the lattice",
  "get_lattice_points returns every integer combination within the range exactly once (relative or absolute, flat or as a grid). The Wigner-Seitz cell is made of the bounded faces of the origin in the Voronoi decomposition of the lattice: exactly the vertices of these faces, every edge once, indices that refer to the returned vertices. "
  "The Brillouin zone is the Wigner-Seitz cell of the reciprocal lattice. All neighbours of the origin with coefficients up to ten take part.",
  ["inputs", "configurations"], "all cells, ranges, arrangements of Voronoi faces",
  "Tests only compare a few ranges of points; Wigner-Seitz cells are not tested.",
  [VOR], [("grid of points", VOR), ("selection of faces", VOR)],
  "Value graph of the points; SciPy is replaced by a model with chosen faces and symbolic vertices, returned vertices and edges are compared with the faces.")
P("C31", "get_niggli uses the requested implementation and reports its failure",
  'get_niggli with the default or implementation="spglib" (any case of letters) asks spglib for the given cell and tolerance and returns what it found, and raises RuntimeError if spglib finds nothing. implementation="wulfric" (any case) does not involve spglib, any other name raises ValueError.',
  ["inputs", "fault_sequences"], "all spellings of the implementation, failure of spglib",
  "Failure of spglib cannot be provoked by a simple test; spellings and forwarding of the tolerance are not tested.",
  [NIG], [("choice of implementation", NIG)],
  "All ways out of the function enumerated for every spelling; arguments and result of the spglib call followed through the value graph.")
P("C32", "Missing optional packages: import works, ImportError only where they are needed",
  "Without plotly, SciPy and spglib (any of them) the package is imported with all its public functions and classes. PlotlyEngine without plotly, Wigner-Seitz cells and Brillouin zones without SciPy, and spglib data or the spglib reduction without spglib raise ImportError; all other public functions are not affected.",
  ["configurations"], "every listed combination of missing packages x every public function",
  "The test environment has all packages installed, absence cannot be sampled by the tests.",
  [PLT, VOR, NIG, SPG], [("guarded imports", PLT)],
  "The whole package is analysed with imports of the missing packages failing; raises of every public call are enumerated.", technique="effect analysis of imports, enumeration of raises by abstract interpretation")
VAL, HEX_, SCEX, PAP, ATO = ("src/wulfric/crystal/_crystal_validation.py", "src/wulfric/crystal/_hpkot_examples/__init__.py", "src/wulfric/cell/_sc_examples.py",
                             "src/wulfric/kpoints/_path_and_points.py", "src/wulfric/crystal/_atoms.py")
P("C33", "Invalid atoms are refused by every crystal function, valid ones accepted",
  "validate_atoms raises TypeError for a value that cannot be counted and ValueError for values of different length, a missing required key, positions of another shape than (N, 3), names that are not strings, species that are not strings of known elements (or X), spglib_types that are not integers >= 1; "
  "with raise_errors=False it returns False for them and never raises, and it returns True for all other atoms. "
  "get_conventional, get_primitive, get_path_and_points, sc_get_variation, hpkot_get_extended_bl_symbol, Kpoints.from_crystal, get_spglib_data, get_spglib_types, get_atoms_species and get_unique_names raise TypeError or ValueError for such atoms and return nothing.",
  ["inputs"], "every kind of defect at every atom and key, combinations, required keys, both modes",
  "Tests try one defect at a time in validate_atoms itself, never the functions which rely on it, and one position of the defect.",
  [VAL, ATO, SPG], [("checks of keys and values", VAL)],
  "Dictionaries with one or two defects are propagated through the analysed functions; every way out is enumerated, types and positions are symbolic.", technique="abstract interpretation with enumeration of returns and raises (constant propagation)")
P("C34", "Example cells and crystals are of the type they are requested by",
  "The constructors SC_* return the published primitive vectors for all parameters (SC_TRI: a cell which, or whose reciprocal cell for input_reciprocal=True, has the given lengths and angles). sc_get_example (any case of letters) returns a cell of the requested lattice type and variation and raises ValueError for other names. "
  "hpkot_get_example returns the example of the requested symbol (or of one of the type, if only two characters are given) with or without inversion symmetry as requested, and raises ValueError for unknown symbols and for those that have no example with inversion.",
  ["inputs", "configurations"], "all parameters, all names in several spellings, all symbols with and without inversion",
  "SC_TRI and names of types are not tested, variations of examples only through the code which is tested with them.",
  [SCEX, HEX_], [("vectors of cells", SCEX), ("choice of the file", HEX_)],
  "Value graph for symbolic parameters against the published vectors; constants are propagated and classified by independent rules; named data files are read by an independent reader.", technique=TECH_VG)
P("C35", "Names of conventions and strategies: any letter case, unknown names refused",
  "get_conventional, get_primitive, get_path_and_points and Kpoints.from_crystal give the same result for every letter case of the convention, use HPKOT by default and raise ConventionNotSupported for every other name (for k-paths and Kpoints also for spglib). "
  "get_unique_names gives the same names for every letter case of the strategy and raises ValueError for other strategies.",
  ["inputs"], "lattice types x spellings x functions",
  "Tests use one spelling and one lattice.",
  ["src/wulfric/crystal/_conventional.py", "src/wulfric/crystal/_primitive.py", PAP, ATO], [("choice of convention", PAP)],
  "Each function is analysed with the canonical and with another spelling, value graphs of both results are compared; every way out is enumerated for unknown names.", technique=TECH_VG)
P("C36", "show() and save() apply their options to the whole figure",
  "show() and save() place the legend at the requested side (any case of letters, top by default, ValueError for other positions), hide the axes of all subplots if and only if axes_visible=False, give their keywords to update_layout of plotly, set the ranges of axes before the figure leaves, and then show it or write it once to the requested file "
  "(wulfric-plot.html by default) with kwargs_write_html. PlotlyEngine(rows, cols) makes that many three-dimensional subplots.",
  ["inputs", "configurations"], "positions of the legend x visibility x both methods",
  "There are no tests of the plotting engine at all.",
  [PLT], [("show and save", PLT)],
  "Analysis over a model of the figure; everything that reaches the figure is read off for every option, every way out is enumerated for unknown ones.")
KPC, SUG, PKG = "src/wulfric/_kpoints_class.py", "src/wulfric/_syntactic_sugar.py", "src/wulfric/_package_info.py"
P("C37", "Results depend on arguments only: no hash order, randomness, time, memory",
  "Results, errors, changed arguments and files written by the public functions and by Kpoints are functions of the arguments: they do not depend on the order in which Python iterates sets of strings (hash seed), on random numbers, time, environment, identity or hash of objects, or on uninitialised memory. "
  "Exceptions: the default comment of dump_poscar and logo(date_time=True) tell the time.",
  ["configurations", "inputs"], "every public function, data with many names and species, both orders of sets",
  "Tests run with one hash seed at a time and compare with fixed expectations of few elements.",
  [SPG, VASP, ATO, HEX_], [("numbering of types", SPG), ("order of species in files", VASP)],
  "Every call is analysed twice, with sets of strings iterated forwards and backwards, and both value graphs are compared; sources of nondeterminism and uninitialised elements are searched in every term of the result.",
  technique="abstract interpretation to a value graph under two orders of sets, taint analysis of the terms")
P("C38", "Kpoints.from_crystal is the recommended path; hs_table lists every point",
  "Kpoints.from_crystal(cell, atoms) has the high-symmetry points, coordinates and path that get_path_and_points returns for the same arguments, plot names as labels, the reciprocal cell of the given cell and the requested n. hs_table has one row per point in their order, with relative and Cartesian coordinates rounded to the requested decimals, "
  "also after points were added or removed or when there are none.",
  ["inputs", "histories"], "lattice types x conventions x time reversal x n; additions and removals of points",
  "Tests create a few objects and compare neither labels nor cells; hs_table is only checked for one path of examples.",
  [KPC], [("from_crystal", KPC), ("hs_table", KPC)],
  "Both public functions are analysed for the same symbolic crystal and compared on every region of lattice parameters; text of the table is read row by row.")
P("C39", "Attribute and key access of SyntacticSugar agree; SpglibData is read-only",
  "For SyntacticSugar objects attribute and key access, assignment and deletion are the same operation, reading a missing key as attribute raises AttributeError. add_sugar and remove_sugar return a new SyntacticSugar or plain dict with the same keys in the same order and the same values, changes of one do not reach the other, "
  "and raise ValueError for anything that is not a dictionary. Attributes of SpglibData cannot be assigned or deleted.",
  ["histories", "inputs"], "sequences of assignments, deletions and reads",
  "Tests try single reads and assignments, no sequences, deletions or aliasing.",
  [SUG, SPG], [("access to keys", SUG), ("read-only data", SPG)],
  "Sequences of operations are analysed and compared with a reference model (plain dictionary).", technique="abstract interpretation of operation sequences against a reference model")
P("C40", "Text of logo(): every line of info once and in order, comment in every line",
  "logo(info) shows every line of info exactly once and in order, for any number of lines, next to the unchanged logo and picture. Every line starts with the comment (\"# \" for True, nothing for None and False) and then has the same number of characters, at least the requested line_length; "
  "the default text tells version, release date and documentation of the package.",
  ["inputs", "configurations"], "0 to 20 lines of info x flat x line_length x comment",
  "Tests do not look at the text.",
  [PKG], [("merging of lines", PKG)],
  "The text is a constant for every combination of arguments; it is propagated through the function and read line by line.", technique="constant propagation through the analysed function")

P("C41", "Numbers given as lists, tuples, arrays, rows, integers or floats: same result",
  "Functions that take cells, vectors, positions or points give the same result whether the numbers are given as an array of floats, nested lists, nested tuples, a list of arrays, or integers in any of these forms. "
  "The effect on the positions changed in place is the same too, and no form is refused with an error about types, nor are numbers truncated.",
  ["inputs", "configurations"], "functions of cell, geometry, crystal, kpoints, io and plots x 6 forms of the numbers",
  "Tests use one or two forms per function and rarely integers.",
  ["src/wulfric/cell/_basic_manipulation.py", "src/wulfric/geometry/_geometry.py", "src/wulfric/crystal/_basic_manipulation.py", "src/wulfric/_kpoints_class.py"],
  [("conversion of positions", "src/wulfric/crystal/_basic_manipulation.py"), ("conversion of vectors", "src/wulfric/geometry/_geometry.py")],
  "Every call is analysed with each form of the arguments over a model of the operators of sequences and of the number types of arrays (integer arrays refuse in-place floats and truncate stored ones); value graphs and raises are compared with the form array of floats.",
  level="other", technique="type inference (sequence kind, number type) with value-graph comparison between forms of the arguments",
  note="Components that need loops of unknown length (atoms of get_primitive, spglib calls of get_niggli) are compared only by the errors.")

P("C42", "Returned values are of the documented kinds on every way out",
  "Cells, transformation matrices, vectors and points are returned as arrays of the documented shape; parameters, scalar products and spherical coordinates as tuples of numbers; names, species, atom types and paths as lists (of strings, of integers); atoms and coordinates of k-points as dictionaries; angles, volumes, distances as numbers; tests as booleans; positions along the k-path as arrays; "
  "in-place functions return nothing. This holds for every form of the arguments (lists, tuples, arrays, integers) and every branch, also for the methods and attributes of Kpoints.",
  ["inputs", "configurations"], "calls of the public functions x forms of arguments x ways out",
  "Tests compare numbers, which nested lists satisfy as well; the next operation of the user (cell @ vector, cell.T) fails then.",
  ["src/wulfric/cell/_basic_manipulation.py", "src/wulfric/geometry/_geometry.py", "src/wulfric/crystal/_basic_manipulation.py", "src/wulfric/_kpoints_class.py"],
  [("returned values", "src/wulfric/cell/_basic_manipulation.py")],
  "Abstract interpretation computes the kind and the shape of every returned component for each call and compares it with the documented one, over all guarded alternatives of the value.",
  level="proof", technique="type and shape inference by abstract interpretation",
  note="Values whose kind is not known to the analysis (results of unmodelled libraries) are not reported.")
P("C43", "Plotted objects have the given color, labels, size and hover texts",
  "Every line, vector (with its tip), marker and label drawn by PlotlyEngine has the color given, or the documented default of the method; plot_points gives each point its own color from a list. Lattice vectors are labelled with the prefix (a, b for the Brillouin zone, or the one given) and 1, 2, 3 by their tips; plot_vectors=False draws neither vectors nor labels. "
  "Sizes of markers and of their labels are proportional to scale. Labels of atoms are black on light colors and white on dark ones. Hover texts of atoms show the index of the atom and its own entry of every key of atoms with an entry per atom, with a warning for keys of another length; add_hoverinfo=False turns them off. Hover texts of k-points show their names and labels.",
  ["inputs", "configurations"], "plotting methods x colors, labels, sizes, keys of atoms",
  "There are no tests of the plotting engine at all.",
  [PLT], [("styles of traces", PLT)],
  "Analysis over a model of the figure; colors, texts and sizes of the recorded traces are compared with the arguments of the call.",
  level="other", technique="abstract interpretation over a model of the figure, comparison of recorded settings with the arguments")

P("C44", "Omitted arguments mean the documented defaults; order of arguments as documented",
  "A public function or method (including the ones of Kpoints, SpglibData and PlotlyEngine) called without an optional argument does the same as when called with the default that its documentation states, e.g. tolerances of compare_with_tolerance (1e-5, 1e-8), parallelepiped_check (1e-8, 1e-4), get_spglib_data (1e-5, -1), HPKOT convention, 8 decimals, 100 points, relative=False for points of Kpoints. "
  "Every documented argument can be given by its documented name, or by position in the documented order, with the same meaning. No documented argument is ignored: the function reads every one of them.",
  ["inputs", "configurations"], "all public functions, constructors and methods x their arguments",
  "Tests mostly give all arguments, or compare with expectations that many defaults satisfy.",
  ["src/wulfric/_numerical.py", "src/wulfric/_spglib_interface.py", KPC, "src/wulfric/crystal/_basic_manipulation.py", PLT],
  [("signatures of the public functions", "src/wulfric/_numerical.py")],
  "The value bound to each omitted argument and the order of parameters are read from the analysed functions; when the value is another one (a sentinel) the calls with and without the argument are analysed and their value graphs compared. Every parameter has to be read in the definition.",
  level="proof", technique="analysis of parameter binding and liveness, value-graph comparison for sentinels")
P("C45", "get_unique_names gives every atom its own name with the documented index",
  "get_unique_names returns one name per atom in the order of atoms and all returned names are different, for any names and any number of atoms. Names that are unique already are returned unchanged. Strategy \"all\" appends to every name the index of the atom (from 1, plain unless that gives equal names); "
  "\"repeated-only\" keeps names that occur once and appends to repeated ones a running index starting from 1 for each of them, leaving out only the indices that give the name of another atom.",
  ["inputs"], "all lists of up to four similar names, long lists where digits of names and of indices collide, random lists",
  "Tests use a few lists of names without digits at the end of names that collide with indices.",
  [ATO], [("renaming of atoms", ATO)],
  "Lists of names are constants that are propagated through the analysed function; the resulting constants are compared with the documented renaming.",
  level="other", technique="constant propagation through the analysed function over enumerated lists of names",
  note="Uniqueness is decided for the enumerated lists, not by induction over all lists.")
P("C46", "Tables of constants: plot names, lattices, paths and factors are consistent",
  "HS_PLOT_NAMES gives for every label of a point of the two conventions (also with _P) its own spelling for plots: the letter or the Greek letter named, the digits of the label as a subscript, a prime if and only if it ends with _P; all plot names differ. "
  "The lists of Bravais lattices, extended symbols and SC variations are complete and have no repeats, every lattice has its short and long SC names. Every default path has subpaths of two or more points of its own lattice and never repeats a point right away; TORADIANS and TODEGREES are pi/180 and 180/pi.",
  ["inputs"], "all entries of the public tables of constants",
  "Tests check that examples run; no test reads the plot names or long names.",
  ["src/wulfric/constants/_kpoints.py", "src/wulfric/constants/_sc_convention.py", "src/wulfric/constants/_hpkot_convention.py", "src/wulfric/constants/_bravais_lattices.py", "src/wulfric/constants/_numerical.py"],
  [("tables of constants", "src/wulfric/constants/_kpoints.py")],
  "The values of the tables are computed from the modules of constants and every entry is compared with the rule of spelling, the list of lattices or the published points.", level="proof", technique="constant propagation, comparison with independently written rules")
P("C47", "The unit of length does not matter: a crystal in another unit gives the same",
  "When the cell and the tolerances of lengths (symprec, distance tolerances) of a crystal are given in another unit of length, all functions give the same result in that unit: symmetry symbols, variations, paths, relative positions, relative k-points and angles are the same; cells, vectors and distances scale with the unit, absolute k-points and reciprocal cells with its inverse, volumes with its cube, scalar products with its square. "
  "It holds for conventional and primitive cells, SC variations, HPKOT extended symbols, recommended paths and points, ticks and points of Kpoints, functions of cells and geometry, manipulations of atoms, Wigner-Seitz cells and Brillouin zones.",
  ["inputs"], "all lattice types x conventions, geometry and cell functions, Kpoints",
  "Tests use cells of a few Angstrom with default tolerances only, where a comparison of a wrong power of length with a small number is not visible.",
  ["src/wulfric/crystal/_sc_variation.py", PRIM, "src/wulfric/crystal/_conventional.py", "src/wulfric/cell/_basic_manipulation.py", "src/wulfric/geometry/_geometry.py", KPC, "src/wulfric/cell/_voronoi.py"],
  [("variations of lattices", "src/wulfric/crystal/_sc_variation.py"), ("unique atoms of the primitive cell", PRIM)],
  "Inference of units of measure over the value graphs of results and of the conditions they depend on: every sum, comparison, minimum, rounding or transcendental function has to combine equal powers of the unit of length, results have to be of the documented power.",
  level="proof", technique="inference of units of measure (powers of length) over value graphs",
  note="The wulfric implementation of Niggli reduction, the lepage and POSCAR modules, figures and the comparison of spglib data with the given crystal (absolute tolerance) are not covered.")
P("C49", "Objects and errors of the package can be copied and pickled",
  "Errors of the package (ConventionNotSupported, NiggliReductionFailed, FailedToDeduceAtomSpecies, PotentialBugError) raised by its functions survive copy, deepcopy and pickle with the same class and text. "
  "Objects with syntactic sugar (SyntacticSugar) can be copied and pickled with the same items, empty or filled: look-up of a name that is not a key ends with AttributeError, for special names of Python as well. Attributes of Kpoints and SpglibData objects are plain values that can be copied and pickled.",
  ["programs"], "all errors the functions raise, special names of the copy protocol, attributes of the objects",
  "No test copies or pickles anything (multiprocessing does).",
  ["src/wulfric/_exceptions.py", "src/wulfric/_syntactic_sugar.py", KPC, "src/wulfric/_spglib_interface.py"],
  [("errors of the package", "src/wulfric/_exceptions.py"), ("syntactic sugar", "src/wulfric/_syntactic_sugar.py")],
  "The protocol of copies is applied to the analysed classes: arguments kept by every raised error have to be accepted by its constructor and give the same text; look-ups of special names are analysed; kinds of stored attributes are inspected.",
  level="other", technique="typestate of the copy protocol: abstract interpretation of constructors, attribute look-ups and stored values")
P("C48", "Errors of refused calls name what is refused and what is supported",
  "The text of the error of a refused call names the offending value and, where there are several, its place, and lists what is supported instead: unknown condition of compare_with_tolerance, convention (with exactly the conventions the called function supports), strategy, implementation, example, legend position or POSCAR mode; key, index and element of invalid atoms, amounts of inconsistent ones; subpath of a k-path, undefined point and all defined points, counts of names and labels, point that exists, n that is not integer; "
  "type of foreign spglib_data or of a non-dictionary; name without an element; which of cell, positions and types do not match spglib_data; symprec and angle tolerance for which spglib fails; number of iterations of Niggli reduction; file that is not found. The error of parallelepiped_check names exactly the conditions that are violated.",
  ["inputs"], "refused calls x offending values",
  "Tests check that an exception is raised, at most its class, never its text.",
  ["src/wulfric/geometry/_geometry.py", "src/wulfric/_exceptions.py", "src/wulfric/crystal/_crystal_validation.py", KPC, PAP, SPG, VASP],
  [("refusals of impossible parameters", "src/wulfric/geometry/_geometry.py")],
  "The text of every raised error is a value of the analysis; it is evaluated for the offending value and searched for the value, its place and the supported values; for parallelepiped_check the set of conditions named is compared with the set of violated ones at sampled points.",
  level="other", technique="abstract interpretation of the ways out by exceptions, evaluation of the texts of errors at sample points")
P("C50", "The command wulfric does what its argument says",
  "On the command line \"wulfric logo\" prints exactly the text of logo(), \"wulfric warranty\" the disclaimer of warranty, \"wulfric test\" runs the tests, \"wulfric --version\" (or -v, with or without a command) prints the version of the package and nothing else, \"wulfric\" alone prints the help. "
  "Unknown commands and options are refused.",
  ["inputs", "configurations"], "all forms of the command line",
  "Tests never run the command.",
  ["src/wulfric/__main__.py", PKG], [("entry point", "src/wulfric/__main__.py")],
  "The entry point is analysed for every form of the command line; arguments are parsed by the rules the analysed code declares, printed texts and calls are compared with the documented ones.",
  level="other", technique="abstract interpretation of the entry point over all declared commands")
P("C51", "Niggli reduction of every cell ends within the default number of passes",
  'For every non-degenerate cell get_niggli(implementation="wulfric") converges within the default number of passes.',
  ["inputs", "histories"], "all non-degenerate cells",
  "Tests reduce a handful of cells; the number of passes depends on the shape of the cell.",
  [NIG], [("limit of iterations", NIG)], "",
  na="The number of passes is a function of real metric parameters: for exact numbers the classical argument bounds it only by the skewness of the given cell (cells that need more passes than any fixed limit exist), and with round-off and eps the order of the sums that "
     "decreases cannot be bounded from the source. What one pass does, when the loop ends and the error at the limit are decided by C27.")
P("C52", "Floating-point error of results is below the tolerances for every input",
  "Round-off in returned cells, positions, k-points and angles stays below the tolerances for arbitrarily skewed, large or small cells.",
  ["inputs"], "all cells, including ill-conditioned ones",
  "Tests use well-conditioned cells.",
  ["src/wulfric/cell/_basic_manipulation.py", CONV, PRIM], [("inverse of the cell", CONV)], "",
  na="The bound is the condition number of the given cell (inverse matrices, arccos near 0 and 180 degrees), a runtime quantity which the source does not bound; the checks decide the real-number functions and the places where closeness is compared (C07, C22, C44), not round-off.")
P("C53", "The space group and standardised cell found by spglib are right",
  "The space group, Wyckoff data and standardised cell that spglib reports for a crystal are those of the crystal, also for positions with noise up to symprec.",
  ["inputs"], "all crystals",
  "Tests sample a few crystals.",
  [SPG], [("call of spglib", SPG)], "",
  na="They are computed by compiled third-party code that is not part of the repository; how the package calls it and what it does with every possible answer is decided by C15, C31 and C45.")
P("C54", "lepage() names the Bravais lattice type of every cell",
  "The deprecated function lepage() returns the Bravais lattice type of the lattice generated by the given cell.",
  ["inputs"], "all cells",
  "Tests use one cell per type.",
  ["src/wulfric/_lepage.py"], [("exclusion of pseudosymmetry axes", "src/wulfric/_lepage.py")], "",
  na="Its documentation withdraws the guarantee ('there is no guarantee of the correct behavior'), and the verdict is a history of floating-point ties (axes with equal deviations, determinants compared with ==) over runtime angles: no static decomposition into finitely many regions is in reach. "
     "It does not influence any other function; that it leaves its arguments alone is decided by C12.")
