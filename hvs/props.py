"""The properties: text, where they are anchored, and what is decided for each.

`funcs` are the functions whose observables are compared with the reference
semantics in /verif/spec; `rules` are the structural rules of rules.py.
"""

OP = "hyvr/input/option_parsing.py"
OPT = "hyvr/input/options.py"
OPTD = "hyvr/input/options_deprecated.py"
PAR = "hyvr/input/parameters.py"
CSU = "hyvr/geo/contact_surface_utils.py"
CS = "hyvr/geo/contact_surface.py"
GRID = "hyvr/geo/grid.py"
MODEL = "hyvr/geo/model.py"
STRAT = "hyvr/geo/stratum.py"
AER = "hyvr/geo/ae_realization.py"
AET = "hyvr/geo/ae_types.py"
ASSIGN = "hyvr/assign_points.py"
SHEET = "hyvr/geo/sheet.py"
SHAE = "hyvr/geo/sheet_ae.py"
TR = "hyvr/geo/trough.pyx"
TRAE = "hyvr/geo/trough_ae.pyx"
TRU = "hyvr/geo/trough_utils.py"
CH = "hyvr/geo/channel.pyx"
CHAE = "hyvr/geo/channel_ae.pyx"
CHU = "hyvr/geo/channel_utils.py"
OPTI = "hyvr/optimized.py"
UT = "hyvr/utils.py"
OUT = "hyvr/postprocess/output.py"
SIM = "hyvr/sim.py"
MAIN = "hyvr/__main__.py"


def F(mod, *names):
    return [mod + "." + n for n in names]


o = "hyvr.input.option_parsing"
p = "hyvr.input.parameters"
out = "hyvr.postprocess.output"

PROPS = []


def prop(id, title, statement, over, qtext, why, anchors, mech, funcs, rules=(), na=None):
    PROPS.append(dict(id=id, title=title, statement=statement, over=over, qtext=qtext, why=why, files=anchors,
                      mech=mech, funcs=funcs, rules=list(rules), na=na))


prop("C01", "Every option is accepted, defaulted or rejected as declared",
     "For every section of a parameter file, an option that is given is converted to its declared type and accepted "
     "exactly when it satisfies the declared restriction, a missing optional one takes exactly its declared default, "
     "and a missing required one is an error that names it. An option may be given under a declared alternative name, "
     "the main name winning when both are present; booleans are true/yes/false/no in any case or an integer, anything "
     "else is an error. An unknown option only causes a warning and changes nothing else.",
     ["inputs", "configurations"],
     "all parameter-file sections: any set of given options, any text as value, any order",
     "The tests parse five fixed sections; the accept/reject decision ranges over all texts and all combinations of "
     "present and absent options.",
     [OP], [("option lookup, default, conversion, validation", OP + ": Option.parse"),
            ("section loop and unknown-option warning", OP + ": Section.parse"),
            ("boolean syntax", OP + ": parse_bool"), ("required options", OP + ": assert_exists")],
     F(o, "Option.parse", "Option.__init__", "Section.parse", "Section.__init__", "parse_bool", "assert_exists",
       "all_true", "parse_list"), ["exceptions", "handlers"])

prop("C02", "List options come out in their declared shape or are rejected",
     "A list option given as a scalar or as a shorter nesting is expanded so that the result has exactly the declared "
     "shape, where a dimension may be a number, the length of another option or free, and a whole shape may be "
     "copied from another option. A value that already has the declared shape is returned unchanged, element for "
     "element and in order. A value whose shape contradicts the declared one, or that cannot be expanded "
     "unambiguously, is rejected, never truncated, padded or reordered.",
     ["inputs"], "all nested list values and all declared shapes",
     "The tests try a handful of shapes; nesting depth, lengths and raggedness are unbounded.",
     [OP], [("shape resolution and expansion", OP + ": Option.parse"),
            ("shape algebra", OP + ": get_shape, try_flattening_shape, get_positive_shape, expand_shape, "
             "expand_to_shape, compare_shapes"), ("list syntax", OP + ": parse_list")],
     F(o, "Option.parse", "numdim", "_get_shape", "get_shape", "is_flat", "try_flattening_shape",
       "get_positive_shape", "unroll", "expand_shape", "expand_to_shape", "_expand_to_shape", "compare_shapes",
       "all_true", "parse_list"))

prop("C03", "Option tables offer exactly what the model implements",
     "Each section of a parameter file offers exactly the documented options, with the documented type, requiredness, "
     "default, shape and restriction. Every value of a restricted option (output formats, structures, geometries, "
     "heterogeneity levels) that is accepted is implemented further down, and every implemented one is accepted. "
     "Every option the model reads from a section is one that section declares or the program itself sets.",
     ["configurations"], "all options of all sections, current and deprecated format",
     "The tests define their own small option table and never touch the real ones.",
     [OPT, OPTD, OUT, TR, SHEET, CH, AET],
     [("option tables", OPT + ": options"), ("deprecated option tables", OPTD + ": options"),
      ("format dispatch", OUT + ": create_outputs"), ("geometry dispatch", AET + ": AEType.generate_realization")],
     F("hyvr.geo.ae_types", "AEType.__init__", "AEType.generate_realization") + F(out, "create_outputs"),
     ["options_new", "options_old", "choices", "consumed"])

prop("C04", "Parameter files are cross-checked and facies names resolved",
     "Reading a parameter file in the current format fails when a required section is missing, when the number of "
     "contact models is not one less than the number of strata, when a flow-model output is requested without a "
     "flow section, when an element has no or an unknown geometry, or when a layered structure lacks its layer "
     "distance. Every facies name, in strata, elements, alternating facies, backgrounds and lags, becomes the index "
     "of that name in the list of hydrofacies, and an unknown name is an error. A missing cell height or width takes "
     "the cell length, and an element without background or lag says so rather than pointing at a facies.",
     ["inputs", "configurations"], "all parameter files in the current format",
     "No test reads a whole parameter file.",
     [PAR], [("sections and cross checks", PAR + ": parse_inifile"), ("name resolution", PAR + ": parse_facies")],
     F(p, "parse_inifile", "parse_facies") + F(o, "assert_exists"), ["exceptions", "handlers"])

prop("C05", "Old-format parameter files mean the same model",
     "A parameter file in the old format is recognised as such and translated to the current terms: outputs, "
     "overwrite flag, hydrofacies, heterogeneity, anisotropy, strata, backgrounds, contact models, lags and layer "
     "distances keep their values under the new names, the old geometry and structure names map to the new ones, and "
     "unset ones become 'no background' and 'no lag'. Anything the current version no longer supports is rejected "
     "with an error instead of being dropped.",
     ["inputs", "configurations"], "all parameter files in the old format",
     "No test reads an old-format file.",
     [PAR, OPTD], [("translation", PAR + ": get_new_parameters_from_deprecated"),
                   ("old contact models", PAR + ": parse_old_strata_contact_model, parse_old_elem_contact_model"),
                   ("old sections", PAR + ": parse_deprecated_inifile"), ("old options", OPTD + ": options")],
     F(p, "get_new_parameters_from_deprecated", "parse_old_strata_contact_model", "parse_old_elem_contact_model",
       "parse_deprecated_inifile", "get_new_facies_list", "parameters"), ["options_old"])

prop("C06", "Contact models are parsed completely or rejected",
     "A contact model is either flat or random, in any letter case; a random one takes exactly variance and the two "
     "correlation lengths in that order, a flat one nothing, and where a depth is required it comes first. Any other "
     "keyword or number of values is an error.",
     ["inputs"], "all contact model lists, with and without depth",
     "No test parses a contact model.",
     [CSU, PAR], [("contact model parser", CSU + ": parse_contact_model"),
                  ("old format", PAR + ": parse_old_strata_contact_model, parse_old_elem_contact_model")],
     F("hyvr.geo.contact_surface_utils", "parse_contact_model") +
     F(p, "parse_old_strata_contact_model", "parse_old_elem_contact_model", "parse_inifile"))

prop("C07", "Run names and directories follow from the parameter file",
     "The run directory is the model directory joined with the run name; the model directory defaults to the "
     "directory of the parameter file and the run name to the file name without its extension. Starting from an "
     "automatically written backup uses the directory it lies in and the original run name. Each run leaves a backup "
     "of its parameters in the run directory, under a name from which it can be rerun.",
     ["inputs", "histories"], "all parameter file paths, run names and model directories",
     "No test derives a run directory.",
     [PAR], [("derivation", PAR + ": parameters"), ("backup", PAR + ": set_up_directories")],
     F(p, "parameters", "set_up_directories", "setup_from_inifile"))

prop("C08", "Old results are only removed on request, only in the run directory",
     "An existing run directory is emptied only if the caller, or failing that the parameter file, asks for it; an "
     "explicit answer of the caller takes precedence over the file, and without permission the run stops before "
     "anything is deleted or written. Nothing outside the run directory is ever removed, and nothing is removed or "
     "overwritten anywhere else in the program except the temporary directory of the built-in test case.",
     ["histories", "configurations", "inputs"],
     "all states of the disk, flags, run names; all functions of the package",
     "No test runs the directory set-up; confinement is a statement about every function of the package.",
     [PAR, SIM], [("permission and clean-up", PAR + ": set_up_directories"),
                  ("temporary run directory", PAR + ": set_up_directories; " + SIM + ": run")],
     F(p, "set_up_directories", "setup_from_inifile") + F("hyvr.sim", "run"), ["destructive", "cli"])

prop("C09", "The grid covers the domain with cell centres",
     "Cell centres along each axis start half a cell after the origin and are one cell size apart up to the end of "
     "the domain, and the numbers of cells are the numbers of centres. The coordinate arrays give, at index (i,j,k), "
     "the i-th x, j-th y and k-th z centre; the centred ones are the same with the middle of the domain moved to "
     "zero. Both implementations of the grid agree.",
     ["inputs"], "all origins, cell sizes and domain lengths",
     "No test builds a grid and checks its coordinates.",
     [GRID, "hyvr/geo/grid.pyx", MODEL], [("grid", GRID + ": Grid.__init__"), ("use", MODEL + ": Model.__init__")],
     F("hyvr.geo.grid", "Grid.__init__") + F("hyvr.geo.grid!pyx", "Grid.__init__") +
     F("hyvr.geo.model", "Model.__init__"), [])

prop("C10", "Contact surfaces have their requested shape and stay ordered",
     "A flat contact surface has its given height everywhere; a random one is that height plus a two-dimensional "
     "Gaussian random field of the requested variance and correlation lengths; any other kind is an error. Limiting "
     "a surface by a lower one takes the smaller height at each column and limiting by a higher one the larger, the "
     "other surface is never changed, and the recorded lowest or highest point is updated.",
     ["inputs", "histories"], "all surfaces, columns and sequences of limiting operations",
     "No test builds a contact surface.",
     [CS, UT], [("construction", CS + ": ContactSurface.__init__"),
                ("limits", CS + ": use_lower_surface_value, use_higher_surface_value")],
     F("hyvr.geo.contact_surface", "ContactSurface.__init__", "ContactSurface.use_lower_surface_value",
       "ContactSurface.use_higher_surface_value"))

prop("C11", "Strata fill the domain from top to bottom without gaps",
     "A model consists of one stratum per configured stratum, listed from the top; the topmost begins at the top of "
     "the domain, the lowest ends at its bottom, and each stratum's top is exactly the bottom of the one above, "
     "limited so that it never lies above it. Each stratum takes its own contact model, element types, "
     "probabilities, thicknesses, avulsion and background, the last entries of the file belonging to the top.",
     ["configurations", "inputs"], "all numbers of strata and all contact models",
     "No test generates a model.",
     [MODEL], [("stacking", MODEL + ": Model.generate_model"), ("set-up", MODEL + ": Model.__init__")],
     F("hyvr.geo.model", "Model.generate_model", "Model.__init__", "Model.generate_ae_types") +
     F("hyvr.geo.contact_surface", "ContactSurface.use_lower_surface_value"))

prop("C12", "Architectural elements fill their stratum and stay inside it",
     "Within a stratum, elements are stacked from its top until its bottom is reached: each element's top is the "
     "bottom of the one above, its type is drawn with the configured relative probabilities, its thickness around "
     "the configured mean of that type, shifted by avulsion with the configured probability and range. The bottom of "
     "an element is shaped by the contact model of the type below it, never above its own top nor below the bottom "
     "of the stratum, and the last one ends exactly there. The recorded vertical extents enclose all elements.",
     ["inputs", "configurations"], "all strata, probabilities and random sequences",
     "No test generates a stratum; the loop runs an input-dependent number of times.",
     [STRAT], [("stacking", STRAT + ": Stratum.__init__"), ("type choice", STRAT + ": prob_choose")],
     F("hyvr.geo.stratum", "Stratum.__init__", "prob_choose") +
     F("hyvr.geo.contact_surface", "ContactSurface.use_lower_surface_value",
       "ContactSurface.use_higher_surface_value"))

prop("C13", "An element realisation describes its objects faithfully",
     "The geometry of an element type decides which kind of element is built. Every object added to an element is "
     "kept in order, the element's vertical extent encloses all of its objects, and the per-object tables used for "
     "assigning cells repeat the objects' own values, entry by entry. The element's own background facies, azimuth "
     "and dip are used where given and those of the stratum otherwise.",
     ["inputs", "configurations"], "all elements, any number of objects including none",
     "No test builds an element realisation.",
     [AER, AET, SHAE, TRAE, CHAE],
     [("common tables", AER + ": AERealization._create_common_object_arrays"), ("extent", AER + ": _add_object"),
      ("backgrounds", AER + ": AERealization.__init__"), ("dispatch", AET + ": AEType.generate_realization"),
      ("tables per kind", SHAE + ", " + TRAE + ", " + CHAE + ": create_object_arrays")],
     F("hyvr.geo.ae_realization", "AERealization.__init__", "AERealization._create_common_object_arrays",
       "AERealization._add_object", "AERealization.generate_objects", "AERealization.create_object_arrays",
       "AERealization.maybe_assign_points_to_object") +
     F("hyvr.geo.ae_types", "AEType.__init__", "AEType.generate_realization") +
     F("hyvr.geo.sheet_ae", "SheetAE.create_object_arrays") +
     F("hyvr.geo.trough_ae", "TroughAE.create_object_arrays") +
     F("hyvr.geo.channel_ae", "ChannelAE.create_object_arrays"))

prop("C14", "Every cell belongs to the uppermost thing that contains it",
     "Each grid cell is assigned to the first stratum, element and object, going from top to bottom, that contains "
     "its centre; a cell inside an element but in none of its objects gets the element's background. Facies, azimuth, "
     "dip, element, object, element type and stratum number of one cell always come from that same assignment, and "
     "each cell's entry is at that cell's own index. Cells are independent: the result for one column does not depend "
     "on what was found in another.",
     ["inputs"], "all cells of all models",
     "No test assigns cells.",
     [ASSIGN, SHAE, TRAE, CHAE],
     [("search", ASSIGN + ": assign_points, maybe_assign_points_to_stratum, maybe_assign_points_to_ae"),
      ("membership", SHAE + ", " + TRAE + ", " + CHAE + ": maybe_assign_points_to_object")],
     F("hyvr.assign_points", "assign_points", "maybe_assign_points_to_stratum", "maybe_assign_points_to_ae") +
     F("hyvr.geo.sheet_ae", "SheetAE.maybe_assign_points_to_object") +
     F("hyvr.geo.trough_ae", "TroughAE.maybe_assign_points_to_object") +
     F("hyvr.geo.channel_ae", "ChannelAE.maybe_assign_points_to_object"))

prop("C15", "Element, object and type numbers identify things uniquely",
     "Elements are numbered consecutively from zero from the top of the model downwards, objects likewise across the "
     "whole model, and no number is used twice within one realisation. The numbers written to the cells are those of "
     "the element and object the cell belongs to, minus one standing for 'no object'; element types carry the "
     "position of their name in the configured list.",
     ["configurations", "inputs"], "all models",
     "No test numbers anything.",
     [MODEL, PAR, ASSIGN, AER], [("numbering", MODEL + ": Model.generate_model"),
                                 ("type ids", PAR + ": setup_from_inifile"),
                                 ("transfer", ASSIGN + ": maybe_assign_points_to_ae")],
     F("hyvr.geo.model", "Model.generate_model") + F(p, "setup_from_inifile") +
     F("hyvr.assign_points", "assign_points", "maybe_assign_points_to_stratum", "maybe_assign_points_to_ae") +
     F("hyvr.geo.ae_realization", "AERealization.__init__", "AERealization._create_common_object_arrays") +
     F("hyvr.geo.sheet_ae", "SheetAE.maybe_assign_points_to_object") +
     F("hyvr.geo.trough_ae", "TroughAE.maybe_assign_points_to_object") +
     F("hyvr.geo.channel_ae", "ChannelAE.maybe_assign_points_to_object"))

prop("C16", "Sheets fill their element in lenses of the given thickness",
     "A sheet element is filled from its top by sheets of the configured lens thickness, scaled by the size trend, or "
     "by a single sheet, each sheet's top being the bottom of the one above and the last ending at the element's "
     "bottom. A cell belongs to a sheet exactly when its centre lies between the sheet's surfaces. A massive sheet "
     "has one facies; a dipping one has parallel layers of the configured distance, oriented by its azimuth and dip, "
     "with as many layers as needed for every cell of the domain.",
     ["inputs", "configurations"], "all sheet elements and all cells",
     "The sheet test cannot be run and samples one sheet.",
     [SHEET, SHAE, "hyvr/geo/sheet.pyx", "hyvr/geo/sheet_ae.pyx"],
     [("sheet", SHEET + ": Sheet.__init__"), ("stacking", SHAE + ": SheetAE.generate_objects"),
      ("membership", SHAE + ": SheetAE.maybe_assign_points_to_object")],
     F("hyvr.geo.sheet", "Sheet.__init__") + F("hyvr.geo.sheet!pyx", "Sheet.__init__") +
     F("hyvr.geo.sheet_ae", "SheetAE.create_object_arrays", "SheetAE.generate_objects",
       "SheetAE.maybe_assign_points_to_object") +
     F("hyvr.geo.sheet_ae!pyx", "SheetAE.create_object_arrays", "SheetAE.generate_objects",
       "SheetAE.maybe_assign_points_to_object"))

prop("C17", "Troughs are half ellipsoids with the configured internal structure",
     "Troughs are placed on planes one aggradation apart between the element's top and its buffered bottom, with the "
     "configured density, or moved from the plane above by the configured migration, or where the user puts them, "
     "from top to bottom. A cell belongs to a trough exactly when it lies in the lower half of the ellipsoid with the "
     "configured length, width and depth (scaled by the size trend) and paleoflow direction, wrapped around in "
     "periodic domains. Lag, massive, dipping and bulb structures give the facies and angles of their layer, the "
     "random structure being one of the others.",
     ["inputs", "configurations"], "all trough elements and all cells",
     "The trough test cannot be run and samples one trough.",
     [TR, TRAE, TRU], [("positions and sizes", TRU + ": generate_trough_positions, rand_trough_params"),
                       ("trough", TR + ": Trough.__init__"),
                       ("membership and structure", TRAE + ": TroughAE.maybe_assign_points_to_object")],
     F("hyvr.geo.trough", "Trough.__init__") +
     F("hyvr.geo.trough_ae", "TroughAE.create_object_arrays", "TroughAE.generate_objects",
       "TroughAE.maybe_assign_points_to_object") +
     F("hyvr.geo.trough_utils", "generate_trough_positions", "rand_trough_params") +
     F("hyvr.optimized", "sign"))

prop("C18", "Channels are parabolic incisions along their centreline",
     "Channels are placed on planes one aggradation apart between the element's top and its buffered bottom, with "
     "the configured number per plane, width and depth (scaled by the size trend), and start upstream of the domain "
     "across its whole width. The centreline follows the configured second-order autoregressive direction model, is "
     "turned to the flow angle and cut to the domain. A cell belongs to a channel exactly when it lies above the "
     "parabola of the channel's width and depth at its distance from the centreline and not above the channel top; "
     "lag, massive and dipping fills give the facies and angles of their layer.",
     ["inputs", "configurations"], "all channel elements and all cells",
     "No test generates a channel.",
     [CH, CHAE, CHU, OPTI], [("centreline", CHU + ": ferguson_curve, ferguson_theta, thetaAR2"),
                             ("resampling", OPTI + ": curve_interp"),
                             ("placement", CHAE + ": ChannelAE.generate_objects"),
                             ("membership", CHAE + ": ChannelAE.maybe_assign_points_to_object"),
                             ("channel", CH + ": Channel.__init__")],
     F("hyvr.geo.channel", "Channel.__init__") +
     F("hyvr.geo.channel_ae", "ChannelAE.create_object_arrays", "ChannelAE.generate_objects",
       "ChannelAE.maybe_assign_points_to_object") +
     F("hyvr.geo.channel_utils", "ferguson_curve", "ferguson_theta", "thetaAR2") +
     F("hyvr.optimized", "curve_interp"))

prop("C19", "Layers draw their facies from the allowed successors",
     "The facies of the first layer of a layered object is drawn from the element's facies; every further layer is "
     "drawn from the alternatives listed for the facies of the layer before it, or from the element's facies when no "
     "alternatives are given. Exactly as many layers as requested are filled, and only facies of these lists ever "
     "appear.",
     ["inputs"], "all numbers of layers, facies lists and random sequences",
     "No test draws layer facies.",
     [UT, SHEET, TR, CH], [("layer facies", UT + ": get_alternating_facies")],
     F("hyvr.utils", "get_alternating_facies") + F("hyvr.geo.sheet", "Sheet.__init__") +
     F("hyvr.geo.trough", "Trough.__init__") + F("hyvr.geo.channel", "Channel.__init__"))

prop("C20", "Hydraulic parameters follow each cell's facies, element and object",
     "Without heterogeneity, or at facies level, each cell has exactly the conductivity, porosity and anisotropy of "
     "its facies. With internal heterogeneity, each object's facies and each element's background get their own "
     "log-normal conductivity and normal porosity field with that facies' mean, variance and correlation lengths, "
     "written to those cells only. Element trends scale exactly the cells of their element and global trends all "
     "cells, along the right axis and applied to the right quantity.",
     ["inputs", "configurations"], "all facies distributions, heterogeneity settings and trends",
     "No test generates hydraulic parameters.",
     [MODEL], [("assignment", MODEL + ": Model.generate_hydraulic_parameters")],
     F("hyvr.geo.model", "Model.generate_hydraulic_parameters", "Model.__init__"))

prop("C21", "Conductivity tensors are the rotated anisotropic conductivity",
     "The conductivity tensor of every cell is symmetric, has the cell's conductivity in the plane of its bedding "
     "and that conductivity divided by the anisotropy ratio across it, the plane being given by the cell's azimuth "
     "and dip. Azimuth and dip of the cells are given in degrees and each cell's tensor stands at its own index.",
     ["inputs"], "all conductivities, angles and ratios, all cells",
     "No test computes a tensor.",
     [OPTI, MODEL], [("tensor", OPTI + ": set_anisotropic_ktensor"),
                     ("call", MODEL + ": Model.generate_hydraulic_parameters")],
     F("hyvr.optimized", "set_anisotropic_ktensor") +
     F("hyvr.geo.model", "Model.generate_hydraulic_parameters"), ["ktensor"])

prop("C22", "Random fields have the requested covariance model and mean zero",
     "A random field is generated spectrally: white noise shaped by the square root of the power spectrum of the "
     "requested covariance (Gaussian or exponential; any other is an error) with the requested variance and the "
     "correlation length of each axis. Only the mean is removed, so realisations have mean zero. With a selection "
     "mask the field is generated on the smallest box around the selected cells and exactly those cells' values are "
     "returned.",
     ["inputs"], "all grids, variances, correlation lengths and masks, two- and three-dimensional",
     "The only test samples one field and does not run here.",
     [UT], [("spectral simulation", UT + ": specsim")],
     F("hyvr.utils", "specsim"))

prop("C23", "Each requested output is written with all model data",
     "For each requested format, in any combination, exactly one file set of that format is written to the "
     "realisation's directory under the run name. The array formats (mat, pickle, npz, hdf5) contain every model "
     "array under its name with its values unchanged. A missing optional library skips that format with a warning "
     "and leaves the others; any other failure is reported, an unknown format is an error.",
     ["configurations", "fault_sequences"], "all lists of formats, all model data, missing libraries",
     "No test writes an output.",
     [OUT], [("dispatch", OUT + ": create_outputs"), ("formats", OUT + ": to_mat, to_pickle, to_npz, to_hdf5, to_vtr")],
     F(out, "create_outputs", "to_mat", "to_pickle", "to_npz", "to_hdf5", "to_vtr", "to_modflow", "to_mf6", "to_hgs"),
     ["choices", "exceptions", "handlers"])

prop("C24", "MODFLOW models have the geometry and boundaries of the HyVR model",
     "The MODFLOW models have one layer, row and column per cell in z, y and x, layers counted from the top, with "
     "the right cell sizes, top and layer bottoms, and every property array is reordered accordingly. Fixed heads, "
     "from given heads or from the gradient, are at the first and last column of every layer and row, wells only "
     "where an inflow is given, and start heads run between inlet and outlet. Vertical conductivity is the "
     "horizontal one divided by the anisotropy ratio.",
     ["configurations", "inputs"], "all grids and all combinations of boundary conditions",
     "No test writes a MODFLOW model.",
     [OUT], [("modflow 2005", OUT + ": to_modflow"), ("modflow 6", OUT + ": to_mf6")],
     F(out, "to_modflow", "to_mf6"))

prop("C25", "HydroGeoSphere and VTK files carry the right cell values",
     "The HydroGeoSphere files list, for each cell numbered from one in the order of the arrays, the three diagonal "
     "entries of its conductivity tensor followed by the xy, xz and yz entries, and its porosity. The VTK file has "
     "the cell boundaries, one more than cells in each direction starting at the origin, and all scalar model arrays "
     "as cell data.",
     ["inputs"], "all grids and model data",
     "No test writes either format.",
     [OUT], [("HydroGeoSphere", OUT + ": to_hgs"), ("VTK", OUT + ": to_vtr")],
     F(out, "to_hgs", "to_vtr"))

prop("C26", "A run produces exactly the requested realisations",
     "A run performs exactly the configured number of realisations, each with a newly generated model, its cells "
     "assigned before hydraulic parameters are generated and before outputs are written. Hydraulic parameters are "
     "generated exactly when requested. Several realisations go to separate numbered directories, a single one to "
     "the run directory itself, and the built-in test case removes its temporary directory.",
     ["configurations", "histories"], "all run settings",
     "No test performs a run.",
     [SIM, PAR, MODEL], [("realisation loop", SIM + ": run"), ("set-up", PAR + ": setup_from_inifile")],
     F("hyvr.sim", "run") + F(p, "setup_from_inifile") + F("hyvr.geo.model", "Model.generate_model"),
     [])

prop("C27", "Results depend only on the inputs and numpy's random state",
     "All randomness comes from numpy's global random state, which the program never seeds or replaces, so a user "
     "who seeds it gets the same realisations again. Nothing else that varies between runs of the same inputs "
     "(time, hash order of sets, process or directory listing order, object addresses) influences the model data.",
     ["histories", "configurations"], "all runs; all functions of the package",
     "A test cannot show that two runs always agree.",
     [UT, STRAT, SHEET, TR, CH, CHU, TRU], [("random draws", "numpy.random calls throughout hyvr")],
     F("hyvr.geo.stratum", "prob_choose", "Stratum.__init__") +
     F("hyvr.utils", "specsim", "get_alternating_facies") + F("hyvr.geo.sheet", "Sheet.__init__") +
     F("hyvr.geo.trough", "Trough.__init__") + F("hyvr.geo.channel", "Channel.__init__") +
     F("hyvr.geo.channel_utils", "ferguson_theta") +
     F("hyvr.geo.trough_utils", "generate_trough_positions", "rand_trough_params") +
     F("hyvr.geo.channel_ae", "ChannelAE.generate_objects"), ["entropy"])

prop("C28", "No code path stops at an unknown name",
     "Whatever options are chosen, no part of the program stops because a function, module, class, attribute or "
     "variable it uses does not exist: every name is defined on every path before its use, every module function and "
     "every library function used exists, and every attribute that is read from an object of the model is set "
     "somewhere.",
     ["configurations", "programs"], "all functions and all paths through them",
     "The tests import a fraction of the modules; a misspelt name shows only on the path that uses it.",
     ["hyvr/"], [("module and library names", "all modules"), ("local names", "all functions"),
                 ("attributes", "all classes")],
     [], ["names", "cimports", "locals", "attributes", "arity"])

prop("C29", "The command line passes its arguments on and reports failure",
     "The command line runs the given parameter file, or the built-in test case without one; the overwrite flag "
     "forces overwriting and its absence leaves the decision to the parameter file. A failing run ends with a "
     "message on the error output and a non-zero exit status, never with success.",
     ["inputs", "fault_sequences"], "all command lines and all failures of a run",
     "No test uses the command line.",
     [MAIN], [("command line", MAIN)], [], ["cli", "exceptions", "handlers"])

prop("C30", "Generated random fields statistically match their covariance",
     "Over many realisations the sample covariance of generated fields converges to the requested covariance at every "
     "lag.",
     ["inputs"], "all grids and covariance models", "A test samples a few realisations.",
     [UT], [("spectral simulation", UT + ": specsim")], [],
     na="a statement about a distribution over runtime values; the structural part (which spectrum multiplies which "
        "noise) is C22")
prop("C31", "Cells are never lost to rounding of cell counts",
     "For every combination of origin, cell size and length that divides evenly, the number of cells along an axis is "
     "exactly the quotient.",
     ["inputs"], "all floating point origins, sizes and lengths", "Depends on rounding for particular values.",
     [GRID], [("cell centres", GRID + ": Grid.__init__")], [],
     na="depends on floating-point rounding of particular runtime values, which the real-number value graphs do not "
        "model")
prop("C32", "Search shortcuts never skip an object that contains the cell",
     "The vertical ordering and the marks for columns that need not be checked never exclude an object that contains "
     "the cell.",
     ["inputs"], "all objects and cells", "No test assigns cells.",
     [ASSIGN, CHAE], [("shortcuts", ASSIGN + ": maybe_assign_points_to_ae"), ("marks", CHAE)], [],
     na="needs an inductive invariant relating distances and vertical extents of all objects at run time; no static "
        "argument in reach bounds them")
prop("C33", "The backup parameter file reproduces the run",
     "Running from the backup gives the same parameters as running from the original file.",
     ["inputs", "histories"], "all parameter files", "No test writes a backup.",
     [PAR], [("backup", PAR + ": set_up_directories")], [],
     na="round trip through the standard library's configuration reader and writer over all texts; the structural "
        "parts (what is read, what is written, where) are C07 and C08")

prop("C34", "Cross sections show the requested plane",
     "A cross-section plot shows, for a requested position along an axis, the values of exactly the cells whose "
     "centre along that axis is nearest to that position, with the remaining two axes along the plot's horizontal and "
     "vertical directions.",
     ["inputs"], "all grids, axes, positions and parameters",
     "No test plots anything.",
     ["hyvr/postprocess/plotting.py"],
     [("slicing and plotting", "hyvr/postprocess/plotting.py: cross_section_pcolor")],
     F("hyvr.postprocess.plotting", "cross_section_pcolor"), [])

BY_ID = {q["id"]: q for q in PROPS}
