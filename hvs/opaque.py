"""Functions that are compared on their own: at their call sites they are
uninterpreted, with the effects listed here."""

OPAQUE = {
    # random generators of the package
    "specsim": dict(params=["grid", "var", "corl", "selection_mask", "two_dim", "covmod"], draw=True, returns="array"),
    "get_alternating_facies": dict(params=["num_facies", "type_params"], draw=True, returns="array"),
    "ferguson_curve": dict(params=["grid", "h", "k", "ds", "eps_factor", "flow_angle", "domain_length", "xstart",
                                   "ystart", "width"], draw=True),
    # surfaces
    "ContactSurface": dict(params=["grid"], kwargs="kwargs", byid=("grid",)),
    ".use_lower_surface_value": dict(params=["other_surface"], byid=("other_surface",), eff="surf"),
    ".use_higher_surface_value": dict(params=["other_surface"], byid=("other_surface",), eff="surf"),
    # building blocks of the model
    "Stratum": dict(params=["bottom_surface", "top_surface", "params", "ae_types", "grid"],
                    byid=("bottom_surface", "top_surface", "grid"), eff="surf"),
    "AEType": dict(params=["ae_section", "name"]),
    "Grid": dict(params=["x0", "y0", "z0", "dx", "dy", "dz", "lx", "ly", "lz", "periodic"]),
    "Sheet": dict(params=["type_params", "bottom_surface", "top_surface", "grid"],
                  byid=("bottom_surface", "top_surface", "grid"), eff="surf"),
    "Trough": dict(params=["type_params", "x", "y", "z", "a", "b", "c", "alpha"]),
    "Channel": dict(params=["type_params", "x_center", "y_center", "vx", "vy", "z", "width", "depth", "grid"],
                    byid=("grid",)),
    "TroughAE": dict(params=["bottom_surface", "top_surface", "type_name", "type_params", "stratum", "grid"],
                     byid=("bottom_surface", "top_surface", "stratum", "grid"), eff="surf"),
    "ChannelAE": dict(params=["bottom_surface", "top_surface", "type_name", "type_params", "stratum", "grid"],
                      byid=("bottom_surface", "top_surface", "stratum", "grid"), eff="surf"),
    "SheetAE": dict(params=["bottom_surface", "top_surface", "type_name", "type_params", "stratum", "grid"],
                    byid=("bottom_surface", "top_surface", "stratum", "grid"), eff="surf"),
    ".generate_realization": dict(params=["bottom_surface", "top_surface", "stratum", "grid"],
                                  byid=("bottom_surface", "top_surface", "stratum", "grid"), eff="surf"),
    ".generate_objects": dict(params=["grid"], byid=("grid",), eff="objects", virtual=True, returns="none"),
    ".create_object_arrays": dict(params=[], eff="objects", virtual=True, returns="none"),
    ".maybe_assign_points_to_object": dict(
        params=["oi", "geo_ids", "angles", "x", "y", "z", "x_idx", "y_idx", "grid"], byid=("grid", "geo_ids", "angles"),
        mods=("geo_ids", "angles"), returns="none", virtual=True),
    "generate_trough_positions": dict(params=["bottom_surface", "top_surface", "type_params", "grid"],
                                      byid=("bottom_surface", "top_surface", "grid"), draw=True,
                                      returns="array"),
    "rand_trough_params": dict(params=["type_params", "z", "grid"], byid=("grid",), draw=True,
                               returns="array"),
    "assign_points": dict(params=["model"], byid=("model",), eff="model", returns="none"),
    "set_anisotropic_ktensor": dict(params=["ktensors", "k_iso", "azim", "dip", "anirat"], byid=("ktensors",),
                                    mods=("ktensors",), whole=("ktensors",), returns="none"),
    # run
    "create_outputs": dict(params=["model", "realization_dir", "runname", "formats"], byid=("model",), eff="model"),
    ".generate_model": dict(params=[], eff="model", returns="none"),
    ".generate_hydraulic_parameters": dict(params=["hydraulics"], eff="model", returns="none"),
    "run": dict(params=["inifile", "flag_ow"], eff="model", returns="none"),
    "setup_from_inifile": dict(params=["inifile", "flag_ow"], eff="model"),
    "set_up_directories": dict(params=["run", "inifile", "overwrite_old_output"], eff="fs"),
    "parameters": dict(params=["inifile"], eff="read"),
    "Model": dict(params=["model_dict", "strata_dict", "elements", "flowtrans_section"]),
    "parse_inifile": dict(params=["p"]),
    "parse_deprecated_inifile": dict(params=["p"]),
    "get_new_parameters_from_deprecated": dict(
        params=["run", "model", "strata", "hydraulics", "flowtrans", "elements"]),
    # option parsing
    "Section": dict(params=["name", "options"]),
    ".parse": dict(params=["section"], returns="array"),
    "numdim": dict(params=["l"]),
    "_get_shape": dict(params=["l"], returns="array"),
    "unroll": dict(params=["l"], returns="array"),
    "all_true": dict(params=["func", "l"]),
    "parse_list": dict(params=["string", "dtype"], returns="array"),
    "_expand_to_shape": dict(params=["shape", "value"], returns="array"),
    "parse_contact_model": dict(params=["param_list", "depth"], returns="array"),
    "parse_facies": dict(params=["facies_list", "hydrofacies"], returns="array"),
    # exporters
    "to_mat": dict(params=["model", "fname"], byid=("model",), eff="out"),
    "to_pickle": dict(params=["model", "fname"], byid=("model",), eff="out"),
    "to_npz": dict(params=["model", "fname"], byid=("model",), eff="out"),
    "to_hdf5": dict(params=["model", "fname"], byid=("model",), eff="out"),
    "to_vtr": dict(params=["model", "fname"], byid=("model",), eff="out"),
    "to_modflow": dict(params=["model", "fname"], byid=("model",), eff="out"),
    "to_mf6": dict(params=["model", "fname"], byid=("model",), eff="out"),
    "to_hgs": dict(params=["model", "fname"], byid=("model",), eff="out"),
}
