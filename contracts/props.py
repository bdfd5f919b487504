"""property -> functions under contract that its statement rests on."""
AR = "permaviss.gauss_mod_p.arithmetic_mod_p:"
GA = "permaviss.gauss_mod_p.gauss_mod_p:"
FU = "permaviss.gauss_mod_p.functions:"
BB = "permaviss.persistence_algebra.barcode_bases:barcode_basis."
LC = "permaviss.spectral_sequence.local_chains_class:local_chains."
EX = "permaviss.sample_point_clouds.examples:"
SC = "permaviss.simplicial_complexes."
CO = "permaviss.covers.cubical_cover:"
PH = "permaviss.persistence_algebra.PH_classic:"
PROPS = {
    "C01": [AR + "add_mod_c", AR + "add_arrays_mod_c", AR + "inv_mod_p", FU + "multiply_mod_p"],
    "C02": [AR + "add_arrays_mod_c", AR + "inv_mod_p", GA + "index_pivot", GA + "gauss_col"],
    "C03": [AR + "add_arrays_mod_c", AR + "inv_mod_p", GA + "index_pivot", GA + "gauss_col",
            FU + "solve_mod_p", FU + "solve_matrix_mod_p"],
    "C04": [AR + "add_arrays_mod_c", AR + "inv_mod_p", GA + "index_pivot", GA + "gauss_col_rad",
            GA + "gauss_barcodes"],
    "C05": [SC + "vietoris_rips:_lower_neighbours", SC + "vietoris_rips:vietoris_rips"],
    "C06": [SC + "flag_complex:_lower_neighbours", SC + "flag_complex:flag_complex"],
    "C07": [SC + "differentials:complex_differentials"],
    "C08": [CO + "corners_hypercube", CO + "intersection_covers", CO + "next_hypercube", CO + "nerve_hypercube_cover",
            SC + "flag_complex:_lower_neighbours", SC + "flag_complex:flag_complex", CO + "generate_cover"],
    "C09": [CO + "next_hypercube", CO + "nerve_hypercube_cover", SC + "flag_complex:_lower_neighbours",
            SC + "flag_complex:flag_complex"],
    "C10": [BB + m for m in ("__init__", "active", "birth", "death", "changes_list", "sort", "update_broken")],
    "C11": [AR + "add_arrays_mod_c", AR + "inv_mod_p", GA + "index_pivot", GA + "gauss_col", BB + "__init__", BB + "sort",
            PH + "persistent_homology"],
    "C14": [LC + m for m in ("__init__", "minus", "add_entry", "__add__", "sums", "copy_seq")],
    "C18": [EX + m for m in ("circle", "random_circle", "random_cube", "ball", "random_sphere", "torus3D",
                             "grid", "grid_tridimensional", "take_sample")],
}
MODULES = ["gauss", "barcode", "chains", "samples", "complexes", "covers", "homology"]
