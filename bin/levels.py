TECH = {"proof": "contract-based deductive verification: verification conditions generated from "
                 "/repo's source against sidecar contracts, discharged by SMT; run-time contract "
                 "evaluation for replay",
        "mixed": "contract-based deductive verification of the listed functions (SMT), run-time "
                 "contract evaluation on generated inputs (bounded) for the rest",
        "exploration": "contracts of the real functions evaluated at run time on generated inputs "
                       "(bounded stand-in for deductive verification)"}
DEFAULT = ("exploration", "Bounded: the contract is evaluated on the real code for generated and corner "
           "inputs; nothing is claimed beyond those inputs.")
_P = ("All obligations of %s are discharged for all inputs (unbounded), from /repo's current source; "
      "numpy/scipy calls are assumed contracts, float64 integers exact, float radii as reals. %s")
LEVELS = {
    "C01": ("proof", _P % ("add_mod_c, add_arrays_mod_c, inv_mod_p, multiply_mod_p",
                           "2-D add_arrays_mod_c and overflow of machine integers: bounded only.")),
    "C02": ("proof", _P % ("gauss_col and its callees", "Termination is argued by the loop variants where proved, otherwise bounded.")),
    "C03": ("proof", _P % ("solve_mod_p, solve_matrix_mod_p, gauss_col and callees", "")),
    "C04": ("proof", _P % ("gauss_col_rad, gauss_barcodes and callees",
                           "'No error when a combination exists' is proved under distinct pivots and otherwise bounded.")),
    "C05": ("proof", _P % ("vietoris_rips and _lower_neighbours",
                           "The step from the per-dimension extension scheme to the clique complex is a lemma.")),
    "C06": ("proof", _P % ("flag_complex and _lower_neighbours",
                           "The step from the per-dimension extension scheme to the clique complex is a lemma.")),
    "C07": ("proof", _P % ("complex_differentials", "d*d = 0 follows from the proved entries by a lemma.")),
    "C08": ("proof", _P % ("generate_cover, corners_hypercube, intersection_covers, next_hypercube and nerve_hypercube_cover",
                           "Coordinates are reals in the proof; rounding at cube faces is bounded only.")),
    "C09": ("proof", _P % ("next_hypercube, nerve_hypercube_cover and flag_complex",
                           "The step from the per-dimension extension scheme to the clique complex is a lemma.")),
    "C10": ("proof", _P % ("all methods of barcode_basis", "")),
    "C11": ("proof", _P % ("persistent_homology, gauss_col and callees, barcode_basis.__init__ and sort",
                           "The step from the reduced matrices to the ranks of the maps in homology (the barcode) is a lemma "
                           "checked by Lean, for columns in the order of their radii. Radii below the maximum radius, vertices "
                           "at radius zero, at least edges.")),
    "C14": ("proof", _P % ("all methods of local_chains", "")),
    "C18": ("proof", _P % ("all samplers", "Random generators are assumed to return values in their documented range, "
                           "and to be determined by the seed.")),
}
NOT_APPLICABLE = []
NOTES = ""
