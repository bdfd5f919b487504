"""Writes properties.jsonl (one place to edit the text)."""
import json, os
S = "src/permaviss/"
ARI, FUN, GAU = S+"gauss_mod_p/arithmetic_mod_p.py", S+"gauss_mod_p/functions.py", S+"gauss_mod_p/gauss_mod_p.py"
COV = S+"covers/cubical_cover.py"
BAR, PHC, IMK, MPH = (S+"persistence_algebra/"+x for x in ("barcode_bases.py", "PH_classic.py", "image_kernel.py", "module_persistence_homology.py"))
DIF, FLG, VR = (S+"simplicial_complexes/"+x for x in ("differentials.py", "flag_complex.py", "vietoris_rips.py"))
MVS, LOC, SPS = (S+"spectral_sequence/"+x for x in ("MV_spectral_seq.py", "local_chains_class.py", "spectral_sequence_class.py"))
EXA = S+"sample_point_clouds/examples.py"
P = []


def prop(id, title, statement, over, qtext, why, files, mech, observe=None, state=None):
    d = dict(id=id, title=title, statement=statement,
             quantifier=dict(over=over, text=qtext), why_tests_cant=why,
             anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech],
                          observe_at=observe or [], hook_needed=None))
    if state:
        d["anchors"]["state"] = [dict(name=n, meaning=m, where=w) for n, m, w in state]
    assert len(title) <= 80, title
    P.append(d)


prop("C01", "Modular arithmetic is exact for every integer and modulus",
     "Modular addition of integers and of integer arrays, and modular matrix multiplication, return for every operand the canonical representative in [0, c) of the exact integer result. Modular inversion returns, for every prime p and every integer a that is not a multiple of p (negative and larger than p included), the m in [0, p) with a*m = 1 mod p, and raises ValueError when a is a multiple of p.",
     ["inputs"], "all integers a, b, all moduli c >= 1, all primes p, all arrays and matrices of integers of compatible shape",
     "The tests evaluate a handful of small non-negative operands; negative operands, operands >= p and all the primes are out of their reach.",
     [ARI, FUN], [("add_mod_c / add_arrays_mod_c", ARI), ("extended Euclid in inv_mod_p", ARI), ("multiply_mod_p", FUN)],
     ["return values and raised exceptions"])
prop("C02", "Column reduction returns a genuine reduction R = A*T",
     "For every integer matrix A with at least one row and every prime p, the column reduction returns R and T with A*T = R mod p, where T is upper triangular with unit diagonal (only left-to-right column additions), all entries of R lie in [0, p), and no two nonzero columns of R share the index of their last nonzero entry. It always terminates, and it does not modify its argument.",
     ["inputs"], "all integer matrices (including zero columns, duplicated columns, entries outside [0, p)), all primes",
     "The tests reduce a few fixed matrices for p in {2, 5}; pivot collisions depend on the matrix and only a proof covers all of them.",
     [GAU, ARI], [("gauss_col", GAU), ("index_pivot", GAU), ("inv_mod_p", ARI)], ["returned R, T and the argument afterwards"])
prop("C03", "Linear solvers return a solution exactly when one exists",
     "Solving A*x = b mod p returns an x with entries in [0, p) satisfying the equation whenever the system is solvable, and raises ValueError whenever it is not. The matrix version does the same for all right-hand sides, which are given as the rows of its second argument and answered by the columns of the result.",
     ["inputs"], "all integer matrices and right-hand sides (reduced or not), all primes",
     "Solvability is a statement about all x; tests try few systems and hardly any unsolvable or rank-deficient one.",
     [FUN, GAU], [("solve_mod_p", FUN), ("solve_matrix_mod_p", FUN), ("gauss_col", GAU)], ["returned solution or ValueError"])
prop("C04", "Filtered reductions only use generators alive at the right radius",
     "When columns are written as combinations of earlier generators with birth radii, the returned transformation reproduces the original matrix product exactly, leaves the generators untouched, reduces every later column to zero and uses only generators whose birth radius is not larger than that of the column. In the version for generators with finite bars the coefficients reproduce each later column on all rows alive at that column's birth radius, using only generators alive at that radius; in both versions an error is raised rather than a wrong combination returned when none exists.",
     ["inputs"], "all matrices, radii and bars (rows and columns ordered), all start indices and primes",
     "The tests hold two or three small fixed examples with few distinct radii.",
     [GAU], [("gauss_col_rad", GAU), ("gauss_barcodes", GAU)], ["returned matrices and exceptions"])
prop("C05", "Vietoris-Rips complex is exactly the diameter-filtered clique complex",
     "For every symmetric distance matrix, radius bound r and dimension bound, the Vietoris-Rips construction returns for each dimension from 1 up to max(1, bound) every set of points of pairwise distance < r exactly once, as a row of increasing vertices, and nothing else, together with the number of vertices. The radius stored for each simplex is its diameter (0 for vertices), and in each dimension simplices are listed in non-decreasing radius.",
     ["inputs"], "all symmetric distance matrices, radii and dimension bounds, including empty and one-point clouds and tied distances",
     "Tests compare a few small clouds; omissions and duplicates depend on the whole adjacency pattern.",
     [VR], [("vietoris_rips", VR), ("_lower_neighbours", VR)], ["returned complex and radii"])
prop("C06", "Flag complex is exactly the clique complex of the graph",
     "For every graph given by its edges (each edge once, smaller vertex first) the flag complex lists in each dimension up to the bound every clique of the graph exactly once, with increasing vertices, and no other simplex; a negative dimension bound raises ValueError. The given graph is not modified.",
     ["inputs"], "all finite simple graphs and all dimension bounds",
     "Tests look at one or two nerves.",
     [FLG], [("flag_complex", FLG), ("_lower_neighbours", FLG)], ["returned complex"])
prop("C07", "Boundary matrices: right entries, and consecutive ones compose to zero",
     "For every simplicial complex given by rows of increasing vertices, closed under faces, the differential in each dimension d >= 1 has in the column of a simplex the coefficient +-1 mod p, canonical and with alternating sign by the position of the omitted vertex (one fixed global sign per dimension), exactly at its facets and zero elsewhere. Consecutive differentials multiply to zero mod p.",
     ["inputs"], "all complexes of every dimension, all orders of simplices, all primes including 2",
     "Tests check fixed small complexes.",
     [DIF], [("complex_differentials", DIF)], ["returned matrices"])
prop("C08", "The cubical cover covers the cloud and every small set lies in one cube",
     "For every point cloud, number of divisions and overlap >= 0, each cover element contains exactly the points in its closed enlarged cube, every point belongs to at least one cube, and any set of points whose spread in every coordinate is at most the overlap lies in a common cube. For each nerve simplex the returned point list is exactly the intersection of the cubes it names, in increasing order, with matching coordinates.",
     ["inputs", "configurations"], "all finite point clouds (including flat ones, single points and repeated points), all max_div >= 1, all overlaps",
     "The tests use two fixed clouds; whether small sets are contained depends on cube boundaries, extents and rounding.",
     [COV], [("generate_cover", COV), ("corners_hypercube", COV), ("intersection_covers", COV)], ["returned covers, identification numbers and nerve"])
prop("C09", "Cube enumeration visits every cube once; the nerve is that of the grid",
     "Stepping through cube positions from the origin visits every position of the grid exactly once in lexicographic order. The nerve returned for a grid has one vertex per cube in that order, its edges are exactly the pairs of cubes whose positions differ by at most one in every coordinate, and its higher simplices are exactly the cliques of that graph.",
     ["inputs", "configurations"], "all grids in every dimension",
     "Tests list a few small grids.",
     [COV, FLG], [("next_hypercube", COV), ("nerve_hypercube_cover", COV), ("flag_complex", FLG)], ["position lists, nerve"])
prop("C10", "Barcode bases: faithful filtering, ordering and radius queries",
     "A barcode basis keeps exactly the given bars with birth < death, in order, with their coordinates, and rejects ill-shaped coordinates or broken differentials with ValueError. Sorting permutes bars, coordinates and broken differentials consistently into non-decreasing birth and, for equal birth, non-increasing death (up to the rounding precision of the sort), and returns that permutation; the queries return exactly the indices alive, born or dying at a radius, the sorted distinct end points, and the matrix in which dying rows were replaced through the broken differentials mod p.",
     ["inputs"], "all finite bars, coordinates, radii, broken differentials",
     "Tests use a few small bases; boundary radii, ties and empty bases are sampled only by accident.",
     [BAR], [("barcode_basis.__init__", BAR), ("sort", BAR), ("active/birth/death", BAR), ("changes_list", BAR), ("update_broken", BAR)], ["attributes and return values"])
prop("C11", "Persistent homology of a filtered complex is computed exactly",
     "For every filtered simplicial complex given by its differentials and radii, and every prime p, the returned bars of degree 0 up to the top dimension are exactly the persistence barcode of the filtration truncated at the maximum radius. Each homology generator is a cycle mod p born at its radius, each image generator is a boundary, and the returned preimages map to the image generators under the differential.",
     ["inputs"], "all filtered complexes, radii (with ties), primes",
     "Tests check known spaces for two primes; barcodes are a property of the complete matrix.",
     [PHC, GAU, BAR], [("persistent_homology", PHC), ("gauss_col", GAU)], ["returned bases and matrices"])
prop("C12", "Image and kernel of a persistence morphism are computed exactly",
     "For every morphism between interval modules over F_p, given by a matrix respecting births and deaths, the returned image and kernel bars are the barcodes of the image and the kernel of the morphism. The coordinates of the image bars are the images of the returned preimages mod p at the birth radius, and kernel generators map to zero once they are born. Every generator is zero from the radius where its bar ends. With a start index the result is the image modulo the submodule generated by the images of the columns before it, and the image is also right in a codomain whose dying generators are replaced by combinations of others (broken basis). A matrix of the wrong shape is rejected with ValueError.",
     ["inputs"], "all well-defined morphisms, sorted or unsorted bases, all start indices, all broken bases, all primes",
     "Tests have a few hand-made matrices for p in {2, 3, 5}.",
     [IMK, BAR], [("image_kernel", IMK), ("pivot_check_reduce", IMK)], ["returned bases and preimages"])
prop("C13", "Homology of a chain complex of persistence modules is computed exactly",
     "For every chain complex of interval modules over F_p the returned bars in each degree are the barcode of kernel modulo image, with coordinates of representatives in the given basis, also when some of the modules are zero; a representative is a cycle from its birth on and a boundary where its bar ends. The returned images have the barcodes of the images of the differentials and are the images of the returned preimages. The quotient of a module by a submodule has the barcode of the quotient module; modules given in different bases are rejected with ValueError.",
     ["inputs"], "all chain complexes of interval modules, all primes",
     "Tests hold a few small complexes; zero modules and interacting bars are not reached.",
     [MPH, IMK], [("module_persistence_homology", MPH), ("quotient", MPH), ("image_kernel relative mode", IMK)], ["returned bases"])
prop("C14", "Local chain containers add, negate, combine and copy exactly",
     "Adding two families of local chains gives, at every index and reference, the sum of the coordinates (a missing reference counts as zero), negation negates mod p, and linear combinations agree with matrix multiplication of coefficients and coordinates, reference by reference. Copies share no state with the original, operands of additions and combinations are not modified, and inconsistent references and coordinates are rejected with ValueError.",
     ["inputs", "histories"], "all families of references and coordinates, all coefficient matrices, all sequences of operations",
     "Tests use a couple of examples with full references only.",
     [LOC], [("local_chains.__init__/add_entry/__add__/minus/sums/copy_seq", LOC)], ["ref and coord of results and operands"])
prop("C15", "The Cech double complex is consistent and representatives are cycles",
     "On every cover the Cech differential between intersections squares to zero, anticommutes with the local boundary maps as the total complex requires, and maps each simplex of an intersection to the same simplex in the larger sets. The total-complex representatives stored for every class of every page have vanishing total boundary mod p as far as they extend, except for the part that represents the next differential.",
     ["inputs", "configurations"], "all point clouds, covers, degrees and primes",
     "Tests check one torus and one sphere sample for one prime.",
     [SPS, LOC, DIF], [("local_cech_matrix", SPS), ("cech_diff_local", SPS), ("cech_diff_and_lift_local", SPS), ("compute_two_page_representatives / compute_higher_representatives", SPS)], ["page data of the returned object"])
prop("C16", "Mayer-Vietoris persistent homology equals the direct computation",
     "For every finite point cloud, maximum radius, dimension bound, prime and number of divisions, with overlap at least the maximum radius, the barcodes stored for each degree below the dimension bound are exactly those of the Vietoris-Rips complex of the entire cloud, and entry i of the result is degree i, also when some degree has no bars. The result does not depend on the number of worker processes nor on the order in which they finish.",
     ["inputs", "configurations", "schedules"], "all point clouds whose distinct pairwise distances differ by more than the sorting precision, all cover parameters with overlap >= max_r, all primes, all schedules of the worker pool",
     "Tests compare a few clouds with fixed seeds; extension problems and higher differentials appear only on special clouds.",
     [MVS, SPS, COV, PHC, IMK, MPH], [("create_MV_ss", MVS), ("extension", SPS), ("lift_to_page", SPS), ("Pool.map", MVS)], ["persistent_homology of the returned object"])
prop("C17", "The spectral sequence converges: last page counts match Betti numbers",
     "For every cloud and cover as in C16, the number of bars alive at a radius in the last page, summed over the positions of total degree n, equals the n-th Betti number of the Vietoris-Rips complex at that radius, for every n below the dimension bound. The recorded dimensions of every page agree with the stored bases, and every page is a subquotient of the previous one: at each radius and position the number of bars alive never increases from page to page.",
     ["inputs", "configurations"], "all clouds, covers, radii, primes as in C16",
     "Tests look at total counts for fixed clouds only.",
     [MVS, SPS, MPH], [("create_MV_ss page loop", MVS), ("add_output_first / add_output_higher", SPS), ("first_differential / high_differential", SPS)], ["Hom, page_dim_matrix of the returned object"])
prop("C18", "Sample point clouds have the promised shape, and subsampling is farthest-point",
     "Every sampler returns the requested number of points in the requested dimension, inside the promised set (circle, annulus, ball, sphere of the given radius, cube, grid nodes, torus), and the same points for the same seed where a seed is accepted. Subsampling returns min(k, n) distinct input points, each after the first being farthest from those already chosen.",
     ["inputs", "configurations"], "all sizes, radii, dimensions, seeds and random states",
     "Samplers are random; the tests plot or use them once.",
     [EXA], [("take_sample", EXA), ("circle, random_circle, ball, random_sphere, random_cube, grid, grid_tridimensional, torus3D", EXA)], ["returned arrays"])

if __name__ == "__main__":
    here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
    with open(os.path.join(here, "properties.jsonl"), "w") as f:
        for d in P:
            f.write(json.dumps(d) + "\n")
