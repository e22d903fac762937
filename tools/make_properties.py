"""Writes /verif/properties.jsonl (run by hand after editing)."""
import json, os
P = []
def p(id, title, statement, over, q, why, files, mech, observe=None):
    
    if len(title) > 80: print("LONG", id, len(title))
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": q}, "why_tests_cant": why, "anchors": a})

p("C01", "Wrapping, fractional coordinates and images form a consistent lattice algebra",
  "For every box (2D or 3D, any tilts, any per-axis periodicity) and every vector: wrapping changes a vector only by integer multiples of periodic lattice vectors and lands in the box along the periodic axes, is idempotent, and in fully periodic boxes is undone by unwrapping with the images reported for the original vector. Fractional and absolute coordinates are inverse affine maps determined by the lattice vectors, the reported images are the integer lattice offsets of a vector, and containment is true exactly for vectors whose fractional coordinates lie in the primary cell. Centering a periodic system wraps each point by lattice vectors after removing the (optionally mass-weighted) centre of mass, and wrapping in a periodic 2D box leaves z at zero.",
  ["inputs", "configurations"], "all boxes (Lx,Ly,Lz,xy,xz,yz,is2D), periodicity masks and finite vectors, including vectors many images away and exactly on faces",
  "Tests use a dozen fixed boxes and vectors; the algebra has to hold jointly over tilts, periodicity flags, far images and face points, and each operation has its own code path.",
  ["freud/box.py", "freud/box/Box.h", "freud/box/export-Box.cc"],
  [("Box::wrap / getImage / unwrap", "freud/box/Box.h"), ("makeFractional / makeAbsolute", "freud/box/Box.h"), ("Box.center, Box.contains", "freud/box.py")])
p("C02", "Pairwise distances and centre of mass obey the box's wrapping convention",
  "For every box and point sets, the one-to-one and all-pairs distances equal the length of the wrapped separation vector, are symmetric, and are unchanged when any point is moved by periodic lattice vectors. In orthorhombic (and cubic) periodic boxes this is the minimum-image distance. The periodic centre of mass is a point in the box that follows the mass-weighted circular mean along each lattice direction, is unaffected by image shifts and by permuting points with their masses, and scaling all masses changes nothing.",
  ["inputs"], "all boxes, point sets, masses and lattice shifts",
  "Tests compare a handful of point pairs in cubic boxes; asymmetry or tilt handling errors appear only for general boxes and image shifts.",
  ["freud/box.py", "freud/box/Box.h"],
  [("computeDistances / computeAllDistances", "freud/box/Box.h"), ("centerOfMass", "freud/box/Box.h")])
p("C03", "Box construction, editing and conversion describe the same box",
  "Constructing a box from another representation (box object, matrix, 2, 3 or 6 element array, dictionary, lengths and angles, object with attributes) and converting it back yields a box with the same lattice vectors, volume, dimensionality and tilt factors (from a box object: an equal box, including periodicity). Editing a property (L, Lx, Ly, Lz, tilt factors, dimensions, periodicity) yields a box whose whole behaviour equals that of a freshly constructed box with those values; scaling multiplies lengths only. Boxes are equal exactly when their lengths, tilts, dimensionality and periodicity agree, and the printed representation of a periodic box rebuilds an equal box.",
  ["inputs", "histories"], "all box parameter sets and edit sequences", 
  "Tests check single setters on fixed boxes; stale cached state after a sequence of edits (e.g. switching dimensionality on a tilted box) needs histories.",
  ["freud/box.py", "freud/box/Box.h"],
  [("from_box/from_matrix/from_box_lengths_and_angles/to_*", "freud/box.py"), ("setters", "freud/box/Box.h")])
p("C04", "Ball queries return exactly the pairs in range, for every search structure",
  "For every periodic 2D or 3D box, points and query points inside it, r_min, r_max below half the nearest plane distance and exclude_ii, a ball query returns each pair whose wrapped separation lies in [r_min, r_max) exactly once, and no other pair, with the pair's true wrapped distance. The answer is the same set whichever neighbor-search structure is used (tree, cell list, cell query or raw points) and however a structure is parameterised. Pairs with the same index are dropped only when exclude_ii is requested.",
  ["inputs", "configurations"], "boxes at and above the r_max < half-box limit, tilted boxes, clustered or boundary points, distinct query sets, all engines and cell widths",
  "Tests use random points in a few cubic boxes and compare engines to each other; an omission that depends on box shape, cell boundaries or r_max relative to the cell size is not sampled.",
  ["freud/locality.py", "freud/locality/AABBQuery.cc", "freud/locality/LinkCell.cc", "freud/locality/CellQuery.h", "freud/locality/NeighborQuery.h", "freud/locality/AABBTree.h"],
  [("AABBQueryBallIterator::next", "freud/locality/AABBQuery.cc"), ("LinkCellQueryBallIterator::next", "freud/locality/LinkCell.cc"), ("CellQuery iterators", "freud/locality/CellIterator.h"), ("IteratorLinkCell / cell indexing", "freud/locality/LinkCell.h")])
p("C05", "Nearest-neighbor queries return the k nearest, independent of search heuristics",
  "For every box, point set and query set, a nearest-neighbor query returns for each query point the k closest eligible points (fewer only if fewer exist within r_max), each at most once and in order of increasing distance, honouring exclude_ii, r_min and r_max. The answer does not depend on the search structure, on the initial search radius guess or on its growth factor.",
  ["inputs", "configurations"], "boxes, densities, k, r_guess, scale, r_min, r_max, exclude_ii, engines",
  "Tests use default guesses on fairly uniform systems; shell-growth termination errors need inhomogeneous points, anisotropic boxes or unusual guess/scale values.",
  ["freud/locality.py", "freud/locality/AABBQuery.cc", "freud/locality/LinkCell.cc", "freud/locality/NeighborQuery.h"],
  [("AABBQueryIterator::next", "freud/locality/AABBQuery.cc"), ("LinkCellQueryIterator::next", "freud/locality/LinkCell.cc"), ("r_guess / scale defaults", "freud/locality/NeighborQuery.h")])
p("C06", "Bonds in query results carry correct, self-consistent data",
  "In every neighbor list produced from a query, each bond has valid indices, its vector is the wrapped separation from the query point to the point, its distance is the vector's length, and weights are one unless set. Bonds are ordered by query point index and then point index (or by distance when requested), and the recorded numbers of query points and points, segments and neighbor counts match the query. Iterating over a query result yields the same bonds as converting it to a neighbor list, and for a set queried against itself the bonds of a ball query come in symmetric pairs with opposite vectors.",
  ["inputs", "configurations"], "boxes, point sets, query arguments, engines, sort modes",
  "Tests spot check vectors for one system; sign, ordering and bookkeeping errors that depend on wrapping or on empty query points are not covered.",
  ["freud/locality.py", "freud/locality/NeighborBond.h", "freud/locality/NeighborList.cc", "freud/locality/NeighborQuery.h"],
  [("NeighborQueryIterator::toNeighborList", "freud/locality/NeighborQuery.h"), ("NeighborBond ordering", "freud/locality/NeighborBond.h"), ("NeighborQueryResult", "freud/locality.py")])
p("C07", "NeighborList operations behave like operations on a plain list of bonds",
  "Through any sequence of constructing from arrays, filtering by mask, filtering by distance, sorting and copying, a neighbor list equals the list of bonds obtained by applying the same operations to a plain list: bonds keep their vector, distance and weight, order is preserved, and copies are independent. The neighbor counts, segments, first-index lookup, indexing and length always agree with the current bonds. The all-pairs constructor contains each pair once with vector and distance following the query-to-point convention, and invalid arrays (unsorted, out of range, mismatched lengths) are rejected.",
  ["histories", "inputs"], "operation sequences over neighbor lists, including empty lists and query points without bonds",
  "Tests check single operations on lists made from a random system; caches of counts and segments can go stale only across operation sequences.",
  ["freud/locality.py", "freud/locality/NeighborList.cc", "freud/locality/NeighborList.h", "freud/locality/export-NeighborList.cc"],
  [("NeighborList constructors", "freud/locality/NeighborList.cc"), ("filter / filter_r / find_first_index / updateSegmentCounts", "freud/locality/NeighborList.cc")])
p("C08", "Query objects and results do not depend on other queries or object lifetime",
  "A query result gives the same bonds no matter when or how often it is consumed, how its consumption interleaves with other queries on the same or other search structures, or whether the Python objects it was made from have since been deleted. Repeating a query on the same structure gives the same answer regardless of what was queried before.",
  ["histories", "schedules"], "interleavings of create/iterate/convert/delete operations over several search structures and query results",
  "Tests consume each result immediately; shared mutable state between live iterators or lifetime errors only show in interleaved histories.",
  ["freud/locality.py", "freud/locality/NeighborQuery.h", "freud/locality/CellQuery.h", "freud/locality/LinkCell.h", "freud/locality/AABBQuery.h"],
  [("NeighborQueryResult / iterators", "freud/locality.py"), ("CellQuery rebuild on r_max", "freud/locality/CellQuery.h"), ("per-point iterators", "freud/locality/NeighborPerPointIterator.h")])
p("C09", "Neighbor filters (SANN, RAD) implement their published selection rules",
  "For every system, the SANN filter keeps for each query point exactly the nearest m neighbors with m the smallest number satisfying the solid-angle criterion, and the RAD filter keeps exactly the neighbors not blocked by any closer neighbor (the closed variant stops at the first blocked one). The result is a subset of the unfiltered list with unchanged vectors and distances, and when the unfiltered list is too short to decide, the filter raises an error unless incomplete shells are allowed. The unfiltered list remains available unchanged.",
  ["inputs"], "random, clustered and lattice-like systems, both RAD modes, incomplete shells",
  "Tests cover a few crystals and counts; the selection rule is over all local geometries.",
  ["freud/locality.py", "freud/locality/FilterSANN.cc", "freud/locality/FilterRAD.cc", "freud/locality/Filter.h"],
  [("FilterSANN::compute", "freud/locality/FilterSANN.cc"), ("FilterRAD::compute", "freud/locality/FilterRAD.cc"), ("warnAboutUnfilteredQueryPoints", "freud/locality/Filter.h")])
p("C10", "The periodic buffer holds exactly the replicas in the requested shell",
  "For every box and point set, a buffer by distance holds exactly the periodic images (other than the original) that fall within the box expanded by the distance on each side, each once; a buffer by images holds exactly the images in the requested replication, and the originals are included only when requested. Every buffer point equals its original plus an integer combination of lattice vectors, buffer ids name the original, and the buffer box is the original scaled or expanded accordingly.",
  ["inputs", "configurations"], "2D/3D boxes with tilts, buffer widths, images mode, include_input_points",
  "Tests count replicas for a few boxes; tilts, multi-cell buffers and points on faces are not explored.",
  ["freud/locality.py", "freud/locality/PeriodicBuffer.cc"],
  [("PeriodicBuffer::compute", "freud/locality/PeriodicBuffer.cc")])
p("C11", "RDF equals the brute-force pair histogram with the stated normalisation",
  "For every system, bin edges and r_min/r_max, the RDF bin counts equal the number of neighbor pairs whose distance falls in each bin, g(r) equals those counts over the ideal-gas expectation for the shell volume (area in 2D) under the selected normalisation mode, and n_r is the running neighbor count per query point. Bin edges and centers describe evenly spaced bins covering exactly [r_min, r_max).",
  ["inputs", "configurations"], "2D/3D boxes, bins, r ranges, query sets, normalization modes, neighbor lists",
  "Tests compare against ideal gases with tolerance; a systematic per-bin or edge error is below that tolerance.",
  ["freud/density.py", "freud/density/RDF.cc", "freud/util/Histogram.h"],
  [("RDF::accumulateRDF / reduce", "freud/density/RDF.cc"), ("RegularAxis::bin", "freud/util/Histogram.h")])
p("C12", "Correlation function equals the brute-force bin average of value products",
  "For every system and complex or real values, each correlation bin holds the average over neighbor pairs in that distance bin of conj(value of the point) times value of the query point, zero in empty bins, and the bin counts equal the pair counts. The result is linear in the values.",
  ["inputs"], "systems, bins, complex values, query sets",
  "Tests use constant or symmetric values; conjugation, pairing and normalisation errors cancel there.",
  ["freud/density.py", "freud/density/CorrelationFunction.cc"],
  [("CorrelationFunction::accumulate / reduce", "freud/density/CorrelationFunction.cc")])
p("C13", "PMFTs histogram bond vectors in the documented local coordinates",
  "For every system, orientations and equivalent orientations, each PMFT (R12, XY, XYT, XYZ) assigns every neighbor bond to the bin given by its separation expressed in the documented local frame(s), its bin counts equal the brute-force counts, and the potential of mean force is minus the log of the pair correlation normalised by ideal density and bin volume. Orientations given as angles or as equivalent z-rotation quaternions give the same result.",
  ["inputs", "configurations"], "2D/3D systems, angles/quaternions (any sign), bins, equivalent orientations, query sets",
  "Tests place one or two particles with few orientations; sign and frame errors are symmetric under those.",
  ["freud/pmft.py", "freud/pmft/PMFTR12.cc", "freud/pmft/PMFTXY.cc", "freud/pmft/PMFTXYT.cc", "freud/pmft/PMFTXYZ.cc", "freud/pmft/PMFT.h"],
  [("accumulate of each PMFT", "freud/pmft/"), ("reduce", "freud/pmft/PMFT.h"), ("_quat_to_z_angle", "freud/pmft.py")])
p("C14", "Bond-order diagrams histogram bond directions over the sphere",
  "For every 3D system, orientations and mode (bod, lbod, obcd, oocd), each neighbor bond falls in exactly the (theta, phi) bin given by its direction in the mode's frame, the diagram equals counts divided by the bin's solid angle and the number of frames, and no bond is lost, including bonds along the poles.",
  ["inputs", "configurations"], "systems, bins, modes, orientations, query sets",
  "Tests check a few crystal peaks; frames and pole/edge bins are not systematically covered.",
  ["freud/environment.py", "freud/environment/BondOrder.cc"],
  [("BondOrder::accumulate / reduce", "freud/environment/BondOrder.cc")])
p("C15", "Accumulation over frames, resets and result reads compose correctly",
  "For every history of compute calls with or without reset on an accumulating analysis, the results equal those obtained from the frames since the last reset, independent of frame order and of whether intermediate results were read, and a compute with reset equals a fresh object. Result arrays handed out earlier keep their values when a later compute resets the object.",
  ["histories"], "sequences of compute(reset in {True, False}), reads and array captures over RDF, CorrelationFunction, PMFTs, BondOrder, LocalDensity-like and diffraction objects",
  "Tests do one fixed two-frame accumulation; stale partial sums after reset or lazily reduced results need histories.",
  ["freud/locality.py", "freud/locality/BondHistogramCompute.h", "freud/util/ManagedArray.h", "freud/util/ThreadStorage.h", "freud/util/Histogram.h", "freud/density/CorrelationFunction.cc", "freud/pmft/PMFT.h", "freud/diffraction.py", "freud/diffraction/StaticStructureFactor.h", "freud/environment/BondOrder.cc"],
  [("reset / reduce flags", "freud/locality/BondHistogramCompute.h"), ("SpatialHistogram._reset", "freud/locality.py"), ("frame counters", "freud/diffraction/StaticStructureFactorDebye.cc")])
p("C16", "Gaussian density and sphere voxelization grids equal direct evaluation",
  "In every orthorhombic periodic box, the Gaussian density at each cell equals the value-weighted sum of normalised Gaussians over all particles whose wrapped distance to the cell centre is below r_max, and a voxel is occupied exactly when some point lies within r_max of its centre. The grid has the requested shape and both grids move with the particles under lattice shifts.",
  ["inputs", "configurations"], "box lengths, 1D/2D/3D grid shapes, r_max relative to cell size and box, values, 2D and 3D",
  "Tests compare peak cells of one or two particles; coverage of the cut-off region across periodic boundaries and coarse grids is not sampled.",
  ["freud/density.py", "freud/density/GaussianDensity.cc", "freud/density/SphereVoxelization.cc"],
  [("GaussianDensity::compute", "freud/density/GaussianDensity.cc"), ("SphereVoxelization::compute", "freud/density/SphereVoxelization.cc")])
p("C17", "Local density counts neighbors with the documented edge interpolation",
  "For every system, r_max and diameter, the number of neighbors of each query point is the sum over neighbors of one when fully inside, a linear fraction when overlapping the boundary and zero beyond, and the density is that number over the area or volume of the r_max sphere.",
  ["inputs"], "2D/3D systems, r_max, diameters, query sets", 
  "Tests assert approximate density of a random gas only.",
  ["freud/density.py", "freud/density/LocalDensity.cc"],
  [("LocalDensity::compute", "freud/density/LocalDensity.cc")])
p("C18", "Clusters are exactly the connected components of the neighbor graph",
  "For every system and neighbor specification, two points share a cluster index exactly when they are connected through neighbor bonds; cluster indices are ordered by decreasing size, ties broken deterministically by smallest member, and cover 0..num_clusters-1. Cluster keys list for each cluster exactly the keys of its members.",
  ["inputs"], "systems, neighbor lists (asymmetric, self-bonds, isolated points), keys",
  "Tests use one fixed dumbbell-like system; union-find errors appear for specific merge orders.",
  ["freud/cluster.py", "freud/cluster/Cluster.cc"],
  [("Cluster::compute", "freud/cluster/Cluster.cc")])
p("C19", "Cluster properties equal direct evaluation per cluster",
  "For every box, cluster assignment (any labelling order, members spread over periodic boundaries) and masses, sizes, masses, geometric centers, centers of mass, gyration tensors, inertia tensors and radii of gyration of each cluster equal their definitions evaluated on that cluster's members only. Results do not depend on the order in which particles are listed or on image shifts.",
  ["inputs"], "cluster assignments interleaved among particles, masses, boxes",
  "Tests use contiguous clusters with equal masses; misattribution between clusters cannot show.",
  ["freud/cluster.py", "freud/cluster/ClusterProperties.cc"],
  [("ClusterProperties::compute", "freud/cluster/ClusterProperties.cc")])
p("C20", "The Debye static structure factor equals the pairwise Debye sum",
  "For every system and k range, S(k) equals the direct sum over all query-point/point pairs of the Debye kernel (sinc in 3D, J0 in 2D) over wrapped distances divided by the total particle count, averaged over accumulated frames, so the partial structure factors of all pairs of types sum to the total. k values are evenly spaced bin values within the requested range, and the minimum valid k is the smallest over the frames of 4 pi divided by the smallest box side.",
  ["inputs", "histories"], "2D/3D systems, k ranges, partials, frames",
  "Tests compare one random system to a reference; partial normalisations and multi-frame minimum k are pointwise.",
  ["freud/diffraction.py", "freud/diffraction/StaticStructureFactorDebye.cc", "freud/diffraction/StaticStructureFactor.h"],
  [("StaticStructureFactorDebye::accumulateStructureFactor", "freud/diffraction/StaticStructureFactorDebye.cc")])
p("C21", "Diffraction patterns have the transform's symmetry, normalisation and k mapping",
  "For every cubic-box system and view, the diffraction pattern is the squared Fourier amplitude of the projected and binned points divided by their number, smoothed by the requested peak width: each pixel holds the intensity at the wavevector reported for it, the value at zero wavevector is the particle count (also with weights) and the pattern is inversion symmetric. Averages over accumulated frames equal the mean of single-frame patterns, and reported k values and vectors match the output size and lie in the view plane.",
  ["inputs", "histories"], "grid sizes, zoom, peak widths, views, particle sets, frames",
  "Tests check a central peak and shapes; axis mapping and normalisation on general input are not settled.",
  ["freud/diffraction.py"],
  [("DiffractionPattern.compute", "freud/diffraction.py"), ("_calc_proj / _transform", "freud/diffraction.py")])
p("C22", "Angular separations and bond projections equal quaternion geometry",
  "For all orientations and equivalent orientations, neighbor angular separations (one per bond, in bond order) and global separations equal the minimal rotation angle between the query particle's and the neighbor's (or the particle's and the global reference's) orientation over the equivalent orientations; when these include both signs, as documented, angles lie in [0, pi], ignore quaternion signs and are zero for equivalent orientations. Local bond projections equal, per bond and projection direction, the maximal projection of the bond in the particle's local frame over equivalent directions, and normalised projections divide by bond length.",
  ["inputs"], "random unit quaternions, sign flips, equivalent orientation sets, distinct query sets of different size, neighbor lists",
  "Tests use a few rotations and identical point and query sets; index mix-ups need different sizes.",
  ["freud/environment.py", "freud/environment/AngularSeparation.cc", "freud/environment/LocalBondProjection.cc"],
  [("computeSeparationAngle / AngularSeparationNeighbor::compute", "freud/environment/AngularSeparation.cc"), ("computeMaxProjection", "freud/environment/LocalBondProjection.cc")])
p("C23", "The hexatic order parameter equals the weighted mean of bond phases",
  "For every 2D system, k and neighbor specification, each particle's hexatic order parameter equals the (optionally weight-) averaged exp(i k theta) over its neighbor bonds with theta the bond angle of the wrapped bond; its magnitude never exceeds one, and rotating the whole system by alpha multiplies it by exp(i k alpha).",
  ["inputs"], "2D systems incl. tilted boxes, k, weighted neighbor lists, isolated particles excluded",
  "Tests check perfect lattices where phases coincide.",
  ["freud/order.py", "freud/order/HexaticTranslational.cc"],
  [("HexaticTranslational::computeGeneral", "freud/order/HexaticTranslational.cc")])
p("C24", "Cubatic order outputs are mutually consistent and reproducible",
  "For every set of orientations, seed and annealing parameters, the reported cubatic order parameter, per-particle order, global tensor and tensor satisfy their definitions given the reported cubatic orientation (a unit quaternion), order is at most one and equals one for identical orientations, and the same seed gives the same result regardless of the number of threads and of previous computations. Equivalent cubic rotations of single particles leave the global tensor unchanged.",
  ["inputs", "configurations", "schedules"], "orientations, seeds, annealing parameters, thread counts",
  "Tests check one ordered and one disordered set; consistency between outputs and thread reproducibility quantify over inputs and schedules.",
  ["freud/order.py", "freud/order/Cubatic.cc"],
  [("Cubatic::compute and tensors", "freud/order/Cubatic.cc")])
p("C25", "Rotational autocorrelation equals the hyperspherical harmonic closed form",
  "For every l and pair of orientation sets, the per-particle rotational autocorrelation equals the closed form of the hyperspherical-harmonic sum at the relative rotation of each particle, the order is its mean over particles, it is one for identical orientations and depends only on the relative rotations.",
  ["inputs"], "even and odd l over the accepted range, orientation sets",
  "Tests cover l up to a few values on fixed data; overflow and term errors appear only for larger l.",
  ["freud/order.py", "freud/order/RotationalAutocorrelation.cc"],
  [("RotationalAutocorrelation::compute / hypersphere_harmonic", "freud/order/RotationalAutocorrelation.cc")])
p("C26", "Mean squared displacement equals its definition in both modes",
  "For every trajectory, images and box, the windowed MSD equals the average over all time origins and the direct MSD equals the displacement from the first frame, per particle and averaged over particles; computing with images equals computing on the unwrapped trajectory, and translation of the whole trajectory changes nothing. Accumulating particles over several calls equals one call with all particles.",
  ["inputs", "histories"], "trajectory lengths (incl. one frame), modes, images, accumulation",
  "Tests use linear trajectories for which windowed and direct results are simple.",
  ["freud/msd.py"],
  [("MSD.compute", "freud/msd.py")])
p("C27", "Generated lattices and random systems are correct crystals of the stated box",
  "For every unit cell, replica counts and scale, the generated system has basis size times replica count points, all inside the returned box, and every point equals a basis point plus lattice vectors (up to noise and centring wrap), so the generated crystal is invariant under unit-cell translations. Random systems have the requested number of points inside a cubic box of the requested length with z=0 in 2D, and both generators reproduce under the same seed.",
  ["inputs", "configurations"], "named and custom unit cells, non-uniform replica counts, scales, noise, seeds",
  "Tests check a few named lattices' neighbor counts.",
  ["freud/data.py"],
  [("UnitCell.generate_system", "freud/data.py"), ("make_random_system", "freud/data.py")])
p("C28", "The interface measurement finds exactly the particles touching the other set",
  "For every pair of point sets and neighbor specification, the interface point and query-point ids are exactly the sorted unique indices participating in a bond between the two sets, counts agree with the ids, and an empty interface is reported as empty.",
  ["inputs"], "two point sets in any box, cutoffs incl. none in range, neighbor lists",
  "Tests use one lattice arrangement.",
  ["freud/interface.py"],
  [("Interface.compute", "freud/interface.py")])
p("C29", "Results do not depend on the number of threads and repeat exactly",
  "For every analysis, computing the same input with any number of threads gives the same result (exactly for neighbor lists, indices and counts, up to floating-point summation error for sums), repeated computation gives the same result, and the thread-limiting context restores the previous setting. Recreating a compute object never changes its results.",
  ["schedules", "configurations", "inputs"], "thread counts, system sizes above parallel grain size, all compute classes",
  "Tests run with the default thread count; data races or thread-local accumulation errors show only for particular schedules and sizes.",
  ["freud/parallel.py", "freud/parallel/tbb_config.cc", "freud/util/ThreadStorage.h", "freud/util/utils.h", "freud/locality/NeighborComputeFunctional.h"],
  [("forLoopWrapper", "freud/util/utils.h"), ("ThreadStorage reductions", "freud/util/ThreadStorage.h"), ("NumThreads", "freud/parallel.py")])
p("C30", "Analyses are invariant under translation, image shifts and relabelling",
  "For every analysis of a periodic system, translating all particles together and wrapping them back into the box, and relabelling particles (permuting per-particle results accordingly) leaves results unchanged, and results computed from wrapped separations do not change when particles are moved by lattice vectors; rotation-invariant analyses are unchanged under axis permutations of the box and points.",
  ["inputs"], "systems, rigid translations, image shifts, permutations and axis permutations over all analyses",
  "Tests run analyses on wrapped, unshifted systems; invariances are relations between runs.",
  ["freud/locality", "freud/density", "freud/environment", "freud/order", "freud/cluster", "freud/pmft", "freud/diffraction"],
  [("wrapping of bond vectors", "freud/locality/NeighborQuery.h"), ("NeighborQuery", "freud/locality.py")])
p("C31", "All ways of specifying the same neighbors give the same analysis",
  "For every analysis that takes neighbors, passing an explicit neighbor list, the equivalent query arguments, or no specification where the default is documented as equivalent, and passing the system as a (box, points) pair or as any neighbor-search object, gives the same result. Only the bonds in the supplied neighbor list are used.",
  ["inputs", "configurations"], "analyses x neighbor specifications x system representations",
  "Tests check this for single analyses and systems.",
  ["freud/locality.py", "freud/locality/NeighborComputeFunctional.cc", "freud/locality/NeighborComputeFunctional.h"],
  [("_PairCompute._preprocess_arguments / _make_default_nq", "freud/locality.py"), ("loopOverNeighbors / makeDefaultNlist", "freud/locality/NeighborComputeFunctional.h")])
p("C32", "Invalid input is rejected cleanly, valid input is not modified, access is gated",
  "For every input, a call either completes with a well-formed result or raises a Python exception: it never crashes the process or reads out of bounds, and non-finite coordinates, wrong shapes, wrong dimensionality and inconsistent lengths are rejected. Caller-owned arrays are never modified, array-like inputs of other dtypes or memory layouts give the same result as contiguous single-precision arrays, and computed attributes raise before the first compute. A failed compute does not prevent a later correct compute.",
  ["inputs", "fault_sequences", "histories"], "malformed and boundary arguments to every public call, then recovery",
  "Tests check selected error messages; never-crash and not-mutated are universally quantified.",
  ["freud/util.py", "freud/locality.py", "freud/box.py", "freud/errors.py"],
  [("_convert_array", "freud/util.py"), ("_Compute", "freud/util.py"), ("_validate_query_args", "freud/locality.py")])
p("C33", "Voronoi tessellation and continuous coordination equal their definitions",
  "For every periodic box and set of distinct points, the Voronoi cells tile the box: their volumes are positive and sum to the box volume, each polytope's vertices are equidistant to its own point and the nearest others, and the neighbor list holds one bond per face, with the face area as weight, the separation to the right periodic image as vector, and a symmetric partner. Continuous coordination numbers equal their definitions on those cells.",
  ["inputs"], "2D and 3D boxes of any tilt, point sets down to a single point, lattices and clustered points",
  "Tests sample crystals and small random systems; small cells, self images and tilted boxes take separate paths.",
  ["freud/locality.py", "freud/locality/Voronoi.cc", "freud/order/ContinuousCoordination.cc", "freud/order.py"],
  [("Voronoi::compute", "freud/locality/Voronoi.cc"), ("ContinuousCoordination::compute", "freud/order/ContinuousCoordination.cc")])
p("C34", "Native code is memory safe and returns for every input",
  "No public call reads or writes memory out of bounds, after it was freed or through a null pointer, divides integers by zero or indexes a container out of range, and none runs forever, whatever the coordinates (including NaN and infinite ones), arrays, sizes (including none and one), bonds, query arguments and parameters are and whatever was called before: it returns a result with one entry per particle, bond or bin, or raises a Python exception.",
  ["inputs", "histories"], "all public calls with ordinary and hostile arguments, and histories of calls",
  "An out-of-bounds read usually goes unnoticed in an ordinary build and needs a particular size, tie or non-finite value to occur; tests run a few valid inputs without memory checking.",
  ["freud/locality/LinkCell.cc", "freud/locality/NeighborList.cc", "freud/util/Histogram.h", "freud/util/ManagedArray.h", "freud/locality/AABBTree.h"],
  [("NeighborQuery::validateQueryArgs", "freud/locality/NeighborQuery.h"), ("Axis::bin", "freud/util/Histogram.h"), ("LinkCell::getCellIndex", "freud/locality/LinkCell.h"), ("loopOverNeighbors", "freud/locality/NeighborComputeFunctional.h")])
p("C35", "Steinhardt and solid-liquid order parameters equal their definitions",
  "For every neighbor list (weighted or not, including bonds to periodic images), Steinhardt's ql, averaged ql, wl and normalised wl equal the values defined by the spherical harmonics of the bond vectors, are unchanged by rotating all bonds, and qlm are the (weighted) mean harmonics. The solid-liquid analysis forms its bonds from the (normalised) products of qlm against the threshold, counts them per particle and reports the connected components of solid particles.",
  ["inputs", "configurations"], "all neighbor lists, l and option combinations, reused objects",
  "Tests check tabulated crystals for a few l; weights, averages, odd l and degenerate neighborhoods combine freely.",
  ["freud/order.py", "freud/order/Steinhardt.cc", "freud/order/SolidLiquid.cc", "freud/order/Wigner3j.cc"],
  [("Steinhardt::compute", "freud/order/Steinhardt.cc"), ("reduceWigner3j", "freud/order/Wigner3j.cc"), ("SolidLiquid::compute", "freud/order/SolidLiquid.cc")])
p("C36", "The nematic order parameter is the largest eigenvalue of the orientation tensor",
  "For any non-empty set of orientation vectors, the particle tensors are those of the normalised vectors, the nematic tensor is their mean, the order parameter is its largest eigenvalue and the director a unit eigenvector for it. Lengths, signs, order and repetition of the vectors change nothing, and rotating the vectors rotates the tensors.",
  ["inputs"], "all sets of non-zero vectors",
  "Tests check perfectly aligned and a few tilted vectors.",
  ["freud/order.py", "freud/order/Nematic.cc"],
  [("Nematic::compute", "freud/order/Nematic.cc")])
p("C37", "Local descriptors are the spherical harmonics of bonds in the stated frame",
  "For every system and orientation mode, the local descriptors hold, for each bond considered, the spherical harmonics up to l_max of its direction in the global frame, the query particle's frame, or the frame of the neighborhood's inertia tensor. The bonds are the first max_num_neighbors of each query point, all if no limit is set, and the stated number of descriptors matches.",
  ["inputs", "configurations"], "systems, query points, modes, l_max, negative_m, neighbor limits",
  "Tests check shapes and one reference system.",
  ["freud/environment.py", "freud/environment/LocalDescriptors.cc"],
  [("LocalDescriptors::compute", "freud/environment/LocalDescriptors.cc")])
p("C38", "Environment clusters and motif matches follow the stated matching rule",
  "Two environments match exactly when they have equal size and their vectors can be paired within the threshold (with registration: after one rotation); environment clusters are the connected components of the matching pairs compared, motif matches are reported exactly for the particles whose environments match the motif, and reported point environments are permutations (up to the rotation) of the particle's own neighbor vectors. Cluster environments are the means of their members', and nothing remains of a previous compute.",
  ["inputs", "histories"], "environments of equal and different sizes, permutations, rotations, comparison lists, reused objects",
  "Tests use crystals and a few hand-made motifs; the union-find merges with carried permutations depend on the order of comparisons.",
  ["freud/environment.py", "freud/environment/MatchEnv.cc", "freud/environment/Registration.h"],
  [("EnvDisjointSet::merge", "freud/environment/MatchEnv.cc"), ("isSimilar / minimizeRMSD", "freud/environment/MatchEnv.cc"), ("registration", "freud/environment/Registration.h")])
p("C39", "The direct structure factor averages the amplitudes of all k vectors in range",
  "For every 3D periodic box, the k vectors used are reciprocal lattice vectors with non-negative indices in [k_min, k_max], each at most once and, when not sampled, all of them; S(k) in each bin is the mean over those k vectors and frames of the (partial) structure factor of the points. Sampling keeps about the requested number of k vectors.",
  ["inputs", "histories"], "boxes of any tilt, points, query points, k ranges, bins, frames of equal and different boxes",
  "Tests use cubic boxes and compare to one reference; tilted boxes take other limits of the sums.",
  ["freud/diffraction.py", "freud/diffraction/StaticStructureFactorDirect.cc"],
  [("reciprocal_isotropic", "freud/diffraction/StaticStructureFactorDirect.cc"), ("accumulate / reduce", "freud/diffraction/StaticStructureFactorDirect.cc")])
p("C40", "Objects keep their parameters and print as expressions that rebuild them",
  "For every analysis class and valid constructor arguments, the parameter attributes return the given values, the histogram axes (numbers, edges, centers and bounds of bins) are the equidistant ones given by them, and the printed representation evaluates to an object that prints the same and computes the same results. Computing changes none of these.",
  ["inputs", "configurations"], "all classes with a printed form and their valid parameters",
  "Tests compare the printed form of two default objects; lost or exchanged parameters need an object computed with non-default ones.",
  ["freud/density.py", "freud/pmft.py", "freud/order.py", "freud/environment.py", "freud/diffraction.py", "freud/msd.py", "freud/locality.py", "freud/util/Histogram.h"],
  [("__repr__ of the classes", "freud/density.py"), ("RegularAxis", "freud/util/Histogram.h"), ("_SpatialHistogram properties", "freud/locality.py")])
p("C41", "Parameters out of range are rejected, those in range are accepted",
  "For every class, function and query argument: a call raises an error if one of its scalar parameters (cutoffs, numbers of bins, ranges of k, box lengths and angles, modes, degrees, temperatures, replica counts, buffer sizes, masks, query arguments, the dimensionality of the box) lies outside of the documented range, and returns if all of them are inside, including the ends of the ranges. A rejected call leaves accumulated results alone.",
  ["inputs", "configurations"], "one invalid parameter at a time, next to other valid parameters drawn at random",
  "Tests try one invalid value of some parameters; checks that overlook one axis, one end of a range or one search structure need a systematic table.",
  ["freud/density.py", "freud/pmft.py", "freud/order.py", "freud/diffraction.py", "freud/box.py", "freud/data.py", "freud/locality.py", "freud/locality/NeighborQuery.h", "freud/pmft/PMFT.h", "freud/util/Histogram.h"],
  [("validateQueryArgs", "freud/locality/NeighborQuery.h"), ("constructors", "freud/density/RDF.cc"), ("from_box", "freud/box.py")])
p("C42", "Plots show the data of the object",
  "For every class with a plot method (and freud.plot's functions): the lines, bars, images, polygons and points drawn on the axes have the coordinates and values of the object's results (with the documented normalization, orientation and colors), labels and titles are those given, the given axes are used, and the PNG representation decodes to an image of the figure.",
  ["inputs", "configurations"], "all classes with plots, non-square bins, and options (axes, titles, colormaps, scales)",
  "Tests only call plot(); a picture that is transposed, shifted or of other data needs its artists compared with the results.",
  ["freud/plot.py", "freud/density.py", "freud/pmft.py", "freud/diffraction.py", "freud/cluster.py", "freud/box.py", "freud/locality.py", "freud/data.py"],
  [("plot functions", "freud/plot.py"), ("to_image", "freud/diffraction.py")])
with open("/verif/properties.jsonl", "w") as f:
    for x in P:
        f.write(json.dumps(x) + "\n")
print(len(P))
