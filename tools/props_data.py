LVL = "seeded simulation of whole histories against an independent exact reference model; not exhaustive. "

prop("H01", "The hypothesis store holds exactly what was added and answers queries exactly",
     "A hypothesis store contains exactly the hypotheses that were put into it, whatever container they came from and "
     "whichever copies were made in between, and never shares its membership with a copy or with the caller's container. "
     "Listing by type and year returns exactly the members of that type established by that year (derived and classical "
     "results always, conjectures and undated results never), and searching by type, value, keywords and year returns a "
     "member that matches every given criterion whenever one exists. An interrupted addition leaves a state between before "
     "and after, and concurrent additions are all kept.",
     ["histories", "inputs", "schedules", "fault_sequences"],
     "All histories of creating, copying, adding, listing, searching and iterating over any number of aliased stores, all "
     "interleavings of concurrent callers, and interruptions at any step.",
     "No test builds a store at all; membership depends on aliasing between copies, on the container form and on hash order.",
     ["hypotheses.py", "reference.py"],
     [("membership and copies", "hypotheses.py Hypothesis_Set"), ("year and type filter", "hypotheses.py Hypothesis.is_match")],
     LVL + "A set-valued model tracks every store; each listing, search, copy and iteration is compared with it.")

prop("H02", "Results a hypothesis store precomputes always match its current members",
     "The convex hulls that a hypothesis store keeps for its bounds on mu and for its exponent pairs always equal the hull "
     "of the members the store has now, no matter in which order queries, additions and copies happened before, which of "
     "the two hulls was asked for last, or whether an earlier computation was interrupted. Every vertex of the hull is "
     "attributed to a result that proves it from members of the store.",
     ["histories", "inputs", "fault_sequences", "schedules"],
     "All histories of additions, copies and hull-using queries over one or more stores, with solver failures and "
     "interruptions inside any of them.",
     "A stale cache needs a particular sequence of query, addition, copy and query; the tests never query one store twice.",
     ["hypotheses.py", "exponent_pair.py", "bound_mu.py"],
     [("validity flag and cached data", "hypotheses.py Hypothesis_Set.data_valid"),
      ("hull of exponent pairs", "exponent_pair.py compute_convex_hull"), ("hull of bounds on mu", "bound_mu.py compute_mu_hull")],
     LVL + "After every operation the two hulls are queried and compared with an exact rational hull of the model's members.")

prop("M01", "The best bounds on mu are exactly what the available hypotheses imply",
     "The best upper bound on the growth exponent mu at a point, and over an interval, is exactly the smallest value that "
     "follows from the available bounds by convexity, the functional equation and the trivial and exponent-pair-derived "
     "bounds: never smaller (unsound) and never larger (not the best). A proof is produced exactly when the claimed bound "
     "follows, states the claimed bound, and depends only on available or trivial facts that together imply it. An "
     "interrupted or failed query can be repeated and then gives the same answer.",
     ["inputs", "histories", "fault_sequences"],
     "All sets of bounds on mu and exponent pairs, all points and intervals, and all histories of additions and queries with "
     "interruptions and solver failures.",
     "Only fixed literature examples are ever evaluated; no test calls the mu routines.",
     ["bound_mu.py", "exponent_pair.py", "hypotheses.py"],
     [("lower hull and interpolation", "bound_mu.py best_mu_bound"), ("piecewise bound", "bound_mu.py best_mu_bound_piecewise"),
      ("proof construction", "bound_mu.py prove_mu_bound")],
     LVL + "Values are compared with an exact rational lower hull at the breakpoints and between them.")

prop("E01", "An exponent pair is provable exactly when the derivable pairs imply it",
     "For a set of exponent pairs and transforms, a proof of an exponent pair is produced exactly when the pair lies in the "
     "convex hull of the pairs the transforms derive (with the trivial pairs), whatever the preference among proofs, and "
     "its dependencies are genuinely a point, segment or triangle of available pairs containing it. Every derived pair is "
     "obtained from a member by the transforms its proof names and is itself a valid exponent pair, and pairs of the store "
     "stand as they are. When proofs are asked "
     "for by date or complexity the returned proof is no later or no longer than the other proofs considered.",
     ["inputs", "histories", "fault_sequences"],
     "All sets of rational exponent pairs and subsets of the transforms, all targets inside, on and outside the hull, and all "
     "histories of queries with interruptions and solver failures.",
     "One test derives a handful of pairs from the trivial ones; hull membership, degeneracy and proof choice are untested.",
     ["exponent_pair.py", "literature.py", "transform.py", "hypotheses.py"],
     [("closure under transforms", "exponent_pair.py compute_exp_pairs"), ("proof as convex combination", "exponent_pair.py construct_proof"),
      ("choice among proofs", "exponent_pair.py find_best_proof")],
     LVL + "Membership is decided by an exact rational hull; proofs are checked by replaying the transforms.")

prop("B01", "The best bound on beta is the exact lower envelope of the available bounds",
     "Over the requested range of alpha the computed best bounds on beta form disjoint pieces which together cover exactly "
     "what the available bounds cover, and at every point the value is the smallest of the available bounds there. Every "
     "piece is attributed to a bound that really gives that value on the whole piece. The given hypotheses are not changed, "
     "and an interrupted computation can be repeated.",
     ["inputs", "histories", "fault_sequences", "schedules"],
     "All finite sets of affine bounds with arbitrary rational slopes and open, closed, nested, overlapping or degenerate "
     "domains, given directly or through exponent pairs, and concurrent or interrupted computations.",
     "The two affine tests cannot even be collected; the crossing, touching and half-open cases are untested.",
     ["bound_beta.py", "functions.py", "exponent_pair.py"],
     [("piecewise minimum", "functions.py Piecewise.max_with/min_with"), ("best beta bounds", "bound_beta.py compute_best_beta_bounds")],
     LVL + "The envelope is evaluated exactly at every breakpoint and crossing and between each two of them.")

prop("P01", "All representations of a polytope describe the same set in any query order",
     "A polytope built from constraints, from points or from box limits contains exactly the points it should, and its "
     "vertices, edges, centroid, constraints, printed form and copies all describe that same set. This holds in any order of "
     "queries, because representations are computed lazily and cached, and after a query that failed or was interrupted. "
     "A copy never changes with the original.",
     ["inputs", "histories", "fault_sequences"],
     "All rational polytopes in small dimension, degenerate, empty and flat ones included, and all orders of queries with "
     "solver failures and interruptions inside them.",
     "Tests ask one fixed polytope one question; stale caches need a particular order of queries or an interruption.",
     ["polytope.py"],
     [("lazy vertex and edge representation", "polytope.py get_vertices/get_edges"), ("construction from points", "polytope.py from_V_rep")],
     LVL + "Vertices, edges and membership are recomputed by brute-force enumeration.")

prop("P02", "Decisions about polytopes and their set operations are exact",
     "Emptiness (with and without boundary), full dimension, containment of one polytope in another or in a union of others, "
     "and equality are decided exactly for rational polytopes. Intersection is exactly the common part, set difference is a "
     "disjoint cover of exactly what remains, and the union of polytopes is returned exactly when it is convex, up to "
     "boundaries. The operands are left as they were, even when the solver fails part-way.",
     ["inputs", "histories", "fault_sequences"],
     "All rational polytopes in small dimension, degenerate and unbounded ones where the operation supports them, all "
     "sequences of operations reusing results, and failures inside them.",
     "Fixed examples cannot reach the degenerate, touching and flat positions where these decisions go wrong.",
     ["polytope.py"],
     [("convex union", "polytope.py try_union"), ("difference", "polytope.py set_minus"),
      ("emptiness and containment", "polytope.py is_empty/is_subset_of/is_covered_by")],
     LVL + "Every decision is recomputed by exact vertex enumeration and cell decomposition.")

prop("P03", "Maps of polytopes give exactly the image",
     "Substituting values for variables, projecting onto some dimensions, lifting into more dimensions, scaling axes and "
     "testing against a hyperplane give exactly the slice, shadow, cylinder, scaled copy or answer of the set, also for flat "
     "polytopes and for results of other operations. The results answer emptiness, vertex and containment queries as any "
     "other polytope does, and the operand is left as it was.",
     ["inputs", "histories", "fault_sequences"],
     "All rational polytopes in small dimension and all substitutions, projections, liftings and scalings of them, chained, "
     "with solver failures and interruptions inside them.",
     "The derived regions of the database pass through long chains of these maps; tests apply one map to one box.",
     ["polytope.py"],
     [("substitution", "polytope.py substitute"), ("projection and lifting", "polytope.py project/lift"), ("scaling", "polytope.py scale/scale_all")],
     LVL + "The image is computed independently from the definitions on the reference side.")

prop("G01", "Boolean combinations of polytopes mean what they say in every form",
     "A region built by intersection, union, disjoint union, complement or as a union of half-spaces contains exactly the "
     "points its definition gives, and its disjoint form, its simplified form, its copies and inclusion tests agree with it up "
     "to boundaries, with pieces that do not overlap. When dependency tracking is asked for, the labels named by the pieces "
     "are enough to imply the result. Operands and labels of the originals are never changed, and a computation that was "
     "interrupted, or whose progress output failed, can be repeated.",
     ["inputs", "histories", "fault_sequences"],
     "All boolean trees of rational polytopes in small dimension and all histories of operations on them, with solver "
     "failures, interruptions, console failures and clock jumps inside them.",
     "Tests check random boxes for union and intersection only; the disjoint form and its shortcuts are never tested.",
     ["region.py", "helpers/region_helper.py"],
     [("disjoint form and dependency tracking", "region.py as_disjoint_union"), ("merging of pieces", "helpers/region_helper.py simplify_union_of_polys")],
     LVL + "Membership in the boolean tree is evaluated exactly at points drawn from the cells of the arrangement.")

prop("G02", "Slices, shadows, liftings and scalings of regions are exact",
     "Substituting values into, scaling, lifting and projecting a region gives exactly the slice, scaled copy, cylinder or "
     "shadow of the set (for intersections, the shadow is the intersection of the shadows), and nothing exactly when it is "
     "empty. The results behave as any other region, and the operand is left as it was.",
     ["inputs", "histories", "fault_sequences"],
     "All boolean trees of rational polytopes in small dimension and chains of such maps, with solver failures and "
     "interruptions inside them.",
     "None of these maps of regions has a test.",
     ["region.py", "polytope.py"],
     [("substitution and scaling", "region.py substitute/scale_all"), ("projection and lifting", "region.py project/lift")],
     LVL + "The image of the boolean tree is evaluated exactly at points drawn from the cells of the arrangement.")

prop("L01", "Large value regions are exactly what the available large value estimates imply",
     "For a store of hypotheses and a domain of (sigma, tau, rho), the computed large value region contains exactly the points "
     "of the domain that satisfy every available large value estimate, every power transform of one and, for the zeta case, "
     "every zeta large value estimate. The estimates it lists as dependencies are available ones or transforms of them, and "
     "together they already imply the result. The store, its estimates and the domain stay as they were, and an interrupted "
     "or failed computation, or one whose progress output failed, can be repeated.",
     ["inputs", "histories", "fault_sequences"],
     "All stores of large value estimates, zeta estimates and power transforms, all domains, all orders in which the store's "
     "hash-ordered members are visited, and all histories of additions and computations with failures inside them.",
     "No test computes a large value region; duplicates, empty results and dependency labels depend on set order and geometry.",
     ["zero_density_estimate.py", "large_values.py", "region.py"],
     [("region and dependency labels", "zero_density_estimate.py compute_large_value_region"), ("labels", "region.py as_disjoint_union")],
     LVL + "Membership is evaluated from the definitions at points drawn from the cells of the arrangement of all constraints.")

prop("L02", "Conversions between kinds of large value estimates are exact",
     "A maximum of affine bounds becomes exactly the region below it, raising to a power k gives exactly the scaled region, and "
     "large value estimates, bounds on beta and bounds on mu become exactly the zeta large value estimates the blueprint derives "
     "from them: restricted to tau at least 2, rho zero where the bound excludes large values and at most tau elsewhere. Each "
     "converted estimate depends on the result it came from, every available result is converted, and nothing in the store "
     "changes.",
     ["inputs", "histories", "fault_sequences"],
     "All rational bounds, powers and stores, and all histories of conversions with interruptions and solver failures.",
     "None of these conversions is called by a test; errors at a slope, an endpoint of a range or a domain limit go unnoticed.",
     ["large_values.py", "zeta_large_values.py"],
     [("bounds to regions", "large_values.py convert_bounds"), ("powers", "large_values.py raise_to_power_hypothesis"),
      ("zeta estimates", "zeta_large_values.py lv_to_zlv/beta_to_zlv/mu_to_zlv")],
     LVL + "Each region is compared with the inequality it should express at points between all its constraints.")

prop("D01", "Zero density estimates from large values are the exact supremum of rho over tau",
     "The supremum of rho/tau over a union of polytopes in (sigma, tau, rho) is returned exactly, as a function of sigma on pieces "
     "that cover the requested interval once. The bounds on A(sigma) derived from a store by either corollary (tau0 fixed, or "
     "tau0 depending on sigma), times 1 - sigma, are at every sigma exactly the larger of the two suprema that the store's large value and zeta "
     "large value estimates imply on the ranges of tau the corollary names. They rest only on results in the store, and a computation that was "
     "interrupted or failed can be repeated.",
     ["inputs", "histories", "fault_sequences"],
     "All unions of polytopes, all stores of large value estimates, powers, zeta estimates, bounds on beta and on mu, all intervals "
     "of sigma and choices of tau0, and all failures of the linear, polyhedral and symbolic solvers inside a computation.",
     "No test derives a zero density estimate; a wrong range of tau or a lost edge still gives a plausible function.",
     ["zero_density_estimate.py", "functions.py", "zeta_large_values.py"],
     [("supremum over edges", "zero_density_estimate.py compute_sup_rho_on_tau"),
      ("corollaries", "zero_density_estimate.py lv_zlv_to_zd/lv_zlv_to_zd2"), ("piecewise maximum", "functions.py RationalFunction.max")],
     LVL + "The supremum is recomputed exactly at rational sigma in every piece, also next to its ends. The estimate "
     "on A(sigma) is the supremum divided by 1 - sigma.")

prop("Z01", "The best zero density (energy) estimates are the pointwise best available ones",
     "The best zero density estimates, and the best zero density energy estimates, of a store form pieces covering [1/2, 1) once. On "
     "each piece the function is the smallest of the estimates that hold there, attributed by name, proof and reference to an "
     "estimate that gives it, or a placeholder where none holds (minima and maxima of rational functions on intervals have the same "
     "meaning). Estimates evaluate to what they state on their own range only, whatever was interrupted, failed or ran concurrently "
     "before.",
     ["inputs", "histories", "schedules", "fault_sequences"],
     "All sets of estimates with rational functions, constants and square roots on open, closed, nested and overlapping ranges, all "
     "orders of visiting them, interruptions, parser and solver failures, and concurrent callers sharing estimates.",
     "The result depends on the hash order in which estimates are compared and on crossings the tests never produce.",
     ["zero_density_estimate.py", "zero_density_energy_estimate.py", "functions.py"],
     [("piecewise optimum", "functions.py RationalFunction.min/max"), ("aggregation", "zero_density_estimate.py best_zero_density_estimate"),
      ("lazy parsing", "zero_density_estimate.py Zero_Density_Estimate.at")],
     LVL + "Estimates are evaluated independently at rational sigma between all breakpoints, range ends and approximate crossings.")

prop("A01", "Large value energy regions and their transforms are exact",
     "For a store of energy estimates and a domain, the computed large value energy region contains exactly the exponents "
     "(sigma, tau, rho, rho*, s) of the domain that satisfy every available energy estimate, every power of one and, for the zeta "
     "case, every zeta estimate; lifting a large value estimate, raising to a power, deriving from an exponent pair and projecting "
     "back to large values or to energy are exact, and every result names the available results it rests on. Nothing in the store "
     "changes unless the routine adds to it, the default limits stay what they are, and an interrupted or failed computation can be "
     "repeated.",
     ["inputs", "histories", "fault_sequences"],
     "All stores of energy regions, large value estimates, powers and exponent pairs, all domains, all orders of visiting them, "
     "and all histories of conversions and computations with failures inside them.",
     "No test computes an energy region; a lost power, a shared limit or a wrong projection only shows at particular exponents.",
     ["additive_energy.py", "large_values.py", "zero_density_estimate.py", "region.py"],
     [("region of a store", "additive_energy.py compute_best_lver"), ("lifting and powers", "additive_energy.py lv_to_lver/expand_lver"),
      ("projections", "additive_energy.py lver_to_lv/lver_to_energy")],
     LVL + "Membership is evaluated from the definitions at points of the arrangement; projections by exact elimination of slices.")

prop("A02", "Zero density and energy estimates from energy regions are exact suprema",
     "The estimates for zero density, and for zero density energy, derived from energy regions, times 1 - sigma, are at every sigma exactly the "
     "larger of the suprema of rho/tau (of rho*/tau) that the energy region allows for tau in [tau0, 2 tau0] and the zeta energy region for "
     "tau in [2, tau0], up to sets of measure zero, on pieces covering the interval once. They rest on the regions used and change "
     "none of them. The trivial energy estimates are exactly three times each density estimate and 3/(1-sigma), on the same ranges; "
     "interrupted or failed computations can be repeated.",
     ["inputs", "histories", "fault_sequences"],
     "All stores of energy regions, powers and lifted estimates, all intervals and choices of tau0(sigma), all unions of polytopes "
     "handed to the supremum, and all failures of the linear, polyhedral, symbolic and parsing steps inside a computation.",
     "No test derives an estimate from an energy region; a lost edge or range still gives a plausible function.",
     ["zero_density_energy_estimate.py", "zero_density_estimate.py", "additive_energy.py", "functions.py"],
     [("supremum over edges", "zero_density_energy_estimate.py compute_sup_LV_on_tau"),
      ("energy from regions", "zero_density_energy_estimate.py lver_to_energy_bound"), ("density from regions", "zero_density_estimate.py lver_to_zd")],
     LVL + "Each supremum is recomputed at rational sigma by exact vertex enumeration of the slice of the definitions.")

prop("F01", "Piecewise affine functions of several variables are combined exactly",
     "The minimum of two piecewise affine functions is, at every point of the common domain, the smaller of the two values with "
     "the label of the function that gives it, on pieces covering that domain once, and is defined nowhere else. Cropping, "
     "simplifying and copying preserve values, domain and labels, scaling scales exactly the domain, and none of them changes a "
     "function it does not act on, whatever copies exist. A failed or interrupted operation leaves functions that still mean the same and can be repeated.",
     ["inputs", "histories", "fault_sequences"],
     "All piecewise affine functions on polytopes of any dimension, touching, nested and repeated pieces, all histories of minimum, "
     "crop, simplify, copy and scale over aliased functions, and failures of the polyhedral steps in any of them.",
     "The tests take one minimum of two hand-made functions; a piece lost on a shared face or a shared list needs a history.",
     ["functions.py", "polytope.py"],
     [("pieces and minimum", "functions.py Piecewise.min_with"), ("joining of pieces", "functions.py Piecewise.simplify"),
      ("affine pieces", "functions.py Affine2")],
     LVL + "An exact list-of-pieces model gives the value and the label at points of every cell of the arrangement of all pieces.")

prop("F02", "Rational functions and intervals compute exactly and leave their operands alone",
     "Sums, differences, products, quotients and values of rational functions of one variable are exact and leave their operands as "
     "they were. The intersections found on an interval are exactly the points of it where two functions agree, and the extrema "
     "found on an interval are exactly the extrema there. Interval membership, "
     "intersection and emptiness respect which ends are included, arithmetic of polynomials with rational coefficients is exact, and any "
     "of these can be repeated after a failure.",
     ["inputs", "histories", "fault_sequences"],
     "All rational functions with rational coefficients, all open and closed intervals, all chains of operations reusing earlier "
     "results as operands, and failures of the parser and the equation solver in any of them.",
     "Tests sample a few functions; a lost root, an excluded end or a changed operand shows only for particular ones.",
     ["functions.py", "polynomial.py"],
     [("arithmetic and roots", "functions.py RationalFunction"), ("intersections", "functions.py RationalFunction.intersections"),
      ("ends", "functions.py Interval")],
     LVL + "Polynomial arithmetic over exact fractions, Sturm root counting and sympy real roots are the reference.")

prop("H03", "Every result knows exactly what it rests on",
     "A result depends directly on exactly the results it was built from or given later, whatever happens afterwards to the "
     "containers or results they came from. Its recursive dependencies are exactly everything reachable, its complexity the number of "
     "steps of the fully written out proof, its proof date the latest known year in it, and its printed proof that tree; a derived "
     "result is dated by the latest of its direct dependencies, unknown if one is undated. Asking changes nothing, and answers always "
     "reflect the current graph, also after interrupted or concurrent requests.",
     ["histories", "inputs", "schedules", "fault_sequences"],
     "All graphs of stated and derived results built by any of the library's constructors, all histories of adding dependencies and "
     "asking, all interleavings of callers, interruptions and console failures.",
     "No test builds a graph of results; sharing between results and stale answers need a history.",
     ["hypotheses.py", "reference.py", "exponent_pair.py", "bound_mu.py", "bound_beta.py", "large_values.py", "additive_energy.py"],
     [("dependency graph", "hypotheses.py Hypothesis"), ("year of a derived result", "reference.py Reference.max_year"),
      ("constructors", "exponent_pair.py derived_exp_pair")],
     LVL + "A plain graph model answers every query; printed proofs are parsed back into trees and matched.")

prop("R01", "The reference database holds exactly what its files say",
     "After a file was loaded, the reference manager has exactly the entries of the files it loaded, each with its type, label and "
     "fields, names of authors joined and the year as a number, and looking up or searching by author and year returns exactly the "
     "matching entries. A load that fails at any point, for any reason, leaves every reference as before or as the file has it, "
     "loses none, leaves no file open, and can be repeated.",
     ["inputs", "histories", "fault_sequences", "schedules"],
     "All BibTeX files in the layouts the shipped file uses, all histories of loading, rewriting and searching, and all failures of "
     "opening, reading and closing files, interruptions, short reads and concurrent callers.",
     "No test loads a file; failures in the middle of a load and unusual layouts never occur in them.",
     ["reference.py"],
     [("loading", "reference.py Reference_Manager.load"), ("parsing", "reference.py Reference_Manager._parse")],
     LVL + "Files are rendered from structured entries on a simulated disk; the shipped file is read by an independent parser.")

prop("X01", "The packaged derivations prove exactly the published results",
     "Each derivation of a published result that the database ships (zero densities of Ingham, Huxley, Jutila, Heath-Brown and "
     "Guth-Maynard by either corollary, energy bounds, the Guth-Maynard region, van der Corput pairs, the Hardy-Littlewood bound, "
     "earliest proofs of exponent pairs) proves exactly the published bound on exactly the stated range, or on any part of it asked "
     "for, in whatever order the literature is stored and whatever was derived before or at the same time. Its proof rests only on the "
     "results of the literature it names and classical ones, the literature is unchanged afterwards, and an interrupted or failed "
     "derivation can be repeated.",
     ["histories", "inputs", "schedules", "fault_sequences"],
     "All sessions of packaged derivations over the shipped literature in any set order, on any part of the published range, with "
     "interruptions, solver and console failures and concurrent callers.",
     "No test runs a derivation end to end; the outcome depends on set order and on what earlier derivations left behind.",
     ["derived.py", "literature.py", "zero_density_estimate.py", "zero_density_energy_estimate.py", "exponent_pair.py"],
     [("zero density by either corollary", "derived.py prove_zero_density"),
      ("earliest proof", "derived.py best_proof_of_exponent_pair"), ("order of exponents", "derived.py van_der_corput_pair")],
     LVL + "The published formulas are the reference, evaluated exactly; proofs are walked down to their leaves.")

prop("N01", "The prime gap exponent is the true supremum",
     "The second moment exponent for prime gaps computed from a store of zero density and additive energy estimates reports, for "
     "consecutive ranges from 1/2 to 1 on each of which one estimate of either kind is the best available, the exact supremum over the "
     "range of the two expressions of Corollary 13.9 formed from those estimates, also where the supremum is at an end, at an "
     "irrational point, a limit or infinite. The estimates it uses are the pointwise best of the current store whatever was computed "
     "before, the store is unchanged, and an interrupted or failed computation can be repeated.",
     ["inputs", "histories", "schedules", "fault_sequences"],
     "All stores of rational zero density and energy estimates covering [1/2, 1] with A* > A, all histories of adding estimates and "
     "computing, interruptions, solver and console failures, other callers at the same time.",
     "No test computes a gap exponent; which function attains the supremum, and where, depends on the whole store.",
     ["prime_gap.py", "zero_density_estimate.py", "zero_density_energy_estimate.py", "functions.py"],
     [("supremum", "prime_gap.py compute_gap2"), ("best estimates", "zero_density_estimate.py best_zero_density_estimate")],
     LVL + "Suprema come from exact polynomial arithmetic and Sturm root isolation, independent of sympy.")

prop("D02", "Zero density estimates from exponent pairs are the theorems' own",
     "The estimates derived from exponent pairs are exactly those of Ivic, for every list of pairs and every m (the bound "
     "3m/((3m-2)s + 2 - m) from the smallest point any of the pairs reaches), and of Bourgain (the pointwise least over the pairs "
     "the theorem admits, each only where it applies), each citing a pair that gives it, and from a store of pairs and transforms at "
     "least as good as every stored pair gives, with a pair proved from the store. Merging adjacent pieces keeps the function and merges "
     "all that can be merged. Interrupted, failed or concurrent derivations do not change this.",
     ["inputs", "histories", "schedules", "fault_sequences"],
     "All lists of exponent pairs, all m from 2, stores of pairs with transforms, all piecewise functions for merging, interruptions, "
     "solver failures and concurrent callers.",
     "No test derives an estimate from a pair; which pair wins depends on all of them.",
     ["zero_density_estimate.py", "exponent_pair.py", "bound_beta.py"],
     [("Ivic", "zero_density_estimate.py ivic_ep_to_zd"), ("Bourgain", "zero_density_estimate.py bourgain_ep_to_zd"),
      ("from a store", "zero_density_estimate.py ep_to_zd"), ("merging", "zero_density_estimate.py simplify")],
     LVL + "The formulas are re-evaluated exactly; proofs of the cited pairs are walked to members of the store.")

prop("T01", "What is printed is what is stored",
     "The printed form of every object states that object: read back, the text of an interval, an affine or piecewise affine function, a "
     "constraint, hyperplane, polytope or region (in short or indented form and with any choice of variable names), a rational function, a "
     "quotient of polynomials, a polynomial, an exponent pair, a bound on mu or beta, a large value, additive energy, zero density or energy estimate, and the "
     "description of a hypothesis or store, agrees with the object's own membership and values at every point, for objects however "
     "obtained (built, copied, combined, cropped, simplified, scaled) and as they are now rather than as they were. Printing can be "
     "repeated with the same result, changes nothing, and is not disturbed by interruptions or by other callers printing.",
     ["inputs", "histories", "schedules", "fault_sequences"],
     "All printable objects with rational data, any number of variables, all histories of operations and printing, interruptions, solver "
     "failures and concurrent printers.",
     "The tests compare a few fixed strings; published statements and proofs are read off these texts.",
     ["helpers/str_helper.py", "functions.py", "polytope.py", "region.py", "polynomial.py", "hypotheses.py", "large_values.py"],
     [("linear expressions", "helpers/str_helper.py Str_Helper.format"), ("regions", "region.py Region.to_str"),
      ("functions", "functions.py Affine.to_str, Affine2.to_string, RationalFunction.__repr__"),
      ("estimates", "large_values.py convert_bounds, __repr__ of the estimates")],
     LVL + "An independent reader parses every text and evaluates it exactly.")

prop("V01", "Plots show what was computed",
     "Every picture shows exactly the object it is drawn from, as it is at that moment. The points drawn for a polytope, a region or the "
     "domain of a piecewise affine function are the grid points inside it (for a piecewise function, under the label of the function "
     "that holds there, and none is left out); each bound on beta is one segment with its true end points; the curves for the best and "
     "the literature zero density estimates, for a proved estimate, and the curves of the shipped figures on beta, zero density and "
     "additive energy have at every abscissa the value of the best estimate available there; the exponent pair figure is a convex "
     "polygon, symmetric under the B process, that contains every pair of the literature. A picture whose drawing failed or was interrupted can "
     "be drawn again, and is then complete.",
     ["inputs", "histories", "fault_sequences"],
     "All planar polytopes, regions and piecewise functions, all windows and resolutions, all sets of bounds and estimates, and all "
     "failures of the display, the console and the solvers and interruptions while drawing.",
     "No test draws anything; figures of the published chapters come from these routines.",
     ["polytope.py", "region.py", "functions.py", "bound_beta.py", "zero_density_estimate.py", "derived.py", "visualizations.py"],
     [("planar sets", "polytope.py Polytope.plot, region.py Region.plot2d, functions.py Piecewise.plot_domain"),
      ("bounds", "bound_beta.py display_beta_bounds, zero_density_estimate.py best_zero_density_estimate, derived.py prove_zero_density"),
      ("figures", "visualizations.py")],
     LVL + "Every drawn point is recomputed from the specification of the object; the display is simulated and can fail at any call.")

prop("C01", "The shipped literature states the published theorems",
     "Every entry of the shipped literature is a published theorem: its range, its bound (a value at every point, or a region of possible "
     "large value patterns), its authors and its year are those of the blueprint and bibliography, nothing is claimed beyond the "
     "theorem, every theorem listed there is present, and the transforms (A, B, C, D) act as stated. A question limited to a year uses "
     "all and only results published by then, so the best bounds on mu, beta and A computed from the literature are those implied by "
     "the theorems known at the time, and the hull of exponent pairs derived from it has the published vertices and nothing below. All this "
     "holds in every set order, for every part of the literature, after failures and for concurrent readers, also when loading was "
     "interrupted or the disk failed and it is loaded again; asking changes nothing.",
     ["inputs", "histories", "schedules", "fault_sequences"],
     "All entries at all points of their ranges, all years, all subsets asked for, all exponent pairs given to the transforms, all set "
     "orders, interruptions, solver and disk failures.",
     "The tests use a few entries as inputs; a wrong constant on part of a range, or a wrong year, changes published conclusions "
     "without an error.",
     ["literature.py", "references.bib", "transform.py", "exponent_pair.py", "bound_beta.py", "bound_mu.py", "large_values.py",
      "zero_density_estimate.py", "zero_density_energy_estimate.py"],
     [("entries", "literature.py add_*_literature, add_lv_region_*"), ("transforms", "transform.py, literature.py A/B/C/D transforms"),
      ("years", "literature.py add_bounds_mu_as_of, add_exp_pairs_up_to; hypotheses.py list_hypotheses")],
     LVL + "The theorems are transcribed independently, in exact arithmetic, from the text of the blueprint.")
