#!/usr/bin/env python3
"""Single source of properties.jsonl (run once after editing; the output is committed)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, observe, state=None, hook=None):
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
              "anchors": {"files": files,
                          "state": [dict(name=a, meaning=b, where=c) for a, b, c in (state or [])],
                          "mechanism": [dict(name=a, where=b) for a, b in mech],
                          "observe_at": observe, "hook_needed": hook}})
I, H, S, C = "inputs", "histories", "schedules", "configurations"

p("C01", "Geodetic and Earth-centred coordinates convert exactly and invertibly",
  "For every latitude, longitude and altitude in the operating envelope (the deepest trench to low orbit), the Earth-centred position equals the WGS-84 ellipsoid formula, and converting it back recovers the original latitude, longitude (modulo a full turn) and altitude to within a millimetre. "
  "The altitude-free variants agree with the altitude versions at zero height, in both directions. "
  "Hemispheres are never confused: the signs of latitude and longitude survive the round trip, on both sides of every internal branch of the inverse.",
  [I], "all latitudes in [-90,90], longitudes in [-180,180], altitudes -11 km..1000 km",
  "tests check five fixed places; the inverse has two branches (switch near 57 degrees) plus a sign fix-up whose errors only show for particular latitudes/altitudes",
  ["include/cf.hpp"], [("lla2ecef/ll2ecef", "include/cf.hpp"), ("ecef2lla/ecef2ll (Olson)", "include/cf.hpp")],
  ["cf::lla2ecef", "cf::ecef2lla", "cf::ll2ecef", "cf::ecef2ll"])

p("C02", "Local tangent frames are true north-east(-down) frames and invert",
  "At any origin the local frame's axes are orthonormal and point along true north, true east (and down), so that converting a position into the three-dimensional local frame preserves distances exactly and converting back returns the original position. "
  "The two-dimensional (surface) local frame equals the first two components of the three-dimensional one at zero altitude, and its inverse returns the original surface point with an error no larger than the Earth-curvature term, i.e. cubic in the distance from the origin. "
  "In-place conversions change only the position part of a state and agree with the out-of-place ones.",
  [I], "all origins, all offsets up to 100 km (2-D) / arbitrary points (3-D)",
  "tests use a few origins and offsets; sign, axis-order and hemisphere errors cancel at special longitudes",
  ["include/cf.hpp"], [("nedrot/nerot", "include/cf.hpp"), ("ne2ll/ll2ne/ned2lla/lla2ned", "include/cf.hpp")],
  ["cf::ll2ne", "cf::ne2ll", "cf::lla2ned", "cf::ned2lla", "cf::nedrot", "cf::nerot", "cf::ll2ne_i", "cf::ne2ll_i"])

p("C03", "Boxes built from a Gaussian are the tight bounds of its n-sigma ellipse",
  "For every mean, symmetric positive-definite covariance and number of standard deviations, the axis-aligned box built from the Gaussian is exactly the bounding rectangle of the n-sigma ellipse, and the oriented box is a rectangle centred at the mean, aligned with the ellipse's principal axes, whose half-sides are n times the principal standard deviations. "
  "The axis-aligned hull of an oriented box contains all four corners and nothing smaller does. "
  "The result scales linearly with n and translates with the mean.",
  [I], "all SPD 2x2 covariances (any orientation, axis ratio up to 1e6), means, nstd>0",
  "existing tests use isotropic or no covariances, for which swapping axes or eigenvectors is invisible",
  ["include/bbox.hpp", "include/gaussian.hpp"], [("AABBox::from_gaussian", "include/bbox.hpp"), ("BBox::from_gaussian", "include/bbox.hpp"), ("BBox::aabbox", "include/bbox.hpp")],
  ["AABBox(x,P,nstd)", "BBox(x,P,nstd)", "Gaussian_::bbox/aabbox/nebbox"])

p("C04", "Box containment and intersection tests agree with geometry",
  "Testing whether a point lies in a box, or whether two boxes (oriented or axis-aligned) overlap, gives the geometrically correct answer for every pair not within rounding distance of touching: overlapping boxes are reported whatever their relative orientation, size, or way of crossing, and disjoint ones are not. "
  "The overlap test is symmetric in its arguments and does not depend on which corner is listed first or on the winding direction, nor on the scale of the coordinates (degrees or metres). "
  "A box always overlaps itself and any box it contains; an oriented box is compared with an axis-aligned one through its axis-aligned hull.",
  [I], "all pairs of convex boxes (rectangles in any orientation, degree-sized to metre-sized), all points",
  "tests try one disjoint, one overlapping and one cross-shaped pair of fixed orientation",
  ["include/bbox.hpp"], [("BBox::intersects", "include/bbox.hpp"), ("BBox::within", "include/bbox.hpp"), ("AABBox::intersects/within", "include/bbox.hpp")],
  ["BBox::intersects", "BBox::within", "AABBox::intersects", "AABBox::within"])

p("C05", "Converting a box between frames converts its corners",
  "Converting an oriented box between the geographic and a local frame converts each corner with the point conversion and keeps the corner order; converting there and back restores the box within the accuracy of the point conversion. "
  "Converting an axis-aligned box yields the box spanned by its converted extreme corners, and an axis-aligned box made from any two opposite corners is the same whatever the order of the corners. "
  "A local box around the origin of a few kilometres, once converted, still contains the converted positions of interior points (up to the flat-Earth error).",
  [I], "all origins with |latitude| <= 80 away from the antimeridian, boxes up to 20 km",
  "no test converts a box and looks at more than one corner",
  ["include/bbox.hpp", "include/cf.hpp", "include/report.hpp"], [("BBox::llbbox/nebbox", "include/bbox.hpp"), ("AABBox::llaabbox/neaabbox", "include/bbox.hpp")],
  ["BBox::llbbox", "BBox::nebbox", "AABBox::llaabbox", "AABBox::neaabbox", "GaussianReport_::llaabbox"])

p("C06", "The assignment solver returns a minimum-cost assignment",
  "For every cost matrix with at least as many columns as rows, with any mixture of finite, negative, equal and infinite (forbidden) entries and whatever the storage order of the matrix, the solver reports success exactly when an assignment without forbidden pairs exists, and then returns a one-to-one assignment of every row whose total cost is minimal. "
  "The reported cost is the sum of the selected entries and, when every row has a choice of columns, the returned row and column prices certify optimality (no reduced cost is negative, selected ones are zero). "
  "The answer comes in polynomial time: problems with dozens of rows are solved as readily as small ones.",
  [I], "all matrices up to 8x10 against exhaustive search, up to 60x80 against dual certificates; row- and column-major; ties; forbidden entries",
  "tests solve a handful of fixed small matrices, mostly 3 rows, in one storage order",
  ["include/rlapjv.h"], [("rlap (Jonker-Volgenant)", "include/rlapjv.h"), ("lap feasibility check", "include/rlapjv.h")],
  ["lap::lap", "lap::cost"])

p("C07", "k-best enumeration yields every assignment once, in cost order",
  "Drawing repeatedly from the ranked-assignment enumerator yields every feasible assignment of the cost matrix exactly once, in non-decreasing order of cost, each with its exact total cost, and then reports exhaustion - and keeps reporting it. "
  "Forbidden (infinite) entries never appear, negative costs and ties are handled, and the first draw is the optimum. "
  "A matrix without any feasible assignment yields nothing.",
  [I, H], "all matrices up to 5x7 drawn to exhaustion against full enumeration; larger ones for order, distinctness and exact cost of the first draws",
  "tests draw from two fixed matrices; pruning or ordering errors need particular dual values and ties",
  ["include/murty.hpp", "include/rlapjv.h"], [("Murty::draw partitioning", "include/murty.hpp"), ("MurtyState::sort_by_dual lower bounds", "include/murty.hpp")],
  ["lap::Murty::draw", "lap::Murty::draw_tuple"])

p("C08", "The spatial index behaves as a plain list of boxes over any history",
  "After any sequence of insertions, removals and clearings, a search returns exactly the entries whose box intersects (touching included) the query box, each the right number of times, the count equals the number of stored entries, and iteration visits each entry exactly once with its stored bounds. "
  "Removing an entry under the box it was stored with deletes exactly one such entry (entries of the same id in one place are interchangeable), removing something absent changes nothing, and a search callback that returns false stops the search. "
  "Saving to a file and loading it into another index reproduces the same contents.",
  [H], "operation sequences up to several hundred steps, clustered/degenerate/duplicate rectangles, deep trees and emptying back to nothing",
  "tests insert a few entries; node splitting, condensation and reinsertion only occur beyond 8 entries per node and in removal patterns no test makes",
  ["include/RTree.h"], [("InsertRect/SplitNode", "include/RTree.h"), ("RemoveRect/ReInsert", "include/RTree.h"), ("Search/Overlap", "include/RTree.h"), ("Save/Load", "include/RTree.h")],
  ["RTree::Insert/Remove/Search/Count/RemoveAll/Iterator/Save/Load"])

p("C09", "The spatial index always holds exactly the live targets' current boxes",
  "After any history of predictions, corrections, insertions and queries, every live target is found exactly once by a region query covering its current box, under that very box, and no query ever returns a target that has been removed. "
  "A region query returns exactly the live targets whose box intersects the region, and a point query those whose box contains the point. "
  "The number of indexed entries equals the number of live targets.",
  [H, I], "histories of predict/correct/query up to 25 steps, varied parameters and fields of view, targets dying and being born",
  "tests look at the index only directly after inserting; stale boxes need a moving or updated target that is removed under a different box",
  ["include/targettree.hpp", "include/lmb.hpp", "include/cluster.hpp"], [("remove-before-update / replace-after", "include/cluster.hpp"), ("remove_all + replace in predict", "include/lmb.hpp"), ("TargetTree_", "include/targettree.hpp")],
  ["SILMB::targettree.query", "SILMB::get_targets(region)"], [("targets/tree", "list of live targets and their spatial index", "include/targettree.hpp")])

p("C10", "Grouping by relation partitions the items into connected components",
  "For any symmetric relation between items, extracting groups one by one returns every item exactly once, two items share a group exactly when a chain of relations links them, and an item without relations forms a group of its own. "
  "Extraction ends exactly when all items have been returned. "
  "The grouping does not depend on the order in which items or relations are registered, or on relations being registered repeatedly or including the item itself.",
  [I, H], "all relations on up to 40 items (random, chains, stars, cliques, grids), any registration order",
  "the one test uses a fixed handful of nodes",
  ["include/connectedcomponents.hpp"], [("get_component traversal", "include/connectedcomponents.hpp")],
  ["ConnectedComponents::init/connect/get_component"])

p("C11", "Reports and targets are clustered by overlap, with truthful bookkeeping",
  "In every correction, two reports belong to the same cluster exactly when a chain of target boxes and report boxes that overlap links them; every target reached by a report belongs to that report's cluster, and every other target in the field of view forms a cluster of its own. "
  "Afterwards the published numbers of clusters, and of targets, reports and hypotheses per cluster, and the cluster ids on reports and targets are consistent with that partition: each report counted once, each affected target once, ids dense from zero. "
  "A newborn target carries the cluster id of the report that created it.",
  [I, H], "random scenes of up to 10 targets and 10 reports with varying overlap, over several scans",
  "tests check that a scan does not crash and the final count of targets; the partition itself is never compared with anything",
  ["include/lmb.hpp", "include/connectedcomponents.hpp", "include/report.hpp"], [("SILMB::cluster", "include/lmb.hpp"), ("cluster bookkeeping vectors", "include/lmb.hpp")],
  ["nof_clusters", "cluster_ntargets", "cluster_nreports", "cluster_nhyps", "report.cid", "get_targets().cid"])

p("C12", "Prediction follows the motion model exactly and composes over time",
  "Predicting with the constant-velocity model over an interval moves every mixture component's position by velocity times elapsed time (in the configured time unit), adds exactly the integrated white-acceleration covariance, leaves component weights unchanged, and multiplies the existence probability by the survival probability raised to the elapsed time; predicting in two steps equals predicting once over the sum, and a zero interval changes nothing. "
  "The no-motion model keeps the means, adds its given covariance and multiplies the existence probability by its survival probability. "
  "The extrapolated mean offered by the model equals the predicted mean.",
  [I, C, H], "all states, SPD covariances, intervals, process noises, survival probabilities, time scales, component counts; latitudes within +-80 degrees",
  "tests predict one target once with identity covariance; time scale and cross terms are not exercised",
  ["include/models.hpp", "include/gm.hpp", "include/gaussian.hpp", "include/target.hpp", "include/lmb.hpp"], [("CV::operator()", "include/models.hpp"), ("NM::operator()", "include/models.hpp"), ("linear_update", "include/gaussian.hpp")],
  ["CV", "NM", "SILMB::predict", "get_targets"])

p("C13", "A measurement update is the exact Bayesian update",
  "Correcting a Gaussian or a mixture with a position report gives the exact Bayes posterior: the conditional mean and covariance of each component, component weights proportional to prior weight times detection probability times the predictive density of the report divided by the clutter density, and the normalising constant returned equals the sum of those products. "
  "The posterior covariance stays symmetric positive definite and never exceeds the prior, and a mixture whose total evidence is negligible is emptied and reports zero evidence. "
  "The order of the components does not matter.",
  [I], "all states, SPD prior and measurement covariances with conditioning up to 1e6, 1-30 components, detection and clutter settings",
  "tests check one update with one component and unit covariances, where transposes and inverses are indistinguishable",
  ["include/gaussian.hpp", "include/gm.hpp", "include/report.hpp", "include/sensors.hpp"], [("Gaussian_::correct", "include/gaussian.hpp"), ("GM::correct/normalize", "include/gm.hpp"), ("GaussianReport_::likelihood", "include/report.hpp")],
  ["Gaussian_::correct", "GM::correct", "GaussianReport_::likelihood"])

p("C14", "Mixture reduction keeps the heaviest components, normalised and bounded",
  "Pruning, adding and merging mixtures produces a mixture whose weights sum to one, whose component count never exceeds the cap, whose components are exactly the heaviest of the inputs (weighted by the mixing weights) in descending order, unchanged in mean and covariance, with nothing kept below the configured weight limit when something heavier was available and nothing dropped that lies above it. "
  "When nothing needs to be dropped, the merged mixture's mean and covariance are exactly those of the weighted mixture. "
  "The mixture mean and covariance are the moments of the mixture (including spread of means).",
  [I, C], "mixtures of 0-300 components, arbitrary weights incl. ties and zeros, weight limits 0..0.5, caps from tiny to 200",
  "tests join two tiny mixtures; cap and limit are never reached",
  ["include/gm.hpp"], [("GM::prune", "include/gm.hpp"), ("GM::join", "include/gm.hpp"), ("GM::mean/cov", "include/gm.hpp")],
  ["GM::prune", "GM::operator+", "GM::operator+=", "GM::join", "GM::mean", "GM::cov"])

p("C15", "Random sampling and coverage estimates match their distribution",
  "Samples drawn from a Gaussian or mixture have its mean and full covariance, every requested sample is filled, and the estimated probability mass of a target inside a region (and with it the detection probability, which is that mass times the sensor's detection setting) agrees with the true probability within Monte-Carlo error. "
  "The estimate lies in [0,1], is one for a region covering everything relevant and zero for a far-away region, for oriented and axis-aligned regions. "
  "A rasterised position density adds exactly the requested mass, distributed in proportion to the density.",
  [I], "all means, SPD covariances (any orientation), 1-20 component mixtures, regions; tolerance >= 6 sigma of the estimator",
  "tests sample one isotropic Gaussian; orientation errors of the sampler and component truncation are invisible there",
  ["include/statistics.hpp", "include/statistics.inc", "include/gaussian.hpp", "include/gm.hpp", "include/sensors.hpp"], [("nrand", "include/statistics.hpp"), ("overlap", "include/gaussian.hpp"), ("sample_pos", "include/gm.hpp"), ("sampled_pos_pdf", "include/gaussian.hpp")],
  ["nrand", "urand", "Gaussian_::sample/sample_pos/overlap/sampled_pos_pdf", "GM::sample_pos/overlap", "PositionSensor::pD"])

p("C16", "The particle representation keeps normalised weights and correct moments",
  "A particle cloud created from a Gaussian has equal weights summing to one and that Gaussian's mean and covariance within sampling error; its mean and covariance functions are the weighted sample moments. "
  "A measurement update multiplies each weight by detection probability times likelihood over clutter density, renormalises, and returns the total; a missed detection does the same with one minus the detection probability; a linear motion update maps each particle by the transition; merging keeps the heaviest weighted particles, normalised. "
  "Resampling copies every particle its weight times the particle count, rounded up or down, fairly on average and whatever the number of threads; from its creation on, the box of a cloud (also as asked for by region queries) is the n-sigma box of its moments. "
  "The effective sample size is the reciprocal of the sum of squared weights.",
  [I], "particle counts 20-2000, all means/SPD covariances, reports, transitions, merge weights",
  "tests construct one cloud and compare the mean",
  ["include/pf.hpp"], [("PF::correct/normalize/join/mean/cov", "include/pf.hpp")],
  ["PF::mean/cov/correct/linear_update/join/neff"])

p("C17", "A correction equals the exhaustive sum over association hypotheses",
  "With hypothesis limits wide enough, correcting with a scan gives every target the existence probability and the mixture that result from enumerating all joint association hypotheses of its cluster: each target is either non-existent, missed, or detected by one report of the cluster, no report is used twice, with weights from existence, detection probability, report likelihood and clutter density. "
  "Each target's new density is the mixture of its per-report and missed-detection posteriors weighted by those association probabilities. "
  "Swapping in finite hypothesis limits only truncates that enumeration to its best-ranked hypotheses, renormalised.",
  [I, C], "clusters of up to 4 targets and 4 reports, arbitrary existence probabilities, overlaps, detection probabilities, clutter densities, limits",
  "tests assert that two targets survive; the probabilities are never compared with an independent computation",
  ["include/cluster.hpp", "include/target.hpp", "include/murty.hpp"], [("Cluster_::correct", "include/cluster.hpp"), ("Target_::match/correct/false_target", "include/target.hpp")],
  ["SILMB::correct", "get_targets", "Target_::r", "Target_::pdf"])

p("C18", "Births follow the probability that a report stems from no known target",
  "For every report the birth probability is its share, proportional to one minus the total probability that existing targets generated it, of the sensor's expected number of births; a new target appears exactly when that reaches the existence limit, with existence probability capped by the configured maximum, the report's position and covariance, zero velocity with the sensor's velocity covariance, and a fresh id. "
  "Reports in clusters without targets count as certain newcomers. "
  "A scan whose reports are all explained creates nothing.",
  [I, C], "scans of 0-8 reports against 0-4 targets, expected births 0-10, limits and caps",
  "tests only count births for a scan of isolated reports",
  ["include/lmb.hpp", "include/sensors.hpp", "include/cluster.hpp"], [("SILMB::birth", "include/lmb.hpp"), ("rB", "include/cluster.hpp"), ("pdf_init1", "include/sensors.hpp")],
  ["SILMB::correct", "get_targets"])

p("C19", "Every reachable tracker state is well-formed and memory-safe",
  "After any history of predictions and corrections with valid inputs, every target has an existence probability in [0,1] and not below the existence limit, a finite state, a symmetric positive-definite covariance, normalised component weights, a position uncertainty (Frobenius norm of the position covariance) within the configured limit unless it was just born, and an id that is unique and never reused; identities persist while a target lives. "
  "The expected and confirmed numbers of targets equal the sums over targets. "
  "No history causes a crash, an invalid memory access, a hang or a NaN.",
  [H, C, I], "histories up to 30 steps with extreme but valid settings: detection probability 0 or 1, survival 1 or small, tiny/huge clutter density, empty scans, duplicate reports, near-certain targets",
  "tests run two fixed scenarios with ordinary settings",
  ["include/lmb.hpp", "include/cluster.hpp", "include/target.hpp", "include/targettree.hpp", "include/gm.hpp"], [("Target_::viable", "include/target.hpp"), ("TargetTree_::new_target/erase", "include/targettree.hpp"), ("Target_::correct", "include/target.hpp")],
  ["get_targets", "enof_targets", "nof_targets"], [("id_counter", "next fresh identity", "include/targettree.hpp")])

p("C20", "Results do not depend on report order or thread count",
  "Processing a scan gives the same set of targets (existence probabilities, densities, births) whatever the order of the reports in the scan, up to rounding, as long as the hypothesis limits do not cut between equally likely hypotheses. "
  "It also gives the same set whatever number of worker threads is used and however they are scheduled, except for which newborn gets which fresh id. "
  "The same holds for predictions over many targets.",
  [I, S, C], "scenes of up to 12 targets and 12 reports, all permutations sampled, 1-8 threads, repeated runs",
  "tests run with one order and whatever schedule the machine happens to give",
  ["include/lmb.hpp", "include/cluster.hpp", "include/gm.hpp", "include/omp.hpp"], [("PARFOR over clusters/targets/components", "include/lmb.hpp"), ("CRITICAL(ttree)", "include/omp.hpp")],
  ["SILMB::correct", "SILMB::predict", "get_targets"])

p("C21", "Tracking is invariant to where on the globe it happens",
  "Shifting an entire scenario (targets, reports, fields of view) east by any longitude, away from the antimeridian, shifts all estimates by that longitude and changes nothing else. "
  "Mirroring a scenario across the equator mirrors the estimates, and mirroring it across a meridian mirrors longitudes and eastward velocities and correlations. "
  "The covariances and existence probabilities are unchanged up to sign conventions and rounding.",
  [I, H], "scenarios of several scans, latitudes within +-75 degrees, any longitude shift keeping clear of the antimeridian",
  "tests run at one place; code that mixes up axes or signs passes at a single symmetric location",
  ["include/cf.hpp", "include/cluster.hpp", "include/gm.hpp", "include/lmb.hpp"], [("cluster-local frames", "include/cluster.hpp"), ("frame conversion of mixtures", "include/gm.hpp")],
  ["SILMB::correct", "SILMB::predict", "get_targets"])

p("C22", "Only targets the sensor could see are affected, by the missed-detection rule",
  "A correction leaves every target outside the field of view exactly as it was, while a target inside it that no report matches keeps its density and has its existence probability reduced to r(1-p)/(1-rp), where p is its detection probability and at least two hypotheses may be evaluated. "
  "With detection probability zero a correction with an empty scan changes nothing. "
  "An empty scan never creates targets and never increases an existence probability.",
  [I, H], "targets placed inside, outside and across fields of view of any rectangular orientation, all detection probabilities",
  "tests never correct with an empty scan and compare probabilities",
  ["include/sensors.hpp", "include/cluster.hpp", "include/target.hpp", "include/gm.hpp"], [("PositionSensor::get_targets", "include/sensors.hpp"), ("GM::missed", "include/gm.hpp"), ("Target_::false_target", "include/target.hpp")],
  ["SILMB::correct", "get_targets"])

p("C23", "OSPA and GOSPA are the metrics they are named after",
  "For any set of targets and truths, the OSPA score equals the minimum over all pairings of the order-p mean of distances cut off at c, with unpaired elements penalised by c, and the GOSPA score the corresponding unnormalised metric with penalty c^p/2 per unpaired element; both are computed in the local frame of the common centroid or a given origin. "
  "They are zero exactly for identical sets, bounded (OSPA by c), non-decreasing in c, independent of the order of targets and truths, and zero for two empty sets. "
  "Scoring works for dozens of targets in reasonable time.",
  [I, C], "0-6 targets/truths against exhaustive search over pairings, up to 40 against an independent assignment solver; c, p",
  "tests score one or two targets, where every pairing rule gives the same answer",
  ["include/lmb.hpp", "include/rlapjv.h", "include/target.hpp"], [("SILMB::ospa", "include/lmb.hpp"), ("SILMB::gospa", "include/lmb.hpp"), ("Target_::distance", "include/target.hpp")],
  ["SILMB::ospa", "SILMB::gospa"])

p("C24", "Asking the tracker questions never changes it",
  "Any sequence of queries - target lists, counts, densities over a region, OSPA/GOSPA scores against any truth, textual output - leaves the tracker's targets, their probabilities, densities, boxes and its later behaviour exactly as if the queries had not been made. "
  "Repeating a deterministic query gives the same answer. "
  "This holds wherever the queried region, origin or truth lies.",
  [H, I], "histories interleaving queries at random (including far-away origins) with predictions and corrections; compared with the same history without queries",
  "tests never compare the state before and after a query",
  ["include/lmb.hpp", "include/gm.hpp"], [("ospa/gospa/pos_phd frame excursions", "include/lmb.hpp")],
  ["SILMB::ospa/gospa/pos_phd/get_targets/enof_targets/nof_targets", "operator<<"])

p("C25", "Counts and target lists agree with the targets, by region and by threshold",
  "The list of targets reports, for each live target, exactly its id, cluster id, existence probability and the mean and covariance of its density, and stays valid however it is copied, moved or stored. "
  "Restricting to a region selects exactly the targets whose bounding box intersects the region; the expected number of targets is the sum of existence probabilities over the same selection and the confirmed number counts those at or above the threshold. "
  "A region covering everything gives the unrestricted answer and disjoint far-away regions give none.",
  [I, H], "tracker states from random histories and random insertions; random regions and thresholds including exact boundary values",
  "tests query one region with all or none of the targets",
  ["include/lmb.hpp", "include/target.hpp", "include/targettree.hpp"], [("get_targets/enof_targets/nof_targets", "include/lmb.hpp"), ("TargetSummary_", "include/target.hpp")],
  ["SILMB::get_targets", "SILMB::enof_targets", "SILMB::nof_targets"])

p("C26", "The density map distributes each target's existence probability over the grid",
  "The position-density map over a region has the requested size, no negative entry, and a total equal to the sum over targets of existence probability times the probability of being inside the region (within sampling error). "
  "Each cell's value matches the probability mass of the targets in that cell of the region: rows run with latitude and columns with longitude from the region's minimum corner. "
  "Targets away from the region contribute nothing.",
  [I], "regions of 1-50 km, grids from 1x1 to 30x30, 0-6 single- or multi-component targets",
  "no test looks at the map's contents",
  ["include/lmb.hpp", "include/gm.hpp"], [("SILMB::pos_phd", "include/lmb.hpp"), ("GM::sample_pos", "include/gm.hpp")],
  ["SILMB::pos_phd"])

p("C27", "Textual output is valid JSON that carries the full state",
  "Printing a tracker, target, mixture, Gaussian, report, particle cloud, cluster or oriented box always produces well-formed JSON with one entry per target, component or report, in which every field names the right quantity and every number re-read equals the original: states, covariances and weights to 15 significant digits, single numbers to the precision set on the stream. "
  "Matrices keep their shape and orientation, and printing leaves the stream's formatting as it was. "
  "An empty container prints as an empty list.",
  [I, H], "states from random histories, extreme magnitudes, empty and multi-component containers",
  "tests never parse the output",
  ["include/target.hpp", "include/gaussian.hpp", "include/gm.hpp", "include/report.hpp", "include/bbox.hpp", "include/pf.hpp", "include/cluster.hpp", "include/lmb.hpp", "include/constants.hpp"], [("repr", "include/target.hpp"), ("eigenformat", "include/constants.hpp")],
  ["operator<<", "print"])

p("C28", "The Python interface gives the same results and preserves values",
  "Running any scenario through the Python module gives the same targets, counts, cluster statistics and scores as the C++ tracker up to rounding, every attribute exposed to Python reads (and, where writable, writes) the quantity of that name, and coordinate functions agree with the C++ ones. "
  "Pickling and unpickling reports, targets and boxes yields equal objects. "
  "The asynchronous application wrapper returns exactly what the tracker returns and propagates errors.",
  [I, H], "random scenarios, random attribute values, random objects through pickle protocols 2-5",
  "the tests never import the Python modules beyond loading them",
  ["lmb/lmb.cpp", "lmb/cf.cpp", "lmb/application.py"], [("pybind11 bindings", "lmb/lmb.cpp"), ("py::pickle", "lmb/lmb.cpp"), ("Application._get", "lmb/application.py")],
  ["python module lmb", "lmb.cf", "lmb.Application"])

p("C29", "Parallel processing is free of data races",
  "Running corrections and predictions with several worker threads never lets two threads access the same memory without synchronisation when one of them writes, whatever the schedule, numbers of clusters, reports and births. "
  "Queries (target lists, counts, scores, densities, text) issued from several application threads at the same time, and independent trackers used on different threads at the same time, are equally free of races and give the answers they give alone. "
  "No schedule deadlocks.",
  [S, I], "scenes with several clusters, multi-component targets and births, 2-8 OpenMP threads; happens-before race detection over the executions",
  "a race rarely changes a test's outcome and tests run unsanitised",
  ["include/lmb.hpp", "include/cluster.hpp", "include/target.hpp", "include/gm.hpp", "include/gaussian.hpp", "include/statistics.inc", "include/omp.hpp"], [("CRITICAL(ttree)", "include/omp.hpp"), ("PARFOR loops", "include/lmb.hpp"), ("random generator", "include/statistics.inc")],
  ["SILMB::correct/predict under OMP_NUM_THREADS>1"])

p("C30", "Plotted ellipses, boxes and tracks depict the actual estimates",
  "A plotted covariance ellipse is centred on the estimate and its outline is exactly the n-sigma contour of the covariance in the plotted axes (east to the right, north up), whatever the orientation of the covariance. "
  "Plotted boxes, reports, tracks and density maps appear at the local coordinates of what they depict, and only targets at or above the requested existence threshold that are present at the end of the history are drawn. "
  "Plotting through the application object works for any history.",
  [I, H], "random SPD covariances and positions, random histories of targets and reports, origins",
  "no test draws anything",
  ["lmb/plot.py", "lmb/application.py", "clmb.py"], [("cov_ellipse", "lmb/plot.py"), ("tracks/scan/bbox/phd", "lmb/plot.py"), ("plot_cov_ellipse", "clmb.py")],
  ["matplotlib artists added to the axes"])

p("C31", "Well-separated detectable targets are tracked with stable identity",
  "Given well-separated targets moving at constant velocity, reported once per scan with noise of the stated covariance (within the gates) and high detection probability, the tracker confirms each of them after a few scans and keeps exactly one confirmed track per target with an unchanged identity for as long as it is reported. "
  "The estimates stay within the error bounds implied by the reported covariance, and position estimates improve on single reports in covariance. "
  "When a target stops being reported its track disappears after finitely many scans, and the others are unaffected.",
  [H, I, C], "1-6 targets, random places, speeds, noises, detection probabilities >= 0.9, scan intervals, up to 15 scans",
  "the two scenario tests are fixed trajectories at one place",
  ["include/lmb.hpp", "include/cluster.hpp", "include/target.hpp", "include/models.hpp", "include/sensors.hpp"], [("predict/correct cycle", "include/lmb.hpp")],
  ["get_targets", "nof_targets", "ospa"])

p("C32", "Far-apart groups of targets do not influence one another",
  "Tracking two groups of targets that are far apart in one tracker gives, for each group, the same existence probabilities, densities and (up to numbering) identities as tracking that group alone, as long as no births compete. "
  "Adding reports or targets far from a group never changes that group's update beyond the common birth budget. "
  "The partition into clusters is therefore only an optimisation.",
  [I, H], "two groups of up to 4 targets each with up to 4 reports, separated by more than 100 km, several scans",
  "no test runs the same scene split and joined",
  ["include/lmb.hpp", "include/cluster.hpp", "include/targettree.hpp"], [("clustering and spatial gating", "include/lmb.hpp")],
  ["SILMB::correct", "get_targets"])

p("C33", "Configured limits are honoured in every scan",
  "In every correction the number of hypotheses evaluated for a cluster is at least one when it has targets, never exceeds the configured maximum (and is bounded by the number of distinct hypotheses), and enumeration stops exactly after the first hypothesis whose relative weight falls below the configured limit. "
  "No target survives a step with existence probability below the existence limit or position uncertainty (Frobenius norm of its position covariance) above its limit, and none within both limits is removed. "
  "Mixtures never exceed the component cap.",
  [I, C, H], "random parameter settings (hypothesis maximum 1-100, weight limits, existence and uncertainty limits), random scenes over several scans",
  "tests use the default limits, which are never reached",
  ["include/cluster.hpp", "include/params.hpp", "include/target.hpp", "include/gm.hpp"], [("hypothesis loop", "include/cluster.hpp"), ("viable", "include/target.hpp")],
  ["cluster_nhyps", "get_targets"])

with open(os.path.join(os.path.dirname(__file__), "..", "properties.jsonl"), "w") as f:
    for q in P:
        assert len(q["title"]) <= 80, (q["id"], len(q["title"]))
        f.write(json.dumps(q) + "\n")
print(len(P))
