#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the table below (run by hand, files committed)."""
import json
import os

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []


def prop(id, title, statement, over, text, why, files, mech, technique, note, observe=None, level="exploration"):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files,
                  mech=mech, technique=technique, note=note, observe=observe, level=level))


DG = "src/data_generators/"
M = "src/models/"
S = "src/simulator/"
DR = "src/driver/"

prop(
    "C01", "A publisher's log answers spend and impression queries exactly",
    "For any publisher event log, in any order and with ties, the impressions, per-user counts and reach at a spend are exactly those of the events costing at most that spend, and the first k impressions are the k cheapest events (any order among equal costs), bought for the cost of the k-th one (0 for k=0, everything for k beyond the log). The maximum spend, impressions and reach are those of the whole log, and queries or later changes of the caller's list never change the answers.",
    ["inputs", "histories"], "all event logs (sorted or not, ties, repeated users, zero/tiny/huge costs), all spends and impression counts, interleaved with changes to lists and results the caller holds",
    "The tests query one or two hand-written, already sorted logs at a few round spends; off-by-one errors at ties, at exact costs and beyond the end of the log are not sampled.",
    [DG + "publisher_data.py"],
    [("sorted event log with bisection on cost", DG + "publisher_data.py:PublisherData")],
    "property-based testing against a brute force count over generated event logs",
    "Generated logs and queries compared exactly with a brute force model; trusts the model and the generator's reach.",
    ["user_counts_by_spend, impressions_by_spend, spend_by_impressions, user_counts_by_impressions, max_*"],
)
prop(
    "C02", "Data set ground truth equals a brute force count over publishers",
    "For any set of publishers, the k+ reach of a data set at a vector of spends (or impressions) is the number of distinct users whose impressions summed over all publishers' purchased events are at least k, for every k up to the requested maximum frequency, together with the impressions, spends and universe size of that purchase. It does not depend on the order of the publishers or on earlier queries, never falls when a publisher spends more, lies between the largest and the sum of the single reaches, reaches the maximum reach at unlimited spend, and a vector of the wrong length is refused.",
    ["inputs", "histories"], "all data sets of one or more publishers with arbitrary user overlap, all spend and impression vectors and maximum frequencies, repeated queries",
    "The tests use fixed data sets of two or three publishers with a handful of events and two or three query vectors.",
    [DG + "data_set.py", DG + "publisher_data.py", M + "reach_point.py"],
    [("counts of the publishers are added before k+ reaches are computed", DG + "data_set.py:DataSet.reach_by_spend / reach_by_impressions")],
    "property-based testing against a brute force model, plus metamorphic laws",
    "Generated overlapping data sets compared exactly with a brute force union count.",
    ["DataSet.reach_by_spend / reach_by_impressions / spend_by_impressions / impressions_by_spend / maximum_reach / universe_size"],
)
prop(
    "C03", "Data sets and data designs survive being written and read back",
    "Writing a publisher, data set or data design to disk and reading it back yields the same events (no lost, duplicated or rounded id or spend), the same names, counts and universe size and the same answers to every query (publishers come back in the order of their names), after any sequence of additions, reads, re-opens, rewrites in place and copies to other places; writing a copy never changes the source. Adding a second data set of the same name is refused and leaves the files untouched, and a malformed line is refused with its line number and file rather than guessed at.",
    ["inputs", "histories"], "all event logs (including extreme floats and ids), all publisher and data set names valid as file names, all sequences of add / read / reopen / copy, all positions of a malformed line",
    "The tests write one tiny data set and read it back once; float formatting, file order, re-opened designs, copies and malformed lines in the middle of a file are not covered.",
    [DG + "data_design.py", DG + "data_set.py", DG + "publisher_data.py"],
    [("one text file per publisher, one directory per data set, sorted names", DG + "data_set.py:write_data_set / read_data_set"), ("duplicate names refused", DG + "data_design.py:DataDesign.add")],
    "stateful property-based testing against a dictionary model; round trips",
    "Histories on scratch directories compared with a dictionary model after every step; text and numbers compared exactly.",
    ["files on disk, DataDesign.count / names / by_name, queries on data sets read back"],
)
prop(
    "C04", "Reach points convert exactly between k+ reaches, frequencies and counts",
    "For every reach point, the number of people reached exactly k times is the difference of consecutive k+ reaches, the last bucket holds everybody at or above the maximum frequency, and with a universe size the zero-included histogram covers the whole universe; converting user counts to frequencies to k+ reaches and back loses nothing and changes no argument. Frequencies outside the available range, a missing universe size and spends of another length than the impressions are refused.",
    ["inputs"], "all non-increasing k+ vectors, universes, user count maps and maximum frequencies, each accessor asked any number of times",
    "The tests check one or two fixed vectors; conversions at the frequency cap, with zero buckets and at the boundaries of the range are sampled once at most.",
    [M + "reach_point.py"],
    [("conversions", M + "reach_point.py:ReachPoint")],
    "property-based testing: round trips and a brute force histogram",
    "Generated vectors with exact arithmetic; every accessor compared with its definition.",
)
prop(
    "C05", "Privacy consumption is the worst case over all sampling buckets",
    "For every history of noised releases, each covering an interval of the circular bucket space [0, 1), the consumption of a bucket is the sum of the epsilons and deltas of exactly the releases whose half-open, possibly wrapping interval contains it, and the reported consumption is the maximum of that over all buckets (epsilon and delta separately). It never falls as releases are added, does not depend on their order, and trackers do not influence each other.",
    ["histories", "inputs"], "all sequences of releases with any epsilon, delta and sampling interval (touching, nested, wrapping, whole circle)",
    "The tests check a few hand-picked overlaps; the maximum over all buckets for arbitrary interval arrangements, in particular wrapping and touching ones, is not sampled.",
    [S + "privacy_tracker.py"],
    [("consumption evaluated at the starts of the recorded intervals", S + "privacy_tracker.py:PrivacyTracker.privacy_consumption"), ("half-open wrapping interval", S + "privacy_tracker.py:SamplingBucketIndices.contains")],
    "stateful property-based testing against a sweep of the bucket circle",
    "Histories with dyadic end points compared exactly with a sweep at twice the grid resolution.",
)
prop(
    "C06", "Every noised release is recorded and stays within its budget",
    "Every reach or Venn diagram request adds to the privacy ledger exactly the epsilon and delta it was given, with at least one recorded mechanism per noise mechanism applied, and the noise really added to the data uses exactly the recorded epsilons; a modeling strategy, however many requests it makes, never records or releases more than the budget it was given. Ground truth queries record nothing, refused requests record nothing, and no estimate leaves the simulator without noise.",
    ["histories", "inputs", "configurations"], "all sequences of reach requests, Venn diagram requests, ground truth queries and strategy fits on data sets with any number of publishers, any budget, split and maximum frequency",
    "The tests mock the noisers and check single calls for one data set; composition over several requests and publishers and agreement of ledger and noise are not checked.",
    [S + "halo_simulator.py", S + "privacy_tracker.py", S + "m3_strategy.py", S + "single_publisher_strategy.py", S + "planner_simulator.py"],
    [("budget split between reach and frequency, events appended per release", S + "halo_simulator.py"), ("budget divided by the number of requests", S + "m3_strategy.py")],
    "stateful property-based testing with logging noisers as oracle",
    "The cardinality-estimation dependency (not installable here) is replaced by stand-ins that log every noise mechanism applied; ledger and log are compared for every step of a generated history.",
    ["PrivacyTracker.privacy_consumption, the log of the noiser stand-ins"],
)
prop(
    "C08", "Reach quantiles are inverted exactly",
    "For every monotone reach curve and every quantile strictly between 0 and 1 the returned impressions (or spend) is the largest non-negative integer whose reach does not exceed that fraction of the maximum reach. Other quantiles (also NaN) are refused, a quantile the curve never exceeds is reported as an overflow, and a larger quantile never needs less.",
    ["inputs"], "all monotone reach curves (smooth models, steps, ground truth) and quantiles in (0, 1), answers up to 2^59",
    "The tests invert one linear curve at a few quantiles; plateaus, jumps exactly at the target and large answers are not sampled.",
    [M + "reach_curve.py"],
    [("doubling then bisection", M + "reach_curve.py:ReachCurve.impressions_at_reach_quantile / spend_at_reach_quantile")],
    "property-based testing against the definition, with generated step curves",
    "Each answer is checked by evaluating the curve at it and at the next integer.",
)
prop(
    "C09", "One-point curve models follow their closed forms",
    "A Goerg model fitted to I impressions reaching R people predicts, for every x impressions and every k, a k+ reach of rho (x/(x+rho))^k with rho = I R/(I-R), hence R at the training point, and a k-inflated Gamma-Poisson model given only a 1+ reach predicts the exponential-Poisson curve through its point; predictions by spend agree with those by impressions at the training price. Training data that no curve fits (no impressions, impressions not above reach, several points or publishers), queries of the wrong length and spend queries without a price are refused.",
    ["inputs"], "all training points (reach 1 to 1e9, with and without price, with extra frequencies) and query impressions or spends up to 1e6 times the campaign",
    "The tests compare two or three numbers for one training point.",
    [M + "goerg_model.py", M + "kinflated_gamma_poisson_model.py", M + "reach_curve.py"],
    [("closed form", M + "goerg_model.py:GoergModel.by_impressions"), ("exponential Poisson fit", M + "kinflated_gamma_poisson_model.py:KInflatedGammaPoissonModel._exponential_poisson_beta")],
    "property-based testing against closed forms",
    "Predictions compared with independently computed closed forms at relative tolerance 1e-6 or better.",
)
prop(
    "C10", "Gamma-Poisson curves are the thinned inventory distribution",
    "For any parameters, a Gamma-Poisson model predicts at x impressions the k+ reaches of an audience of N people whose inventories are 1 + Poisson with a Gamma mean, each impression being shown independently with probability x / inventory; beyond the inventory the prediction stays at the whole inventory (less one impression). Fitted models have a given audience as is, otherwise one between the observed reach and a hundred times it, k+ reaches never increase in k nor fall with more impressions, spend and impression queries agree, and invalid training data or queries are refused.",
    ["inputs"], "all shape and scale parameters, audiences, impressions and frequencies for which the mass beyond frequency 1000 is negligible; fits of small histograms",
    "The tests compare single values for one or two parameter sets; the distribution over frequencies, saturation and monotonicity are not covered.",
    [M + "gamma_poisson_model.py"],
    [("vectorised log-pmf and thinning up to frequency 1000", M + "gamma_poisson_model.py:GammaPoissonModel._kreach"), ("saturation at the inventory", M + "gamma_poisson_model.py:GammaPoissonModel.by_impressions")],
    "property-based testing against the closed form of the thinned distribution",
    "The slow parameter search is replaced by given parameters for most cases (as the repository's tests do); some cases run the real fit.",
)
prop(
    "C11", "The k-inflated Gamma-Poisson is a distribution, thinned correctly",
    "For all parameters the k-inflated Gamma-Poisson probabilities are the given inflation values (normalised if they sum to more than one) followed by the shifted Gamma-Poisson tail rescaled to the remaining mass: non-negative, summing to one, with the matching mean, and zero at frequency 0. Exact and at-least-k reach probabilities at show probability p are those of binomial thinning for any requested range, and fitted curves have non-increasing k+ reaches that rise from 0 to the whole audience, agree between spend and impressions and do not depend on the history of queries.",
    ["inputs", "histories"], "all alpha, beta and inflation vectors of length 0 to 6, show probabilities in [0, 1] and frequency ranges; fits of small histograms",
    "The tests check a few probabilities of a few parameter sets.",
    [M + "kinflated_gamma_poisson_model.py"],
    [("pmf with inflation", M + "kinflated_gamma_poisson_model.py:KInflatedGammaPoissonDistribution"), ("binomial thinning", M + "kinflated_gamma_poisson_model.py:KInflatedGammaPoissonDistribution.kreach")],
    "property-based testing against a direct evaluation and brute force thinning",
    "Frequencies above 1000 are negligible or allowed for in the tolerance; the optimiser itself is exercised on small fits only.",
)
prop(
    "C12", "Dirac mixture curves are Poisson mixtures scaled with impressions",
    "For every training histogram the fitted mixture weights are non-negative and sum to one, and the prediction at x impressions is the mixture of Poisson distributions whose means are scaled by x over the training impressions, capped at the requested frequency with everybody above it in the last bucket. Reach curves have k+ reaches that do not increase in k, do not fall with more impressions, stay within the universe (of any size), reproduce the training histogram when it is a Poisson mixture, and agree between spend and impressions; invalid histograms, training points and queries are refused.",
    ["inputs"], "all frequency histograms with 2 to 7 buckets, numbers of components, universes up to 4e9, impression scales and frequency caps",
    "The tests compare fixed vectors for a handful of histograms.",
    [M + "dirac_mixture_single_publisher_model.py"],
    [("cvxpy weights on the simplex", M + "dirac_mixture_single_publisher_model.py:UnivariateMixedPoissonOptimizer.fit"), ("scaled prediction", M + "dirac_mixture_single_publisher_model.py:UnivariateMixedPoissonOptimizer.predict")],
    "property-based testing against a direct evaluation of the mixture",
    "Tolerances allow for the accuracy of the convex solver; solver failures, documented as possible, are skipped and counted.",
)
prop(
    "C13", "Pairwise union surfaces are union reaches and the best feasible fit",
    "For any single publisher curves and training points the fitted pairwise union reach lies between the largest and the sum of the single reaches, is the publisher's own curve when only one is active and 0 when none is, and when a publisher buys more never falls and grows by at most that publisher's additional reach. No feasible overlap has a smaller squared error on the training points, exact identifying training points are recovered, spend and impression queries agree, and training points of different dimensions or none at all are refused.",
    ["inputs"], "all sets of 2 to 5 curves, training points (exact or noisy, also inconsistent ones) and query vectors including zeros",
    "The tests use one or two fixed overlaps and check the training points.",
    [M + "pairwise_union_reach_surface.py", M + "reach_surface.py"],
    [("quadratic program with row sums of the overlap at most 1", M + "pairwise_union_reach_surface.py")],
    "property-based testing: union laws, recovery of a generated truth, competitors",
    "QP solver tolerances of 1e-4 of the audience; optimality is checked against generated competitors, not proved.",
)
prop(
    "C14", "Restricted pairwise union surfaces stay admissible and fit the points",
    "For any single publisher curves and training points the fitted restricted pairwise union (overlap of two publishers proportional to the product of their parameters) satisfies the union laws: between the largest and the sum of single reaches, own curve when alone, never falling and never gaining more than the added publisher's reach when one buys more. Its squared error is comparable to or below that of other admissible parameters, the fit does not depend on global random state and ends for any number of publishers, and the admissible region and initial values are exactly those with non-negative parameters and overlap row sums of at most one.",
    ["inputs"], "all sets of 2 to 20 curves, training points (exact or noisy, also with a publisher that overlaps with nobody) and query vectors",
    "The tests check the steps of the search on fixed matrices and one fit.",
    [M + "restricted_pairwise_union_reach_surface.py"],
    [("coordinate descent within the admissible region", M + "restricted_pairwise_union_reach_surface.py:RestrictedPairwiseUnionReachSurface._step"), ("seeded generator", M + "restricted_pairwise_union_reach_surface.py")],
    "property-based testing: union laws, competitors, admissibility oracle",
    "Fewer restarts of the local search than by default (which takes minutes); error against competitors with generous slack.",
)
prop(
    "C15", "Generalized mixture surfaces are mixtures of independent clusters",
    "For given shares of the clusters the union reach of a generalized mixture surface is the sum over clusters of the universe times one minus the product over publishers of (1 - share x reach / universe), and fitted shares are non-negative and sum to one per publisher. Fitted surfaces satisfy the union laws up to solver accuracy, reproduce training points that come from such shares within 35% (usually 5%), agree between spend and impression queries, do not depend on global random state, and refuse training points of different dimensions or none at all.",
    ["inputs"], "all sets of 2 to 4 curves, 1 to 5 clusters, training points and query vectors including zeros",
    "The tests compare a few predictions for fixed shares.",
    [M + "generalized_mixture_reach_surface.py"],
    [("product formula", M + "generalized_mixture_reach_surface.py:GeneralizedMixtureReachSurface.get_reach_vector / by_impressions"), ("seeded restarts", M + "generalized_mixture_reach_surface.py")],
    "property-based testing against the documented formula, union laws",
    "Solver tolerance 1e-3 of the audience.",
)
prop(
    "C21", "Simulated Venn diagrams are a consistent measure on publisher subsets",
    "For every request, the simulated Venn diagram contains exactly one point for each non-empty subset of the publishers with positive spend, with the spends and impressions of that subset, and the reaches are those of a measure on the regions: inverting inclusion-exclusion gives back the clipped noised counts, per region, of a uniform sample of the reached users (as many as there are sketch registers hit by exactly one user) scaled to the noised total reach, which is what all active publishers together reach. With negligible noise and no sketch collisions each subset's share is the true one; no spend gives no point; maximum frequencies other than 1 and more than 20 active publishers are refused.",
    ["inputs", "configurations"], "all data sets with 1 to 5 active publishers (and up to 24 in total), spend vectors with zeros and beyond the data, sketch sizes, budgets and splits",
    "The tests check helper functions on fixed arrays and one mocked end-to-end case with few publishers.",
    [S + "halo_simulator.py", S + "publisher.py"],
    [("regions by bit pattern of a sampled register, noised, scaled, aggregated to subsets", S + "halo_simulator.py:simulated_venn_diagram_reach_by_spend")],
    "property-based testing: Moebius inversion and brute force regions",
    "Stand-in sketches and logging noisers replace the cardinality-estimation dependency.",
)
prop(
    "C22", "Simulated reach is the cleaned-up noised estimate of the right users",
    "A simulated reach request estimates exactly the users of events within both the requested spend and the publisher's campaign spend, over all publishers, in sketches made with the system's parameters, and publishes that noised estimate clipped at zero, made non-increasing in k and kept below the impressions, together with the requested spends, their impressions and the universe size. With negligible noise the result is the true k+ reach, ground truth queries are exact and not limited by the campaign spend, campaign spends are the given fractions of the maximum spends, the same seed gives the same answers, and repeated requests draw fresh noise.",
    ["inputs", "histories", "configurations"], "all data sets, campaign fractions, spend vectors inside, at and beyond the campaign, budgets, splits, maximum frequencies and query sequences",
    "The tests mock the estimator for one data set of two publishers.",
    [S + "halo_simulator.py", S + "publisher.py", S + "system_parameters.py"],
    [("per publisher sketch filtered by spend and campaign", S + "publisher.py:Publisher.liquid_legions_sketch"), ("clean-up", S + "halo_simulator.py:simulated_reach_by_spend")],
    "property-based testing against a brute force count with exact stand-in sketches",
    "Exact stand-in sketches instead of Liquid Legions, so that the estimate before noise is known.",
)

exec(open(os.path.join(ROOT, "tools", "meta_more.py")).read()) if os.path.exists(os.path.join(ROOT, "tools", "meta_more.py")) else None


def main():
    P.sort(key=lambda p: p["id"])
    props, checks = [], []
    for p in P:
        if not os.path.exists(os.path.join(ROOT, "vf", "checks", p["id"].lower() + ".py")):
            print("no check yet:", p["id"])
            continue
        assert len(p["title"]) <= 80, p["title"]
        anchors = {"files": p["files"], "mechanism": [{"name": n, "where": w} for n, w in p["mech"]], "hook_needed": None}
        if p["observe"]:
            anchors["observe_at"] = p["observe"]
        props.append({"id": p["id"], "title": p["title"], "statement": p["statement"],
                      "quantifier": {"over": p["over"], "text": p["text"]}, "why_tests_cant": p["why"], "anchors": anchors})
        checks.append({"property": p["id"], "quick_cmd": f"bash run.sh {p['id']}",
                       "thorough_cmd": f"VERIF_TIER=thorough bash run.sh {p['id']}",
                       "evidence_file": f"evidence/{p['id']}.json", "technique": p["technique"],
                       "level": p["level"], "level_note": p["note"]})
    with open(os.path.join(ROOT, "properties.jsonl"), "w") as f:
        for x in props:
            f.write(json.dumps(x) + "\n")
    man = {"version": 1, "setup_cmd": "bash setup.sh", "checks": checks, "not_applicable": [],
           "notes": "No hooks in /repo. All checks import /repo/src through a temporary link; see DESIGN.md."}
    with open(os.path.join(ROOT, "MANIFEST.json"), "w") as f:
        json.dump(man, f, indent=1)
        f.write("\n")
    print(len(props), "properties")


main()
