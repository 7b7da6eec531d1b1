FS = "src/filesystem_wrappers/"
prop(
    "C16", "Generated impressions and prices follow the documented distributions",
    "For all parameters and seeds every impression generator shows every user id from 0 to n-1 at least once and no other, with per-user impressions distributed as documented (one plus a Poisson number with the given mean, one plus a Poisson number with a Gamma distributed mean, or the zeta law with the given exponent), independent of the user's id, and in random order. Fixed prices give the k-th impression the cost k times the price per impression, keep every impression and its order; equal random generators give equal impressions, and a generator advances from call to call.",
    ["inputs"], "all user numbers, distribution parameters, seeds and impression lists",
    "The tests mock the random numbers or check one small list; the distribution of the generated data, which every conclusion of the framework rests on, is never measured.",
    [DG + "homogeneous_impression_generator.py", DG + "heterogeneous_impression_generator.py", DG + "heavy_tailed_impression_generator.py", DG + "fixed_price_generator.py"],
    [("draw, repeat, shuffle", DG + "heterogeneous_impression_generator.py:HeterogeneousImpressionGenerator.__call__"), ("zeta law", DG + "heavy_tailed_impression_generator.py")],
    "property-based testing against exact laws and probability mass functions",
    "Exact for users, order and prices; statistical (8 standard deviations) for the distributions.",
)
prop(
    "C17", "Overlap labelling keeps every publisher's own curve",
    "For any publishers and any sets of new ids, the labelled data set has for every publisher the same name, the same events at the same costs and in the same order up to a one-to-one renaming of its users into its set, so every single-publisher curve is unchanged and the reach of any group of publishers is the size of the union of their new ids. The independent and sequentially correlated constructions use ids of the given universe only, have the overlaps the construction prescribes, and are reproducible from their random generator.",
    ["inputs", "configurations"], "all publishers with any event logs, all families of id sets, universes, orders and correlations",
    "The test module needs the cardinality-estimation package and uses one pair of publishers.",
    [DG + "overlap_data_set.py", DG + "independent_overlap_data_set.py", DG + "sequentially_correlated_overlap_data_set.py"],
    [("one-to-one map from old to new ids", DG + "overlap_data_set.py:OverlapDataSet._label_ids")],
    "property-based testing against a brute force comparison up to renaming",
    "The set generators of the cardinality-estimation package are replaced by stand-ins.",
)
prop(
    "C18", "Synthetic data designs contain exactly what their parameters describe",
    "For every list of data set parameters, the generated design holds one data set per parameter set, under its given or derived name, with the described number of publishers, publisher sizes decaying from the largest by the given ratio, the described prices, impression law and overlap, and a universe no smaller than the data. The same seed writes the same files and another seed others, parameter sets that differ have different derived names, and the shipped designs are well formed.",
    ["inputs", "configurations"], "all parameter sets (publishers, sizes, ratios, impression, price and overlap generators, names) and seeds; the five shipped designs",
    "The test module needs the cardinality-estimation package; it checks the count of files of one small design.",
    [DG + "synthetic_data_design_generator.py", DG + "data_set_parameters.py", DG + "lhs_data_design_example.py", DG + "m3_data_design.py", DG + "simple_data_design_example.py", DG + "single_publisher_design.py", DG + "analysis_example_data_design.py"],
    [("publishers generated one by one, overlapped, added", DG + "synthetic_data_design_generator.py:SyntheticDataDesignGenerator"), ("name from all parameters", DG + "data_set_parameters.py:DataSetParameters.__str__")],
    "property-based testing against the parameters; determinism by double generation",
    "Files written to scratch directories are read back and compared with the parameters.",
)
prop(
    "C19", "Test points cover the spend range as their strategy says",
    "For every data set, grid test points are exactly the product of equally spaced inner fractions of the publishers' maximum spends, Latin hypercube points have exactly one point per equal stratum of every publisher's spend range and uniform points are independent and uniform on it, all with the documented number of points and never outside zero to the maximum spend. The points depend only on the data set and the generator given, not on other random state or on earlier calls, and an unknown strategy is refused.",
    ["inputs", "configurations"], "all data sets of 1 to 6 publishers, maximum spends, numbers of points and seeds",
    "The tests check the number of points and their range for one or two data sets.",
    [DR + "grid_test_point_generator.py", DR + "uniformly_random_test_point_generator.py", DR + "latin_hypercube_random_test_point_generator.py", DR + "test_point_generator.py", DR + "experiment_parameters.py"],
    [("product of fractions", DR + "grid_test_point_generator.py"), ("maximin Latin hypercube", DR + "latin_hypercube_random_test_point_generator.py")],
    "property-based testing against the documented point sets and strata",
    "Exact for grids, strata, counts and reproducibility; statistical for uniformity.",
)
prop(
    "C20", "Error statistics are those of the points given",
    "For every pair of lists of true and modelled reach points, every statistic of a trial (number of points; mean, absolute, squared and relative errors with their variances and quantiles; relative errors of the k+ reach for k from 2 to 9; shuffle distance of the frequency histograms) equals its definition over exactly the given points, whatever their order. A trial whose model failed has exactly the same columns, without values, and perfect predictions have no error.",
    ["inputs"], "all lists of pairs of k+ reach vectors (equal and ragged lengths, reaches up to 3e9, integers and floats)",
    "The tests evaluate each statistic for one fixed pair of lists, mostly at frequency 1.",
    [DR + "test_point_aggregator.py"],
    [("table of statistics per frequency", DR + "test_point_aggregator.py:aggregate / aggregate_on_exception")],
    "property-based testing against independently written definitions",
    "Each column is compared with a separate implementation at relative tolerance 1e-6.",
)
prop(
    "C23", "An interrupted trial can be re-run and gives the same result",
    "However a trial is interrupted (before, in the middle of or after any file operation, or while fitting) and however its result file is truncated, running it again yields the row an uninterrupted run gives, and a complete stored result is returned unchanged without fitting again. Results of different trials never overwrite or replace each other, and files of other trials and data sets stay as they were.",
    ["crash_points", "fault_sequences", "histories"], "all trials, all positions of one or two crashes, all truncations of the result file, all sets of stored results",
    "The tests run one trial to the end and read its cached result once; no crash or partial file is ever produced.",
    [DR + "experimental_trial.py", DR + "experiment.py", FS + "filesystem_pathlib_wrapper.py"],
    [("result file written after evaluation, pending entry around it", DR + "experimental_trial.py:ExperimentalTrial.evaluate")],
    "fault injection over generated trials and crash points, compared with an uninterrupted run",
    "Crashes are exceptions raised at every file operation and fit; torn writes leave a prefix.", None, "fault_enumeration",
)
prop(
    "C24", "Experiments evaluate every trial once, the same however they are run",
    "For every data design and list of trial descriptors, an experiment evaluates every combination of data set and distinct descriptor exactly once and returns or writes one row for each, and the rows are the same whether it is run serially, on several processes, with Beam, resumed from stored results, in a directory that holds results of another type of analysis, in another order or with other trials present, and from one run to the next with the same seed. The driver writes exactly these rows to its output file.",
    ["inputs", "configurations", "schedules"], "all data designs, descriptor lists (duplicates, failing models, shared random generators), worker numbers, bundles and prior results",
    "The tests of these modules need Apache Beam and the cardinality-estimation package; they run one design once.",
    [DR + "experimental_design.py", DR + "experiment.py", DR + "experiment_driver.py", DR + "experimental_trial.py"],
    [("trials generated from set of descriptors, mapped over a pool or a pipeline", DR + "experimental_design.py:ExperimentalDesign.load")],
    "differential testing of execution modes over generated experiments",
    "Models are cheap deterministic functions of their training points; Beam is an in-process stand-in.",
)
prop(
    "C25", "Local and cloud storage behave alike",
    "For every history of writes, reads, existence tests, listings, globbing, directory creation and removals, the local and the cloud file system wrappers return what a dictionary of files predicts, and data designs and trials kept in cloud storage contain and return exactly what they do locally.",
    ["histories"], "all sequences of file operations on paths of any depth; all data designs and trials",
    "The tests call each method once on one file.",
    [FS + "filesystem_pathlib_wrapper.py", FS + "filesystem_cloudpath_wrapper.py", FS + "filesystem_wrapper_base.py"],
    [("delegation to pathlib and cloudpathlib", FS + "filesystem_cloudpath_wrapper.py")],
    "stateful property-based testing against a dictionary model, differential between wrappers",
    "Cloud storage is cloudpathlib's local stand-in in a scratch directory.",
)
prop(
    "C26", "Trial descriptors are unambiguous and adapt to data sets without changing",
    "Trial descriptors that differ in any strategy, model, system or experiment parameter (other than the state of the random generator) have different names, and a descriptor built again has the same name, since the name keys the stored result. Adapting a descriptor to a data set fills in the number of publishers and the campaign fractions of that data set without changing the original, instantiating a descriptor gives the strategy and models it names with their parameters, unknown names are refused, and the shipped experimental designs contain distinct runnable trials.",
    ["inputs", "configurations"], "all pairs of descriptors differing in one parameter, all data sets, all known and unknown model names, all seeds of the shipped designs",
    "The tests compare the name of one descriptor with a literal.",
    [DR + "trial_descriptor.py", DR + "modeling_strategy_descriptor.py", DR + "experiment_parameters.py", "src/simulator/system_parameters.py", DR + "sample_experimental_design.py", DR + "m3_first_round_experimental_design.py", DR + "single_publisher_design.py", DR + "analysis_example_experimental_design.py"],
    [("name from all parts", DR + "trial_descriptor.py:TrialDescriptor.__str__"), ("factories", DR + "modeling_strategy_descriptor.py")],
    "property-based testing: pairs differing in one parameter, purity of adaptation",
    "Pairs of names compared; adapted descriptors compared field by field.",
)
prop(
    "C27", "Ground truth curves and the planner report the data and the fitted model",
    "For every data set and publisher, the ground truth curve at any impressions or spend is that publisher's k+ reach with all other publishers at zero, with the matching impressions and spends. The planner's true reach is the data set's own, its modelled reach is that of the model its strategy fitted, at the spends asked for and with the frequency asked for, and asking for true reaches costs no privacy budget. A publisher's own true reach at any spend is that of its data, with the matching impressions.",
    ["inputs", "histories"], "all data sets of 1 to 4 publishers, all spends, impression counts and maximum frequencies, repeated fits",
    "The tests of these modules use mocks and one data set.",
    [M + "ground_truth_reach_curve_model.py", S + "planner_simulator.py", S + "publisher.py"],
    [("query with other publishers at zero", M + "ground_truth_reach_curve_model.py"), ("delegation", S + "planner_simulator.py:PlannerSimulator")],
    "property-based testing against a brute force count and recording models",
    "Exact comparison with a brute force count.",
)
prop(
    "C28", "Strategies train their models on the intended noisy measurements",
    "The multi-publisher strategy requests, with an equal share of the budget per request, the reach of every publisher alone at its campaign spend, of all publishers together, and of the combinations of all publishers but one if there are more than two, and trains every curve on its own publisher's points and the surface on these curves and the combinations, with the frequencies and parameters given. The single-publisher strategy trains its model on the whole campaign with the whole budget and refuses several publishers without spending any; with ground truth curves no budget goes into them.",
    ["inputs", "configurations"], "all data sets of 1 to 5 publishers, campaign fractions including 0, budgets, model parameters",
    "The tests of these modules need the cardinality-estimation package and use mocks of one configuration.",
    [S + "m3_strategy.py", S + "single_publisher_strategy.py"],
    [("requests and training points", S + "m3_strategy.py:M3Strategy.fit")],
    "property-based testing with recording models and a recording simulator",
    "Every request and every training point is compared with the intended list.",
)
prop(
    "C29", "A trial's row describes the trial and compares model with truth",
    "For every data set and trial descriptor, the row written has the names and parameters of exactly that trial and data set, the error statistics of the fitted model against the true reaches of the data set at the trial's test points, the privacy budget actually consumed, and, with single publisher analysis, the same comparison of each publisher's curve at the documented spend fractions. A model that fails gives a row with the same columns, marked as failed.",
    ["inputs", "configurations"], "all data sets of 1 to 4 publishers, strategies, models, failing models, budgets, maximum frequencies and test point strategies",
    "The test module needs Apache Beam and the cardinality-estimation package and mocks the parts a row is computed from.",
    [DR + "experimental_trial.py", DR + "test_point_aggregator.py", S + "planner_simulator.py"],
    [("evaluation and row", DR + "experimental_trial.py:ExperimentalTrial.evaluate")],
    "property-based testing against a brute force recomputation of the row",
    "Every column is recomputed from the data set, the recorded model and the noiser log.",
)
prop(
    "C30", "Gamma-Poisson fits recover data of their own family",
    "Trained on the k+ reaches of an audience that is itself Gamma-Poisson (100 to 100000 people, gamma shape and scale from 0.3 to 5, a tenth to nine tenths of the inventory shown, 2 to 10 frequencies), the models find it again: the Gamma-Poisson model with the audience given reproduces the training k+ reaches, and the reach at half and at one and a half times the impressions, within 6%, and usually within 0.4%, 1% and 1.5%; the k-inflated model reproduces the training k+ reaches within 5% (usually 0.6%) and the reach at half the impressions within 6% (usually 1%); the Gamma-Poisson model that has to find the audience too is within 15% for both. The k-inflated model trained on an audience with inflated shares at one and two impressions reproduces the training k+ reaches within 15% (usually 0.6%) and half the impressions within 20% (usually 2%). Fitted with an extrapolation multiplier m, both models have an inventory of (nearly) m times the training impressions or more: of 0.95 times that, (nearly) every impression still reaches somebody.",
    ["inputs"], "all Gamma-Poisson audiences in the stated range, all fractions shown and numbers of frequencies",
    "The tests fit a few fixed histograms, most of them with private functions and mocked optimisers.",
    [M + "gamma_poisson_model.py", M + "kinflated_gamma_poisson_model.py"],
    [("chi-squared fits from several starting points", M + "gamma_poisson_model.py:GammaPoissonModel._fit"), ("successive fits with inflation", M + "kinflated_gamma_poisson_model.py:KInflatedGammaPoissonModel._fit_point")],
    "property-based testing: round trip from parameters to histogram to fitted curve",
    "Random parameters produce exact histograms by an independent formula; the fitted curve is compared with the truth.",
)
