"""Writes /verif/properties.jsonl (kept as code so that long lines stay reviewable)."""
import json, pathlib

P = []


def prop(id, title, statement, over, qtext, why, files, mechanism, state=(), observe=(), hook=None):
    assert len(title) <= 80, (id, len(title))
    P.append({
        "id": id, "title": title, "statement": statement,
        "quantifier": {"over": over, "text": qtext},
        "why_tests_cant": why,
        "anchors": {
            "files": [f"skillmodels/{f}" for f in files],
            "state": [dict(zip(("name", "meaning", "where"), s)) for s in state],
            "mechanism": [dict(zip(("name", "where"), m)) for m in mechanism],
            "observe_at": list(observe),
            "hook_needed": hook,
        },
    })


prop(
    "C01", "The likelihood is the filter's answer for whatever data arrived",
    "For every valid model, parameter table and panel in which any subset of measurements, rows or later waves failed to arrive, the reported log likelihood, its per-individual contributions and every per-update debug output (contribution, residual, residual standard deviation, posterior state) equal those of the textbook recursion for that model. The recursion is: an exact Kalman update per arrived measurement (loadings, controls and measurement sd of that measurement and period), Bayes-updated mixture weights, an unscented prediction of the anchored factors with that period's transition parameters and shock sds between consecutive periods, and anchoring outcomes that enter the likelihood and the mixture weights without moving the states. Contributions are clipped softly as configured before they are summed.",
    ["inputs", "configurations", "fault_sequences"],
    "all model configurations (factors, mixtures, observed factors, controls, anchoring, stages, transition functions), all parameter values, and all loss patterns of the measurement feed",
    "The regression tests replay five variants of one 8-period, one-mixture model on one complete data set; no test has a missing measurement, a mixture, or an observed factor whose value matters.",
    ["likelihood_function.py", "kalman_filters.py", "parse_params.py", "process_data.py", "process_model.py", "transition_functions.py", "clipping.py"],
    [("scan over updates with conditional predict", "skillmodels/likelihood_function.py:_scan_body"),
     ("masking of missing measurements", "skillmodels/kalman_filters.py:kalman_update"),
     ("unscented predict on anchored factors", "skillmodels/kalman_filters.py:kalman_predict"),
     ("label-to-position parsing of parameters", "skillmodels/parse_params.py")],
    state=[("carry", "states, covariance roots and mixture weights handed from update to update", "skillmodels/likelihood_function.py")],
    observe=["get_maximization_inputs(...)['loglike']", "get_maximization_inputs(...)['debug_loglike']"],
)
prop(
    "C02", "Lost measurements are inert and data faults stay confined",
    "A measurement that does not arrive (missing, infinite, in an absent row, or discarded because a control of that individual and period is missing) contributes exactly zero and leaves that individual's state and mixture weights as they were. Losing, delaying or corrupting one individual's data never changes any other individual's contributions, residuals or states. It also never changes that individual's own results for updates that precede the fault, and discarding measurements because of missing controls is announced by a warning that names the individual and period.",
    ["fault_sequences", "inputs"],
    "all placements of losses and corruptions over individuals, periods and variables",
    "No test compares two runs that differ in a fault; the only missing-data test checks one private helper on a 4-row frame.",
    ["kalman_filters.py", "process_data.py", "likelihood_function.py"],
    [("pre-update values kept where the measurement is missing", "skillmodels/kalman_filters.py:kalman_update"),
     ("measurements dropped when controls are missing", "skillmodels/process_data.py:_handle_controls_with_missings")],
    observe=["loglike contributions", "debug_loglike all_contributions, residuals, post_update_states"],
)
prop(
    "C03", "Delivery order, labels and container history of the panel do not matter",
    "Likelihood, filtered states and correlations depend only on the delivered (individual, wave, variable) values: the order of rows and columns, the values of the id and period codes beyond their order, unrelated columns, waves after the model's last period, and the history of the frame's index have no effect, and results come in ascending order of the original ids. A row that is absent is equivalent to a row of missing values. A panel that cannot be used (a duplicated row, a required variable absent, a control missing for everybody in a period, a measurement that is constant in a period, a missing observed factor) is refused with an error instead of yielding numbers.",
    ["fault_sequences", "histories", "inputs"],
    "all reorderings, relabellings, duplications and losses of rows, and all index construction histories of the data frame",
    "Tests feed one Stata file in its stored order, with codes 1..n and a freshly built index.",
    ["process_data.py", "correlation_heatmap.py", "filtered_states.py", "likelihood_function.py"],
    [("sorting, recoding and balancing of the panel", "skillmodels/process_data.py:pre_process_data"),
     ("refusal of unusable data", "skillmodels/process_data.py:_check_data")],
    observe=["get_maximization_inputs", "get_filtered_states", "get_measurements_corr"],
)
prop(
    "C04", "All views of the likelihood agree and stay differentiable under data loss",
    "The compiled log likelihood, the debug version, the combined value-and-gradient, the gradient and the jacobian (in either differentiation mode) describe one function: equal values and contributions, a value equal to the sum of the contributions, and derivatives equal to the directional derivatives of the value, reported in the row order of the parameter template. Values and derivatives stay finite whatever subset of measurements and controls failed to arrive.",
    ["fault_sequences", "inputs", "configurations"],
    "all loss patterns of measurements and controls, models and parameter values",
    "No test evaluates gradient or jacobian at all.",
    ["likelihood_function.py", "kalman_filters.py", "clipping.py"],
    [("safe fill values for missing measurements and controls", "skillmodels/kalman_filters.py:kalman_update"),
     ("grad/jac of the same base function", "skillmodels/likelihood_function.py:get_maximization_inputs")],
    observe=["loglike", "debug_loglike", "gradient", "jacobian", "loglike_and_gradient"],
)
prop(
    "C05", "Estimation functions are history-free snapshots of their inputs",
    "The functions returned for a model answer every parameter table with the value that model, data and parameters determine, regardless of what was called before: other parameters, failing calls, other models, other public functions. Later changes by the caller to the model specification, the data, a parameter table, the returned template or a returned result do not influence later answers. No public function modifies the model specification, data or parameter objects passed to it.",
    ["histories"],
    "all finite sequences of public calls, caller-side mutations and failing calls",
    "Each test builds its objects afresh, calls one function once and looks at the result.",
    ["likelihood_function.py", "process_model.py", "process_data.py", "filtered_states.py", "simulate_data.py", "utilities.py", "visualize_transition_equations.py", "visualize_factor_distributions.py"],
    [("deep copies of caller data", "skillmodels/process_data.py:pre_process_data"),
     ("closures over processed copies", "skillmodels/likelihood_function.py:get_maximization_inputs")],
    state=[("closures", "data and parsing info captured by the returned functions", "skillmodels/likelihood_function.py")],
    observe=["results of every call in the history", "fingerprints of all caller-owned objects"],
)
prop(
    "C06", "An interrupted or failing call leaves no trace",
    "If a public call is cut short at any point (keyboard interrupt, failed allocation, error raised by a dependency or by a user transition function), the caller's model, data and parameter objects are unchanged, process-wide state (warning filters, numpy error state, numeric precision, random generator of non-random functions, pandas options) is as before the call, and repeating the call or using previously returned functions gives the same answers as if the interrupted call had never been made.",
    ["crash_points", "histories"],
    "all program points at which the call can be cut short, in all public functions",
    "No test injects a failure; cleanup paths are never executed.",
    ["likelihood_function.py", "process_model.py", "process_data.py", "parse_params.py", "constraints.py", "simulate_data.py", "filtered_states.py", "utilities.py"],
    [("no partially published state; context managers for temporary settings", "whole package")],
    observe=["caller objects", "process-wide settings", "answers after the failure"],
)
prop(
    "C07", "Concurrent callers get the sequential answers",
    "When several threads use the library at the same time, on shared or separate models, every call returns what it would have returned alone, no call fails or blocks forever because of another, and once all calls have returned, process-wide state such as the list of warning filters is as it was before. This covers building estimation functions, evaluating likelihood and derivatives, filtering states, editing models and simulating without noise.",
    ["schedules"],
    "all interleavings of concurrent public calls at source-line granularity",
    "All tests are single threaded.",
    ["likelihood_function.py", "parse_params.py", "constraints.py", "process_data.py", "process_model.py", "filtered_states.py", "utilities.py"],
    [("no shared mutable state between calls", "whole package")],
    observe=["per-call results", "warnings.filters after quiescence"],
)
prop(
    "C08", "Parameter tables are matched by label; unusable ones are refused",
    "Estimation functions match parameter rows by their labels: row order and additional columns have no effect on any result. A table with missing, additional or duplicated rows is refused with an error that names the missing and additional labels, and a refusal has no effect on later calls.",
    ["fault_sequences", "histories", "inputs"],
    "all reorderings, losses, duplications and additions of parameter rows, in any position of a call history",
    "Tests always pass a table in template order; the refusal path is not executed.",
    ["likelihood_function.py", "filtered_states.py", "parse_params.py"],
    [("comparison and reindexing against the template index", "skillmodels/likelihood_function.py:_get_jnp_params_vec")],
    observe=["loglike", "debug_loglike", "gradient", "loglike_and_gradient", "get_filtered_states"],
)
prop(
    "C09", "Randomness enters only through numpy's global generator",
    "A simulated panel (measurements, states, policies with random effects) and a transition plot that averages over draws are functions of their arguments and of the state of numpy's global random generator alone: the same seed gives bitwise the same result, after any history of other calls and in any process, while different seeds give different noise. Functions that are not random (building and evaluating likelihoods, filtering, editing models, correlations, densities) neither consume nor reseed the generator, nor depend on its state.",
    ["histories", "schedules"],
    "all seeds, all call histories between seeding and drawing, all processes",
    "Tests never seed, never simulate twice and never look at the generator state.",
    ["simulate_data.py", "visualize_transition_equations.py"],
    [("draws through numpy.random module functions", "skillmodels/simulate_data.py")],
    state=[("numpy global RandomState", "only source of randomness", "numpy.random")],
    observe=["simulate_dataset", "get_transition_plots", "numpy.random.get_state()"],
)
prop(
    "C10", "Simulated panels follow the model's data generating process",
    "For any random stream, simulated initial factors are draws from the specified mixture of normals, each next factor equals the model's transition function of the (anchored) current and observed factors plus a normal shock with that period's and factor's sd, and each measurement equals its loadings times the factors plus its control effects plus a normal error with its own sd; all draws are independent across individuals, periods and variables. With all sds zero the panel is exactly the deterministic path. Individuals and periods are those of the supplied data in ascending id order, measurements of individuals with unusable controls are missing rather than wrong, and anchored states are the anchoring equation applied to the unanchored ones.",
    ["histories", "inputs", "configurations"],
    "all random streams, models and supplied control/observed-factor panels with losses",
    "The only simulation test compares ratios of anchored to unanchored ranges; nothing checks a drawn value.",
    ["simulate_data.py", "kalman_filters.py", "filtered_states.py", "parse_params.py"],
    [("sequential generation period by period", "skillmodels/simulate_data.py:_simulate_dataset")],
    observe=["simulate_dataset(...)['measurements' | 'unanchored_states' | 'anchored_states']"],
)
prop(
    "C11", "Policy shocks hit the named factor and period and propagate only forward",
    "Simulating with a policy of zero standard deviation and without it under the same random stream gives identical states and measurements before the policy's period. In that period (any but the last) the named factor's state of every individual is shifted by exactly the effect size, other factors are not, and measurements follow the shifted state. Later periods differ exactly by the propagation of the shift through the transition functions, and several policies add up. With a positive standard deviation the individual shifts are independent normal draws around the effect size with that standard deviation, for the named factor and period only. A negative standard deviation is refused.",
    ["fault_sequences", "histories"],
    "all sets of injected shocks (period, factor, size, sd), models and random streams",
    "No test simulates with a policy.",
    ["simulate_data.py"],
    [("shock added before the transition of its period", "skillmodels/simulate_data.py:_simulate_dataset")],
    observe=["simulate_dataset with and without policies under one seed"],
)
prop(
    "C12", "Reported states are posterior means with the right labels, anchored right",
    "Filtered states contain, for every individual and every measured period, exactly one row labelled with that period and with the individual's rank, holding the mixture-weighted mean after the last measurement that individual delivered up to that period. Anchored states equal the period's anchoring constant (unless ignored) plus loading times the unanchored state for anchored factors and the unanchored state for the others, independent of the order in which anchoring outcomes are listed. State ranges are the per-period minimum and maximum over individuals, and per-update debug tables label individual, mixture component, period and measurement correctly.",
    ["inputs", "configurations", "fault_sequences"],
    "all models (mixtures, anchoring of any subset of factors in any order) and loss patterns",
    "One test checks the ratio of anchored to unanchored ranges for one model with one anchored factor; labels are never checked.",
    ["filtered_states.py", "process_debug_data.py", "parse_params.py"],
    [("selection of the last measurement update per period", "skillmodels/process_debug_data.py:_create_filtered_states"),
     ("anchoring with parsed scaling factors and constants", "skillmodels/filtered_states.py:anchor_states_df")],
    observe=["get_filtered_states", "debug_loglike tables"],
)
prop(
    "C13", "Any sequence of model edits yields the model one would have written by hand",
    "Extracting or removing factors, removing measurements or controls, shortening the model and switching between linear and translog, in any order and number, yields exactly the specification obtained by deleting those pieces by hand, which is accepted as a valid model. A parameter table passed along ends up with exactly the rows of the edited model's template, unchanged values for surviving rows and the documented fill value for new ones; updating parameters overwrites exactly the supplied labels, later tables winning. The original specification and table stay untouched, also when an edit fails.",
    ["histories", "crash_points"],
    "all finite sequences of edits over all models, with interruptions at any point",
    "Each edit is tested once, alone, on one model.",
    ["utilities.py", "process_model.py", "params_index.py"],
    [("deep copies and nested-list surgery", "skillmodels/utilities.py")],
    observe=["utilities.* return values", "template of the edited model"],
)
prop(
    "C14", "Correlation tables reflect exactly the delivered measurements",
    "Measurement correlations, quasi-score correlations and score correlations equal the pairwise-complete correlations of, respectively, the delivered measurements, the means of standardized measurements, and the means of measurements mapped to the factor scale with that period's intercepts and loadings (excluding measurements that load on several factors), together with the observed factors. Each value is attributed to the right variable, individual and period for any selection of factors and periods, any delivery order and any pattern of lost rows and values.",
    ["fault_sequences", "inputs"],
    "all loss patterns and delivery orders of the panel, all selections of factors and periods",
    "Tests call private helpers on small complete frames; no test has a lost row, a shuffled panel or goes through the public functions.",
    ["correlation_heatmap.py", "process_data.py"],
    [("balancing before stacking periods side by side", "skillmodels/correlation_heatmap.py:_get_measurement_data_for_multiple_periods")],
    observe=["get_measurements_corr", "get_quasi_scores_corr", "get_scores_corr"],
)
prop(
    "C15", "Plots show the model evaluated on the delivered data",
    "Transition plots contain, per input and output factor, the output factor's transition function of that period evaluated on a grid over the input's state range with the other factors held at the requested quantiles of the anchored filtered states (or averaged over the drawn individuals). Density plots contain the kernel densities of the selected period's states and observed factors, pairing values of the same individual, and combined figures place every plot at its row and column with the requested labels. This holds for any delivery order and loss pattern of the panel and any selection or order of factors, and none of it depends on hash order.",
    ["fault_sequences", "inputs", "schedules"],
    "all delivery orders, losses, factor selections, random streams and hash seeds",
    "Tests only check that plotting functions run on one complete data set.",
    ["visualize_transition_equations.py", "visualize_factor_distributions.py", "utils_plotting.py"],
    [("merge of filtered states and observed factors", "skillmodels/visualize_transition_equations.py:_get_states_data"),
     ("pairing of latent and observed factors", "skillmodels/visualize_factor_distributions.py:_process_data")],
    observe=["trace data of get_transition_plots, univariate_densities, bivariate_density_contours, bivariate_density_surfaces and the combine functions"],
)
prop(
    "C16", "The filter is calibrated for data produced by the simulator",
    "For linear models with normally distributed factors, when a panel is simulated from the model and any part of it is lost independently of its values, the standardized one-step prediction errors reported by the filter at the true parameters are independent standard normal draws across individuals and updates, and the filtered states are unbiased for the simulated true states with the same covariance for all individuals with the same loss pattern. The log likelihood at the true parameters exceeds that at clearly wrong parameters for large samples.",
    ["histories", "fault_sequences"],
    "all linear models, random streams and value-independent loss patterns",
    "No test connects simulation and estimation.",
    ["simulate_data.py", "likelihood_function.py", "kalman_filters.py", "process_data.py"],
    [("same parsing and transition code in both directions", "skillmodels/simulate_data.py, skillmodels/likelihood_function.py")],
    observe=["simulate_dataset fed into debug_loglike"],
)
prop(
    "C17", "Results do not depend on the process environment",
    "Every public function gives the same results in every process: whatever the hash seed, the number of host threads of the numeric backend, the order in which the package's modules were imported, the pandas copy-on-write setting, the locale's or the working directory's value, and whatever unrelated calls the process made before. Results on disk or in memory from one process are therefore valid in any other.",
    ["configurations", "schedules"],
    "all combinations of environment settings and import orders",
    "Tests run with one hash seed, one import order and default settings.",
    ["likelihood_function.py", "utilities.py", "visualize_factor_distributions.py", "process_model.py", "simulate_data.py"],
    [("no iteration over unordered sets in results; precision enabled at import", "skillmodels/likelihood_function.py")],
    observe=["digests of all public results across processes"],
)
# --- properties without schedule, fault, clock or randomness: not applicable here ---
prop(
    "C18", "The generated constraints are exactly those implied by the specification",
    "The constraint list contains, and contains only, fixed normalizations, the mixture weight restriction, equality of transition and shock parameters within stages, fixed zero shocks of constant factors, ordering of mixture means, restrictions inherent to transition functions, and the anchoring restrictions chosen in the specification. All locations exist in the parameter template.",
    ["configurations"], "all model specifications",
    "Tests cover each generator on one hand-written input; their union over arbitrary models is not covered.",
    ["constraints.py"], [("list of constraint generators", "skillmodels/constraints.py:get_constraints")],
    observe=["get_maximization_inputs(...)['constraints']"],
)
prop(
    "C19", "The parameter template has one row per model parameter, with valid bounds",
    "The template contains exactly one row for every parameter the model needs and no other, and lower bounds are set for all standard deviations and the diagonal of the initial covariance root and for nothing else.",
    ["configurations"], "all model specifications",
    "Tests compare one model's index with a stored table.",
    ["params_index.py", "constraints.py"], [("index tuple generators", "skillmodels/params_index.py"), ("bounds", "skillmodels/constraints.py:add_bounds")],
    observe=["get_maximization_inputs(...)['params_template']"],
)
prop(
    "C20", "Inconsistent model specifications are refused with a complete report",
    "Every specification that violates the documented rules (stage map, anchoring, measurements, normalizations) is refused with an error that lists all problems, and every consistent one is accepted.",
    ["configurations"], "all model specifications",
    "The checks are not tested at all.",
    ["check_model.py", "process_model.py"], [("collected report", "skillmodels/check_model.py:check_model")],
    observe=["process_model", "get_maximization_inputs"],
)
prop(
    "C21", "Each built-in transition function computes its documented formula",
    "Linear, translog, robust translog, linear-and-squares, log CES, general log CES and constant transition functions compute their documented formula for all states and parameters, with parameter names in the order in which they are consumed, and stay finite for states far from zero.",
    ["inputs"], "all states and parameter values",
    "Tests check one state vector per function.",
    ["transition_functions.py"], [("formulas", "skillmodels/transition_functions.py")],
    observe=["skillmodels.transition_functions"],
)
prop(
    "C22", "Soft clipping is a smooth, monotone approximation of hard clipping",
    "Clipped values lie within a hardness-dependent distance of the hard-clipped ones, preserve order, never exceed the bounds by more than that distance and are finite for infinite inputs on the clipped side.",
    ["inputs"], "all arrays, bounds and hardness values",
    "Tests check a few arrays and bounds.",
    ["clipping.py"], [("log-sum-exp as soft maximum", "skillmodels/clipping.py:soft_clipping")],
    observe=["soft_clipping"],
)
prop(
    "C23", "Heatmaps render exactly the selected part of a correlation table",
    "A heatmap shows each retained correlation once, rounded as requested, at its row and column label, hides exactly the masked triangle or diagonal, and scales colours symmetrically unless told otherwise.",
    ["inputs"], "all correlation tables and display options",
    "Tests check the mask helper on a few shapes.",
    ["correlation_heatmap.py"], [("masking and annotation", "skillmodels/correlation_heatmap.py:plot_correlation_heatmap")],
    observe=["plot_correlation_heatmap"],
)

out = pathlib.Path(__file__).resolve().parent.parent / "properties.jsonl"
out.write_text("".join(json.dumps(p) + "\n" for p in P))
print(len(P), "properties")
