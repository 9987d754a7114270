"""Writes /verif/properties.jsonl (kept as code only so that it is easy to edit)."""
import json, os

A = "src/frds/algorithms/"
M = "src/frds/measures/"
MM = M + "modified_merton/"
IF = A + "isolation_forest/"
P = []


def prop(id, title, statement, over, text, why, files, mech, observe=None, state=None, hook=None):
    a = {"files": files, "mechanism": [dict(name=n, where=w) for n, w in mech]}
    if state:
        a["state"] = [dict(name=n, meaning=m, where=w) for n, m, w in state]
    if observe:
        a["observe_at"] = observe
    a["hook_needed"] = hook
    P.append(dict(id=id, title=title, statement=statement,
                  quantifier=dict(over=over, text=text), why_tests_cant=why, anchors=a))


prop("C01", "Native routines never touch memory they do not own",
     "No call that reaches a compiled routine through the library - scoring an isolation forest, computing GARCH or GJR-GARCH variances, EWMA variances, bound adjustment, DCC correlations, LRMES - reads or writes memory outside its own buffers, uses freed or uninitialised storage, or executes undefined behaviour, for any data size, element type, memory layout (strided, reversed, transposed, read-only) or string content. Every memory layout and numeric element type of the same numbers gives the same result as a contiguous double array. Input that cannot be used (wrong number of parameters, series and bounds of different lengths, not an array, no attributes, no trees) is refused with an ordinary Python exception, never with a crash or with numbers computed from stray memory.",
     ["inputs", "configurations"],
     "every argument of the calls above: lengths 0..large, int/float32/float64/big-endian, C/Fortran/strided/reversed views, strings that fill their cell, NaN/inf, short or over-long parameter lists",
     "The tests call the native code with contiguous float64 arrays of matching length only, in an uninstrumented build, so an over-read that returns plausible numbers passes; nothing tests the isolation forest at all.",
     [A + "utils/utils_module.cpp", A + "utils/garch.hpp", A + "utils/mgarch.hpp", IF + "iforest_module.cpp", IF + "IsolationForest.cpp", M + "measures_module.cpp", M + "lrmes.hpp"],
     [("argument conversion and shape checks in the extension wrappers", A + "utils/utils_module.cpp, " + M + "measures_module.cpp, " + IF + "iforest_module.cpp"),
      ("bounded string comparison", IF + "IsolationForest.cpp")],
     ["AddressSanitizer/UBSan reports", "values returned for unusual layouts against the contiguous copy", "exception type"])

prop("C02", "Isolation-forest scores do not depend on threads or scheduling",
     "For a given data frame, forest size, tree size and random seed, the anomaly scores are bit-for-bit the same on every call, whatever number of processors the process may use, however the worker threads are scheduled, whatever calls came before and whether or not other threads are scoring other data at the same time. Growing and scoring the forest contain no data race. Different random seeds grow different forests.",
     ["schedules", "histories", "configurations"],
     "every interleaving of the worker threads, every processor count, every history of earlier and concurrent calls, every seed",
     "No test touches the isolation forest; a single run on one machine cannot distinguish a result that depends on the number of workers from one that does not.",
     [IF + "IsolationForest.cpp", IF + "IsolationForest.hpp", IF + "iforest_module.cpp", IF + "__init__.py"],
     [("trees seeded by tree number and random seed, 'unaffected by the worker threads used'", IF + "IsolationForest.cpp: grow"),
      ("mutex around the shared forest; disjoint score slots", IF + "IsolationForest.cpp")],
     ["ThreadSanitizer reports", "scores under CPU affinity masks 1..8, injected scheduling delays, concurrent callers"],
     [("trees", "the grown forest shared by the workers", IF + "IsolationForest.hpp")])

prop("C03", "Isolation-forest scores mean what the algorithm says",
     "Anomaly scores are finite, lie between 0 and 1, come one per row under the requested name with the caller's index in the caller's order, and the caller's frame is not modified. Up to Monte Carlo error they are those of an isolation forest of independently grown trees, each on a fresh sample without replacement, split on uniformly chosen columns at the value of a uniformly chosen sampled row (missing numbers below all others, strings by length then alphabetically), up to a height of the binary logarithm of the tree size, rounded up. Rows that agree on every used column get the same score, excluded columns have no influence, and replacing a numeric column by a strictly increasing transformation of itself changes no score.",
     ["inputs"],
     "data frames with any mix of numeric and string columns, duplicates, ties, missing values, any index, sizes below and above the tree size, any forest and tree size",
     "No test exists; and the guarantee is about a distribution over forests, which one asserted number cannot pin.",
     [IF + "__init__.py", IF + "IsolationForest.cpp", IF + "iforest_module.cpp"],
     [("tree growth", IF + "IsolationForest.cpp: growTree"), ("path length and score", IF + "IsolationForest.cpp: pathLength, anomalyScore"),
      ("column typing and index handling", IF + "__init__.py: anomaly_scores")],
     ["the returned frame"])

prop("C04", "GARCH-family variance recursions match their definition",
     "For any parameters, residuals, starting (backcast) value and bounds, the conditional variances of the GARCH(1,1) and GJR-GARCH(1,1) models, the GJR variance forecasts over given residuals, the EWMA variances, the backcast value, the variance bounds and the adjustment of a variance to its bounds equal the documented formulas element by element. The result depends only on the numbers passed in, not on the memory layout or element type of the arrays, nor on earlier calls. Whenever the bounds come from the model itself and the parameters are admissible, every variance is finite and positive.",
     ["inputs", "histories"],
     "all parameter vectors, residual series of any length and scale (including explosive parameters and huge residuals that engage the bounds), all array layouts and dtypes",
     "Tests only look at fitted parameters of a few simulated series to 10%; the bounds never bind, layouts and dtypes never vary.",
     [A + "_garch.py", A + "utils/garch.hpp", A + "utils/utils_module.cpp"],
     [("native recursions", A + "utils/garch.hpp"), ("Python recursions", A + "_garch.py: compute_variance, ewma, bounds_check, backcast, variance_bounds, forecast_variance")],
     ["returned arrays of the public static methods"])

prop("C05", "A GARCH/GJR-GARCH fit reports a consistent, admissible optimum",
     "When fitting reports success, the parameters satisfy the documented bounds and stationarity constraint, the reported log-likelihood is the Gaussian log-likelihood of the returns at exactly those parameters, the model's residuals and conditional variances are the ones those parameters imply, and a zero-mean model has mean exactly 0. For returns on the recommended percentage scale the fit succeeds on ordinary data, its log-likelihood is never below that of any point of the documented starting grid, of which the starting values are the best point, and is not materially below that of the parameters that generated the data; a second search from the reported parameters finds next to nothing better, and returns with missing or infinite days never give a claimed fit. Fitting again returns the same parameters, and equal data gives equal results whatever container, layout or earlier fits.",
     ["inputs", "histories"],
     "return series of many lengths, scales, means and persistence levels, zero-mean or not, fitted once or repeatedly, singly or among other fits",
     "Tests compare parameters with the arch package within 10% and only when the likelihood is lower; they never look at residuals, variances, bounds, starting values or a second fit.",
     [A + "_garch.py"],
     [("bounds and constraint given to the optimiser", A + "_garch.py: fit"), ("grid search", A + "_garch.py: starting_values"),
      ("state kept on the model", A + "_garch.py: fit, loglikelihood_model")],
     ["returned Parameters; model.resids, model.sigma2, model.estimation_success after fit"],
     [("resids, sigma2, parameters", "fitted state that DCC and LRMES build on", A + "_garch.py")])

prop("C06", "A CCC fit is a proper constant-correlation likelihood optimum",
     "When the bivariate constant-conditional-correlation model reports success, its parameters are admissible for both assets, the correlation lies within [-0.99, 0.99], and the reported log-likelihood equals the bivariate normal log-likelihood of the two return series at those parameters. The likelihood function itself equals the sum of bivariate normal log-densities for any admissible parameters, is unchanged when the assets are swapped together with their parameters, and is unchanged when one asset's returns, mean and the correlation change sign. The fitted likelihood is at least that of the separately fitted univariate models with zero correlation, and fitting again returns the same parameters.",
     ["inputs", "histories"],
     "pairs of return series over correlations from strongly negative to strongly positive, unequal scales, all admissible parameter vectors",
     "One test on one pair of stocks, checking parameters only to 1%.",
     [A + "_mgarch.py", A + "_garch.py"],
     [("joint likelihood", A + "_mgarch.py: GARCHModel_CCC.loglikelihood, loglikelihood_model"), ("bounds and constraints", A + "_mgarch.py: GARCHModel_CCC.fit")],
     ["returned Parameters, loglikelihood and loglikelihood_model values"])

prop("C07", "DCC correlations and fits follow the DCC recursion",
     "For any two fitted univariate models and any admissible pair (a, b), the conditional correlations of the DCC model equal the documented recursion, in which the unconditional matrix is the sample correlation matrix of the standardised residuals, and always lie in [-1, 1]; with a = b = 0 they are constant. A successful DCC or GJR-DCC fit has a and b non-negative with a + b at most 1, carries the univariate models' parameters unchanged, reports the two-stage quasi log-likelihood at its parameters, and that likelihood is at least that of every point of the starting grid, of which the starting values are the best. Passing return arrays or ready-made univariate models (fitted or not) gives the same result, swapping the two assets swaps the parameters, and fitting again returns the same parameters.",
     ["inputs", "histories"],
     "pairs of return series, (a, b) in the admissible triangle, GARCH and GJR-GARCH margins, arrays/unfitted/fitted models, repeated calls",
     "No test computes a DCC correlation or fit value.",
     [A + "_mgarch.py", A + "utils/mgarch.hpp"],
     [("native recursion", A + "utils/mgarch.hpp"), ("grid search and two-stage likelihood", A + "_mgarch.py: GARCHModel_DCC")],
     ["conditional_correlations output, returned Parameters, starting_values"])

prop("C08", "LRMES is the average firm loss over simulated systemic paths",
     "Given the fitted GJR-GARCH-DCC model, the long-run marginal expected shortfall equals minus the average firm return over exactly those bootstrapped paths on which the market falls by more than the threshold, and is 0 when no path is systemic. Each path propagates variances, correlation and innovations by the documented recursions from the last observation, over innovation pairs (firm and market of the same day together) drawn with replacement by a generator seeded as requested. The result never exceeds 1, is the same for the same seed on every call and different objects, leaves the global random state alone, and the returns passed in are raw returns that are not modified.",
     ["inputs", "histories", "configurations"],
     "firm and market return series, horizons, simulation counts, thresholds, seeds; repeated and interleaved estimates",
     "The only test that reaches it (SRISK) asserts nothing.",
     [M + "_long_run_mes.py", M + "lrmes.hpp", M + "measures_module.cpp", A + "_mgarch.py"],
     [("simulation of one path", M + "lrmes.hpp; " + M + "_long_run_mes.py: simulation"), ("bootstrap and averaging", M + "_long_run_mes.py: estimate")],
     ["estimate() values; the fitted models' state; recorded per-path outcomes"])

prop("C09", "Native and pure-Python implementations give the same numbers",
     "Every quantity the library can compute with or without its compiled extensions - variances, EWMA, bound adjustment, DCC conditional correlations, fitted GARCH/CCC/DCC parameters, LRMES and SRISK - is the same up to floating-point rounding when the extensions are missing. The library imports and these estimators work without the extensions. Neither implementation is chosen or altered by anything but the presence of the extension.",
     ["inputs", "configurations"],
     "all inputs of the functions that have a compiled and a Python implementation, with and without the extensions built",
     "Tests run only with the extensions built, so the fallbacks are never executed.",
     [A + "_garch.py", A + "_mgarch.py", M + "_long_run_mes.py", A + "utils/garch.hpp", A + "utils/mgarch.hpp", M + "lrmes.hpp"],
     [("fallback switch on ImportError", A + "_garch.py, " + A + "_mgarch.py, " + M + "_long_run_mes.py")],
     ["the same call log replayed in a build with and in a tree without the extensions"])

prop("C10", "SRISK satisfies its capital-shortfall identity",
     "For every firm, SRISK equals k times debt minus (1-k) times equity times (1 minus the firm's long-run marginal expected shortfall), with that shortfall estimated with exactly the horizon, simulation count, threshold and seed requested. The multi-firm call gives each firm the value it gets on its own, in the caller's order, and aggregate SRISK is the sum of the positive firm values, for one firm as well as for many. Inputs are not modified and repeated estimates agree.",
     ["inputs", "histories"],
     "one to many firms, any positive equity and debt, prudential ratios, LRMES settings, aggregate or not",
     "The one test executes it and asserts nothing.",
     [M + "_srisk.py", M + "_long_run_mes.py"],
     [("SRISK formula and aggregation", M + "_srisk.py: estimate")],
     ["estimate() values against LRMES estimates of the same build"])

prop("C11", "PIN likelihoods and estimates are those of the Easley-O'Hara model",
     "The Lin-Ke log-likelihood equals the log-likelihood of the no-news/good-news/bad-news mixture of independent Poisson buys and sells up to a constant that depends on the data only, and so does the Easley-Hvidkjaer-O'Hara form; both are finite for quiet and for very active days. Estimation succeeds with both methods, and the estimate has alpha and delta in [0, 1], non-negative rates, pin equal to alpha*mu/(alpha*mu + epsilon_b + epsilon_s), and a finite reported log-likelihood that is the chosen likelihood at the reported parameters and at least as high as at every starting point of the documented grid. Re-estimating, with the same or the other method, starts afresh and does not depend on earlier calls.",
     ["inputs", "histories"],
     "buy/sell count series from quiet to very active trading, any admissible parameters, both methods in any order",
     "No test covers PIN.",
     [M + "_probability_of_informed_trading.py"],
     [("likelihoods", M + "_probability_of_informed_trading.py: loglikelihood_*"), ("grid of starts and best-of selection", M + "_probability_of_informed_trading.py: estimate")],
     ["likelihood values, returned Parameters"])

prop("C12", "MES and SES equal their definitions",
     "Marginal expected shortfall is the mean of the firm's returns over exactly the days on which the market return is strictly below its q-quantile, so it moves one-for-one with a shift of the firm's returns, scales with them, is unchanged by reordering days or by any increasing affine change of market returns, and equals the tail mean of the market itself when firm and market coincide; when no day lies strictly below the quantile no finite number is reported. Systemic expected shortfall is the fitted combination of the firm's MES and leverage with weights from the least-squares regression (with intercept) of training SES on training MES and leverage, each weight divided by their sum, so it is unchanged when training SES is shifted or rescaled and when training firms are reordered. Inputs are not modified.",
     ["inputs"],
     "return samples of any length, ties, percentiles in (0,1), any non-degenerate training sample",
     "One asserted number each.",
     [M + "_marginal_expected_shortfall.py", M + "_systemic_expected_shortfall.py"],
     [("tail selection", M + "_marginal_expected_shortfall.py"), ("regression", M + "_systemic_expected_shortfall.py")],
     ["estimate() values"])

prop("C13", "Kyle's lambda and the bank Z-score equal their definitions",
     "Kyle's lambda is one million times the no-intercept least-squares slope of returns on signed dollar volume, so it scales with returns, inversely with volume, flips sign with either, and ignores the order of observations. The Z-score is current ROA plus capital ratio, divided by the population standard deviation of past ROAs, so it is unchanged by shifting past ROAs and inversely proportional to their scale. Lists, arrays, integer and strided inputs give the same values and are not modified.",
     ["inputs"],
     "series of any length and scale, containers, layouts",
     "No tests cover either.",
     [M + "_kyle_lambda.py", M + "_z_score.py"],
     [("least squares without intercept", M + "_kyle_lambda.py"), ("population standard deviation", M + "_z_score.py")],
     ["returned values"])

prop("C14", "The absorption ratio is a proper share of total variance",
     "The absorption ratio is the sum of the largest eigenvalues of the asset covariance matrix - as many as the requested fraction of the number of assets rounds to, halves up - divided by the total variance. It is therefore a real number in [0, 1], non-decreasing in the fraction, 0 for no eigenvector and 1 for all, unchanged by reordering assets or days, by adding constants and by rescaling all returns together. It is defined for any number of assets and days, including more assets than days, and repeated estimates with other fractions do not influence each other.",
     ["inputs", "histories"],
     "return panels of any shape including n_assets > n_days, collinear assets, all fractions in [0,1], repeated calls on one object",
     "One 3x6 panel.",
     [M + "_absorption_ratio.py"],
     [("cached covariance and eigenvalues", M + "_absorption_ratio.py"), ("half-up rounding", M + "_absorption_ratio.py: estimate")],
     ["estimate() values"])

prop("C15", "Contingent claim analysis solves the Merton system",
     "The put price and risk contribution returned are those of a firm whose asset value and asset volatility jointly reproduce the given equity value and equity volatility under the Black-Scholes-Merton equations; the put price lies between 0 and the discounted default barrier, and the contribution is the put price minus the CDS-implied put computed from the spread and the implied risky debt. Scaling equity and default barrier by the same factor scales both results by that factor, a zero CDS spread gives a contribution equal to the put price, and for non-negative rates the contribution does not rise with the spread. A solution is found for realistic firms, and when none is found the caller is told rather than handed numbers that do not satisfy the equations.",
     ["inputs"],
     "equity, volatility, rate, barrier, maturity and spread over the realistic ranges, including values far from 1",
     "One asserted point.",
     [M + "_contingent_claim_analysis.py"],
     [("numerical solution of the Merton system", M + "_contingent_claim_analysis.py: cca_func, fsolve"), ("CDS put", M + "_contingent_claim_analysis.py")],
     ["returned tuple against an independent solver"])

prop("C16", "The distress insurance premium is the simulated expected great loss",
     "The distress insurance premium is the documented Monte Carlo estimate: the expected total loss, in units of one bank's liabilities, over scenarios whose total loss, rounded up to hundredths of that unit, reaches the threshold share (in whole percent) of all liabilities, with joint defaults simulated from correlated normals and losses given default from the triangular distribution. It is a finite number between 0 and the number of banks for any number of banks and any threshold in [0, 1], does not increase with the threshold, and is 0 when no great loss occurs. It depends only on its inputs and the seed, and leaves the global random state and the inputs untouched.",
     ["inputs", "configurations"],
     "one to many banks, default probabilities across (0,1), any valid correlation matrix, thresholds, seeds and simulation counts",
     "One asserted number for one configuration.",
     [M + "_distress_insurance_premium.py"],
     [("loss distribution", M + "_distress_insurance_premium.py: estimate"), ("private random state", M + "_distress_insurance_premium.py")],
     ["estimate() values against an independent simulation"])

prop("C17", "Black-Scholes prices are arbitrage-free and correct",
     "Call and put prices satisfy put-call parity, stay within their no-arbitrage bounds, and equal the discounted risk-neutral expectation of the payoff, for any positive spot, strike, maturity and volatility and any rate and yield. They are monotone and convex in the strike, monotone in spot and volatility, homogeneous of degree one in spot and strike, and the pair obeys the put-call symmetry obtained by exchanging spot with strike and rate with yield. Array arguments give the element-wise scalar prices and are not modified.",
     ["inputs"],
     "all positive S, K, T, sigma and real r, q; scalar and array arguments",
     "One asserted pair of prices.",
     [M + "_option_price.py"],
     [("closed form", M + "_option_price.py: blsprice")],
     ["returned prices against quadrature of the payoff"])

prop("C18", "Spread and price-impact measures satisfy their identities",
     "Quoted, effective and realized spreads and the simple price impact equal their documented formulas, in percent of the midpoint or in logs, averaged with dollar-volume weights (simple average of all quotes for the quoted spread, simple average over the trades whose spread is defined when every dollar volume is zero). With trade directions, effective spread equals realized spread plus price impact; without them all are non-negative; they are invariant to reordering trades, to rescaling volumes, to splitting a trade into equal-priced pieces, and to rescaling all prices. Arrays, lists, Series, integers of any width and sign and any layout of the same numbers, trade directions included, give the same answer and are not modified.",
     ["inputs"],
     "trade and quote samples of any length, directions or not, percent or log, zero volumes, any container",
     "No tests cover these.",
     [M + "spread.py", M + "price_impact.py"],
     [("formulas and weights", M + "spread.py, " + M + "price_impact.py")],
     ["returned values"])

prop("C19", "Limit-order-book slope measures equal their definitions",
     "The bid and ask slopes are the average over quotes of total size divided by the distance between the highest-level price and the midpoint (absolute for bids, ask price less midpoint for asks); the bid- and ask-side slope differences average the high-level slope (levels 5 against 3) minus the low-level slope (levels 3 against 1); the scaled depth difference averages twice the ask-minus-bid depth over total depth. Quotes for which a value is missing are left out of the average; the scaled depth difference lies in [-2, 2] and changes sign when the sides are exchanged, slopes are proportional to sizes and inversely proportional to prices, and all are invariant to reordering quotes. Integer data of any width and sign gives the same values as floating-point data, and inputs are not modified.",
     ["inputs"],
     "books of any number of quotes and levels, missing quotes, any layout",
     "No tests cover these.",
     [M + "lob_slope.py"],
     [("formulas", M + "lob_slope.py")],
     ["returned values"])

prop("C20", "Estimators are pure: no mutated inputs, no global random state",
     "No estimator modifies the arrays, frames or models' data it is given, draws from or reseeds the global random generators, or changes global numpy error or warning settings. The result of a call depends only on its arguments: it is the same after any history of other calls, in any order, on fresh or re-used objects, and when different objects are used concurrently from several threads. A result that was returned is not changed by later calls, and read-only inputs are accepted.",
     ["histories", "schedules", "inputs"],
     "every public estimator, arbitrary histories of calls on shared inputs, concurrent use of separate objects",
     "Each test makes one call in a fresh process and looks at its value only.",
     [A + "_garch.py", A + "_mgarch.py", IF + "__init__.py", M + "_long_run_mes.py", M + "_distress_insurance_premium.py", M + "_srisk.py", M + "_probability_of_informed_trading.py", M + "spread.py"],
     [("private random generators", M + "_distress_insurance_premium.py, " + M + "_long_run_mes.py"), ("copies of inputs", A + "_garch.py, " + M + "_long_run_mes.py")],
     ["hashes of inputs and of global state before and after; results across histories and threads"])

prop("C21", "Native calls leak nothing",
     "Memory and reference counts held by the process do not grow with the number of calls: repeating any computation that reaches native code, successful or refused, leaves the reference counts of its arguments as they were and releases everything it allocated once the result is dropped. No worker threads survive a call. Results remain valid after the inputs are deleted.",
     ["histories"],
     "unbounded repetition of every call that reaches native code, on success and error paths",
     "Tests call each function a handful of times and never look at memory.",
     [A + "utils/utils_module.cpp", M + "measures_module.cpp", IF + "iforest_module.cpp"],
     [("reference handling in the extension wrappers", A + "utils/utils_module.cpp, " + M + "measures_module.cpp, " + IF + "iforest_module.cpp")],
     ["live allocation counts and bytes, reference counts, thread counts between repetitions"])

prop("C22", "Modified-Merton building blocks are exact",
     "The loan payoff equals the conditional expectation, given the common factor, of the lesser of the loan's face value and the borrower's lognormal asset value; the smoother returns the centred moving average with linear extrapolation at both ends, reproduces constants, and is linear. The face-value error is zero exactly at the promised yield that makes the discounted face value less the put equal the loan; the Merton error vector is zero exactly at asset value and volatility that reproduce equity value and volatility with dividends counted, and never small for a negative asset value or volatility. All of them are importable and usable as documented.",
     ["inputs"],
     "all parameter values, scalar and array factor realisations, all even lengths and windows",
     "No test imports this part of the library.",
     [MM + "loan_payoff.py", MM + "fftsmooth.py", MM + "find_face_value_indiv.py", MM + "merton_solution.py"],
     [("closed forms", MM + "loan_payoff.py, " + MM + "find_face_value_indiv.py, " + MM + "merton_solution.py"), ("FFT smoother", MM + "fftsmooth.py")],
     ["returned values against quadrature and direct convolution"])

prop("C23", "The modified Merton model's valuations add up",
     "The modified Merton valuation of a bank satisfies its accounting: loan value equals bank debt plus bank equity, bank debt is worth no more than its risk-free value, guarantee and debt value add up to the risk-free value, default probability and indicators lie in [0, 1] and are consistent with the loan value, and all outputs are finite. For given shocks or seed the result is a deterministic function of the parameters; values rise with the factor realisation and default falls. Lookup tables contain, at each grid point, exactly what the direct computation returns there, and the single-cohort version satisfies the same constraints and its solution makes the objective zero; any bank debt maturity that is a whole number of steps, up to rounding, is valued; one between two steps is refused.",
     ["inputs", "configurations"],
     "parameter vectors over the documented ranges, factor grids, simulation sizes, with given or generated shocks",
     "No test imports this part of the library.",
     [MM + "mod_merton_computation.py", MM + "mod_single_cohort_computation.py", MM + "mod_merton_create_lookup.py", MM + "mod_single_merton_create_lookup.py"],
     [("valuation by simulation", MM + "mod_merton_computation.py"), ("lookup tables", MM + "mod_merton_create_lookup.py, " + MM + "mod_single_merton_create_lookup.py")],
     ["returned tuples"])

prop("C24", "The bundled stock returns are intact for every reader",
     "The bundled data set always reads as the full daily return table of the four bundled US series, sorted by date, without missing values, equal to the file shipped with the package. Every access in a process gives equal contents, whatever earlier readers did with the frame they got - values, labels, attributes - from whatever working directory or thread. Constructing the provider again gives the same provider.",
     ["histories", "schedules"],
     "any history of reads and in-place edits of returned frames, concurrent first reads",
     "One test reads it once.",
     ["src/frds/datasets/_stocks.py", "src/frds/datasets/__init__.py"],
     [("cached lazy read", "src/frds/datasets/_stocks.py")],
     ["returned frames over histories of reads and edits"],
     [("cached frame", "the one copy shared by all readers", "src/frds/datasets/_stocks.py")])

prop("C25", "A call that is cut short leaves the library usable",
     "A call may end early: interrupted (Ctrl-C) at any point inside it, in Python or native code, or because memory or worker threads cannot be had. It then ends with an ordinary Python exception - an interrupt reaches the caller - or with the normal result, never with the end of the process or a wrong result. Nothing is left half done: the inputs and process-wide settings (warning filters, numpy error handling, random generators, working directory) are as before, no threads and no references to the inputs stay behind, an estimator never claims success without its complete result, and repeating the call on the same or a new object gives the same result as if the first call had not been made.",
     ["crash_points", "fault_sequences", "histories"],
     "every function entry and call inside the library's Python code as a point of interruption; every allocation and thread creation of the extensions as a point of failure, once or persistently",
     "Tests never interrupt a call and never let an allocation or a thread creation fail.",
     [A + "_garch.py", A + "_mgarch.py", M + "_probability_of_informed_trading.py", M + "_long_run_mes.py", IF + "IsolationForest.cpp", IF + "iforest_module.cpp", A + "utils/utils_module.cpp", M + "measures_module.cpp", "src/frds/datasets/_stocks.py"],
     [("results stored before success is claimed", A + "_garch.py, " + A + "_mgarch.py"), ("exceptions of native code and workers turned into Python exceptions", IF + "IsolationForest.cpp, " + IF + "iforest_module.cpp"), ("warning filters restored", A + "_garch.py, " + A + "_mgarch.py, " + M + "_probability_of_informed_trading.py")],
     ["how calls end, process-wide state, success flags and repeated calls under injected interruptions, allocation failures, thread-creation failures and signals"])

prop("C26", "The bank simulation study reports its models' numbers",
     "The bank simulation study (simulate in mod_merton_simulation) prints and plots what its models give at the published calibration, for any number of paths: the table's first part is the modified model's borrower asset value, bank value, equity ratio, default probability and credit spread at no shock and eight steps above and below; its second part, and the Merton series of the figures, belong to the Merton firm whose equity value and volatility are the modified model's at the same factor realisation; the single-cohort and single-borrower curves are those models' default probabilities where they have that equity value and volatility; the payoff figure shows bank assets, equity and debt against borrower assets. The five figures go into the folder given, by default the current working directory at the time of the call, and nothing else is written. A repeated run gives the same numbers, and the caller's warning filters, random generator, floating-point settings and working directory are as before.",
     ["configurations", "histories"],
     "numbers of paths the smoother supports, target folders, caller environments, repeated runs in a process",
     "No test runs the study.",
     [MM + "mod_merton_simulation.py", MM + "merton_solution.py", MM + "mod_single_merton_create_lookup.py"],
     [("Merton fit", MM + "mod_merton_simulation.py: simulate, merton_solution"), ("simplified models", MM + "mod_merton_simulation.py: griddata over lookup tables")],
     ["printed table, artists of the figures when saved, files written, process-wide state"])

prop("C27", "A failed numerical search is reported as a failure",
     "Estimates and valuations rest on numerical searches that may fail: an estimator claims success, with finite parameters and a log-likelihood, only when the search behind it succeeded, and then everything it claims is true of the data; PIN reports the best of its searches that succeeded and none that failed. When every search fails there is no claim and no number: parameters and log-likelihood stay NaN, LRMES, SRISK and the contingent claim analysis raise an error, and the unsolved yield equation of a bank valuation is at least warned about; returns that are not all finite are never successfully fitted. Nothing of a failed attempt remains: inputs, process-wide state and other objects' results are as before, and the same object gives the estimate it would have given as soon as its searches work.",
     ["fault_sequences", "inputs", "histories"],
     "which of the searches of a call fail and how - stalled, reported unsuccessful, result lost - for every estimator; repeated calls afterwards; returns with missing or infinite days",
     "In every test every search succeeds.",
     [A + "_garch.py", A + "_mgarch.py", "src/frds/measures/_probability_of_informed_trading.py", "src/frds/measures/_long_run_mes.py", "src/frds/measures/_contingent_claim_analysis.py"],
     [("success taken over from the search", A + "_garch.py: fit; " + A + "_mgarch.py: fit"), ("choice among the starting points", "src/frds/measures/_probability_of_informed_trading.py: estimate"),
      ("refusal without an estimated model", "src/frds/measures/_long_run_mes.py: estimate")],
     ["estimation_success, parameters, exceptions and warnings of calls whose searches were made to fail"],
     [("estimation_success", "whether an estimate was found", A + "_garch.py")])

prop("C28", "The library behaves the same in every process",
     "Every module can be imported first, in any order, from any folder, with Python's optimisation, development and warnings-as-errors switches, closed streams, any hash seed and locale, and the packages at once from several threads; importing prints nothing, leaves no files and changes no process-wide setting. The same call gives the same result, bit for bit, in another interpreter with other such surroundings, in a child forked before or after the library was used (the parent undisturbed), and in a worker process it is pickled and sent to, whether the estimator was fitted before or not; results and the used estimator can be sent back. A copied or pickled estimator or result equals the original, fitted state included, and whatever is done to a deep or pickled copy leaves the original as it was.",
     ["configurations", "schedules", "histories"],
     "import orders and manners, interpreter flags and environments, points of forking, tasks sent to workers, copies of new and used estimators",
     "Tests run in one interpreter started one way; nothing is forked, pickled or copied.",
     ["src/frds/algorithms/__init__.py", "src/frds/measures/__init__.py", "src/frds/datasets/_stocks.py", A + "_garch.py", A + "_mgarch.py", "src/frds/measures/_long_run_mes.py", "src/frds/measures/_probability_of_informed_trading.py", IF + "IsolationForest.cpp"],
     [("imports without effects", "src/frds/algorithms/__init__.py, src/frds/measures/__init__.py, src/frds/datasets/_stocks.py"),
      ("state that can be copied", A + "_garch.py, " + A + "_mgarch.py"), ("threads that end with each call", IF + "IsolationForest.cpp, " + M + "lrmes.hpp")],
     ["answers of other interpreters, forked children and workers; copies and originals after use and overwriting"])

prop("C29", "Inputs that do not belong together are refused",
     "Series that describe the same days, trades, quotes, firms or banks must have the same length and the documented number of dimensions, and options must be among those documented (the PIN estimation method, the version of SES, fractions and quantiles between 0 and 1, even lengths of a smoothed series and its window, columns that exist, positive numbers of trees, book values for each of several firms, probabilities and correlation matrices that are such). A call in which any of them is otherwise - a series one entry short, one entry long, empty, a single number, a row, a column or a table in place of a series, of one argument or of several alike - raises an exception and never returns a number, however numpy might broadcast it (a series laid out as one column or one row may instead be taken for the series it is, giving just what that gives). A refusal leaves the inputs and the process as they were, and the same good call, on the same object, gives the same result before and after.",
     ["inputs", "histories"],
     "every argument or group of arguments of every measure and estimator in a dozen wrong shapes; undocumented options; good calls before and after refusals",
     "Tests call with inputs that fit; a handful of wrong calls cannot show that no mismatch slips through numpy's broadcasting.",
     ["src/frds/measures/spread.py", "src/frds/measures/price_impact.py", "src/frds/measures/lob_slope.py", "src/frds/measures/_absorption_ratio.py", "src/frds/measures/_marginal_expected_shortfall.py", "src/frds/measures/_systemic_expected_shortfall.py", "src/frds/measures/_srisk.py", "src/frds/measures/_long_run_mes.py", "src/frds/measures/_probability_of_informed_trading.py", A + "_mgarch.py", A + "utils/utils_module.cpp"],
     [("shapes of trades and quotes", "src/frds/measures/spread.py, price_impact.py, lob_slope.py"), ("firms, days and banks", "src/frds/measures/_srisk.py, _long_run_mes.py, _systemic_expected_shortfall.py"),
      ("dimensions of native calls", A + "utils/utils_module.cpp, " + IF + "iforest_module.cpp")],
     ["exceptions of calls with mismatched arguments; results of the good calls around them"])

prop("C30", "Memory and work grow with the data, no faster",
     "A call needs memory and time in proportion to what it is given: doubling the days of returns, the trades or quotes, the rows, columns or trees of an isolation forest, the simulated paths, days or returns, or the points of a grid at most about doubles the bytes it holds at its peak and its processor time (with the logarithm of the Fourier transform in the smoother). No call holds a copy of the data per tree, per path or per level, a table of all pairs of observations, or more than a few copies of its inputs, and none computes again from the start for every observation. What a series is made of - ties, constants, zeros - makes no difference to that.",
     ["inputs", "configurations"],
     "every public routine along each of its measures of size, over a range of sixteen to sixty-four times; rows and trees, paths and days together; data with ties, constants and zeros",
     "Tests call with one small size, at which quadratic memory or work is invisible.",
     ["src/frds/measures/_marginal_expected_shortfall.py", "src/frds/measures/spread.py", "src/frds/measures/lob_slope.py", "src/frds/measures/_probability_of_informed_trading.py", "src/frds/measures/_long_run_mes.py", "src/frds/measures/_distress_insurance_premium.py", A + "_garch.py", A + "_mgarch.py", A + "utils/garch.hpp", A + "utils/mgarch.hpp", IF + "IsolationForest.cpp", IF + "__init__.py"],
     [("linear recursions", A + "utils/garch.hpp, " + A + "utils/mgarch.hpp"), ("one sample of indices per tree, data shared", IF + "IsolationForest.cpp: grow, growTree"),
      ("vectorised measures without pairs", "src/frds/measures/spread.py, lob_slope.py, _probability_of_informed_trading.py")],
     ["peak of live heap bytes and CPU time of calls at growing sizes"])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["title"]
        f.write(json.dumps(p) + "\n")
print(len(P))
