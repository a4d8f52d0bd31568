"""Single source of properties.jsonl and MANIFEST.json (run: python3 meta/props.py)."""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []
NA = []


def prop(id, title, statement, quant, why, files, mech, observe, over=("inputs",), note=""):
    P.append(dict(id=id, title=title, statement=statement, quantifier={"over": list(over), "text": quant}, why_tests_cant=why,
                  anchors={"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech], "observe_at": observe, "hook_needed": None},
                  note=note))


prop("C01", "Conformal prediction sets contain exactly the labels the calibration admits",
     "For every set of validation and test probabilities, validation targets and error level, the split and CV+ conformal classifiers (simple and adaptive scores) return one set per test row (per fold and test row for CV+), and a label is in the set exactly when fewer than (1 - error)(n + 1) of the n validation scores are strictly below its own score. The score of a label is one minus its probability (simple), or the total probability of all labels at least as probable as it, up to and including it (adaptive). Membership of a value in its set is decided per row, and the inputs are never modified.",
     "all numbers of validation/test points, folds (with unequal sizes), classes, all probabilities, targets and error levels in [0, 1]",
     "Tests only check lengths and that calls succeed; the coverage guarantee depends on which labels are included for every score configuration.",
     ["fortuna/conformal/classification/base.py", "fortuna/conformal/classification/simple_prediction.py", "fortuna/conformal/classification/adaptive_prediction.py"],
     [("score functions", "simple_prediction.score_fn, adaptive_prediction.score_fn"), ("set construction", "ConformalClassifier._get_conformal_sets_from_scores"), ("fold handling", "CVPlusConformalClassifier.get_scores")],
     ["conformal_set", "get_scores", "score_fn", "is_in"])

prop("C02", "Adaptive conformal inference updates the error level by the published rule",
     "The adaptive conformal regressor and classifier return clip(error + gamma * (target_error - miss), 0, 1), where miss is 1 when the target lies outside the given interval or set (boundaries count as inside) and 0 otherwise, or the weighted sum of the misses of the history extended by the current one when weights are given. The extended history is returned on request and the given set or interval is not modified. Non-positive gamma, and weights or histories that are incomplete, not one-dimensional, of mismatched length, not a non-decreasing probability vector, or not 0/1, are rejected with ValueError.",
     "all targets (scalar or one-element), sets, intervals, error levels, step sizes, weight vectors and histories of any length",
     "Tests call the update on a handful of inputs and check that the returned level is in range.",
     ["fortuna/conformal/classification/adaptive_conformal_classifier.py", "fortuna/conformal/regression/adaptive_conformal_regressor.py"],
     [("update rule", "update_error of both classes"), ("membership", "is_in of the wrapped conformal method")], ["update_error"], over=("inputs", "histories"))

prop("C03", "Conformal regression intervals are the published quantile constructions",
     "Conformalised quantile regression, one-dimensional-uncertainty, jackknife+, jackknife-minmax and CV+ return, for every test point, the interval of the published method: test bounds or prediction plus/minus the empirical quantile of the validation scores at level ceil((n + 1)(1 - error)) / n (scaled by the test uncertainty where there is one), or the error and 1 - error quantiles of leave-one-out (leave-fold-out) predictions minus/plus residuals, with min/max predictions for minmax. A given quantile is used instead of the computed one; caller data is never modified and a value is inside an interval iff it lies between its closed bounds. Arrays of inconsistent shape, non-positive uncertainties and error levels outside [0, 1] are rejected with ValueError.",
     "all sample sizes, fold counts and sizes, array contents, accepted array ranks and error levels",
     "Tests check output shapes and a few rejections on random data, never the interval values.",
     ["fortuna/conformal/regression/base.py", "fortuna/conformal/regression/quantile.py", "fortuna/conformal/regression/onedim_uncertainty.py", "fortuna/conformal/regression/jackknifeplus.py", "fortuna/conformal/regression/jackknife_minmax.py", "fortuna/conformal/regression/cvplus.py"],
     [("scores and quantiles", "score/quantile methods"), ("interval assembly", "conformal_interval of each class")], ["conformal_interval", "score", "quantile", "is_in"])

prop("C10", "Classification metrics compute their published definitions",
     "Accuracy is the fraction of predictions equal to the targets; expected and maximum calibration error aggregate, over ten confidence bins (first bin up to 1/n, the others between equally spaced thresholds from 1/n to 1, right-closed), the count-weighted gap between mean confidence and accuracy, by sum divided by n and by maximum respectively; the Brier score is the mean squared distance between probabilities and one-hot targets (or 0/1 targets for a vector of probabilities). Multi-class probabilities enter the bins by their row maximum, and accuracy rejects inputs that are not one-dimensional.",
     "all numbers of data points and classes, all probabilities, predictions and targets",
     "Tests evaluate two or three hand-picked arrays; ties with bin boundaries, empty bins and other sizes are not reached.",
     ["fortuna/metric/classification.py"], [("metrics", "the functions of fortuna/metric/classification.py")],
     ["accuracy", "compute_counts_confs_accs", "expected_calibration_error", "maximum_calibration_error", "brier_score"])

prop("C11", "Regression metrics compute their published definitions",
     "Mean squared error and mean absolute error average, over data points, the per-point sum over output dimensions of the squared or absolute error; their root versions are the square roots of these. The prediction interval coverage probability is the fraction of targets inside their closed interval, for one-dimensional or single-column inputs in any combination, and inputs with more columns are rejected with ValueError. The short and long names of a metric agree.",
     "all numbers of data points and output dimensions, all array contents",
     "Tests evaluate a few constant arrays.",
     ["fortuna/metric/regression.py"], [("metrics", "the functions of fortuna/metric/regression.py")],
     ["mean_squared_error", "root_mean_squared_error", "mean_absolute_error", "root_mean_absolute_error", "prediction_interval_coverage_probability"])

exec(open(os.path.join(HERE, "meta", "more.py")).read()) if os.path.exists(os.path.join(HERE, "meta", "more.py")) else None

NOTE = ("Every obligation of the contracts on the listed functions is discharged by z3/cvc5 for all inputs of unbounded size, from the current source of /repo; "
        "reals stand for floats, integers are unbounded, and jax/numpy/scipy/flax/optax contracts are assumed (vf/shim.py) and cross-checked by running the same contract text on the real code. "
        "Contracts the verifier cannot interpret fall back to bounded runs, reported as bounded in the evidence.")


def main():
    with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
        for p in sorted(P, key=lambda p: p["id"]):
            assert len(p["title"]) <= 80, p["title"]
            assert p["statement"].count(". ") <= 2, (p["id"], p["statement"].count(". "))
            f.write(json.dumps({k: v for k, v in p.items() if k != "note"}) + "\n")
    na = {n["property"] for n in NA}
    man = {"version": 1, "setup_cmd": "true",
           "checks": [{"property": p["id"], "quick_cmd": f"./check {p['id']} quick", "thorough_cmd": f"./check {p['id']} thorough",
                       "technique": "contract-based deductive verification (function contracts, VC generation from the real source, z3/cvc5)",
                       "level": "proof", "level_note": (p["note"] + " " if p["note"] else "") + NOTE} for p in sorted(P, key=lambda p: p["id"]) if p["id"] not in na],
           "not_applicable": NA}
    json.dump(man, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)


main()
