#!/usr/bin/env python3
# writes MANIFEST.json from the list of checks below (run by hand)
import json, os
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
gen = "generated cases only (fixed by VERIF_SEED), no proof of absence; "
T = {
"C01": ("rapid-generated LightGBM text models and rows against a reference evaluator", "trusts the reference evaluator and serializer of the harness; sums compared within 1e-11 of the terms' magnitude"),
"C02": ("rapid-generated LightGBM JSON models against a reference evaluator, and differential against the text form", "trusts the reference evaluator and the two serializers"),
"C03": ("rapid-generated category sets and values (exhaustive around the members) against set membership", "leaves are told apart by their values"),
"C04": ("rapid-generated models of every missing type with NaN, zeros and near-zeros against a reference evaluator", "trusts the reference evaluator; NaN on categorical splits only with missing type NaN"),
"C05": ("rapid-generated XGBoost gbtree and dart binaries against a reference evaluator", "inputs and conditions representable in single precision"),
"C06": ("rapid-generated gblinear binaries against a reference sum", "trusts the reference sum"),
"C07": ("rapid-generated protocol-0 sklearn pickles against a reference decision function", "the pickler of the harness mimics CPython's protocol 0; inputs representable in single precision"),
"C08": ("metamorphic: rapid-generated n against the model truncated to its first n estimators", "truncation is done by the harness on the generated model"),
"C09": ("rapid-generated models of every objective, transformed output compared with the objective's function of the raw output; refusals", "trusts the list of supported objectives from README and code comments"),
"C10": ("rapid-generated score vectors against a big-range reference and algebraic laws", "relative tolerance of 1e-12 or less"),
"C11": ("differential: row-wise, dense, CSR and scalar entry points on rapid-generated matrices and views", "bit-exact agreement required"),
"C12": ("metamorphic: thread counts, permutation, repetition, splitting and appending of rapid-generated batches", "goroutine schedules are those that occur"),
"C13": ("rapid-generated CSR matrices (holes, foreign columns, unsorted, windows) against per-row dense prediction", "columns non-negative and not repeated within a row"),
"C14": ("stateful: rapid-generated histories over several models compared with freshly loaded ones", "bit-exact agreement required"),
"C15": ("rapid-generated concurrent call mixes under the race detector, results compared with sequential ones", "schedules are sampled by the Go scheduler, not enumerated"),
"C16": ("rapid-generated calls with guarded and poisoned buffers", "bit-exact comparison of all buffers"),
"C17": ("rapid-generated calls around every size limit, refusal and untouched output checked against the stated conditions", "conditions taken from the doc comments"),
"C18": ("rapid-generated tree models, leaf indices against the reference evaluator's leaves (bijection; exact for LightGBM text)", "numbering is compared up to a bijection where the format does not fix it"),
"C19": ("rapid-generated models, reported metadata against the generated model", "trusts the harness' model description"),
"C20": ("rapid-generated nestings of views against the original model and reference leaves", "bit-exact agreement required"),
"C21": ("rapid-generated piecewise readers, buffer sizes and files, differential against one-piece loading", "no readers that return 0 bytes without error"),
"C22": ("fault injection: every generated model cut or failed at enumerated and drawn byte positions", "positions are enumerated on small files and drawn on big ones; LightGBM text is cut at line ends, JSON and binaries anywhere"),
"C23": ("rapid-generated contradictions planted in otherwise valid models; each must be refused and its base model accepted", "list of contradictions is the statement's"),
"C24": ("structure-aware mutation fuzzing of valid models and raw bytes with memory, time and crash monitors", "memory bound 32 MiB + 1000 times the input; one known finding excluded by construction; quadratic inputs not generated"),
"C25": ("metamorphic: rapid-generated rewritings of a model file that keep its meaning", "trusts the list of meaningless parts, taken from the formats"),
"C26": ("metamorphic: rapid-generated pickle encodings of the same classifier", "encodings CPython 2 and 3 can write, protocol 0"),
"C27": ("round-trip of rapid-generated matrices and rapid-generated delimited text against a reference reader", "no blank lines"),
"C28": ("rapid-generated libsvm text against the generated rows, dense and sparse", "lines with at least one pair, separated by spaces"),
"C29": ("rapid-generated arrays and texts with an invariant on every returned matrix; read and write faults at drawn and enumerated points", "full disk simulated with /dev/full and failing writers"),
"C31": ("rapid-generated slices, thresholds and bytes against exact arithmetic", "differences that float64 rounds are skipped when within 1e-12 of the threshold"),
"C32": ("rapid-generated parameter blocks, deliveries and stream faults against the generated lines and exact number parsing", "single spaces between numbers, distinct keys"),
"C33": ("stateful: rapid-generated histories of succeeding and failing calls, open files and library goroutines counted afterwards", "files are those below the case's directory; Linux /proc"),
"C34": ("rapid-generated texts with one planted malformed field or row; each must be refused, or read up to the limit before it", "list of defects is the statement's; words which Go, C and Python all refuse as numbers"),
"C35": ("rapid-generated defects planted in otherwise valid models; each must be refused and its base model accepted", "list of defects is the statement's; decision_type of LightGBM text may be absent"),
"C36": ("stateful: rapid-generated streams of several models and matrices read by successive calls, against each item alone and the bytes left", "text models end with one blank line, XGBoost models have no trailing attributes; JSON models not included (the decoder reads ahead)"),
"C30": ("rapid-generated sets against map-based set operations", "none beyond the reference"),
}
checks = []
for p, (t, n) in sorted(T.items()):
    checks.append({"property": p, "quick_cmd": f"./check.sh run {p}",
      "thorough_cmd": f"VERIF_TIER=thorough ./check.sh run {p}",
      "evidence_file": f"evidence/{p}.json",
      "technique": "property-based testing: " + t, "level": "exploration", "level_note": gen + n})
m = {"version": 1, "setup_cmd": "./check.sh setup", "checks": checks, "not_applicable": [],
 "notes": "All checks are one Go program (harness/) on pgregory.net/rapid, rebuilt from /repo by check.sh; no hooks in /repo. Known findings: KNOWN_FINDINGS.md."}
json.dump(m, open(os.path.join(here, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(here, "MANIFEST.json"), "a").write("\n")
