#!/usr/bin/env python3
"""Writes MANIFEST.json and the `fixed` part of known_findings.json."""
import json, os
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(R, "properties.jsonl"))]
SEQ = "explicit-state exploration of the real code: exhaustive enumeration of {} up to a depth, with a reference model stepped in lockstep (every model trace replayed on the implementation)"
ENUM = "bounded exhaustive exploration of the real code: complete enumeration of {} within bounds, judged by an independent reference model"
T = {
 "C01": SEQ.format("update histories (all cuttings of all data words)"), "C02": SEQ.format("update/aliasing/two-instance histories"),
 "C03": SEQ.format("update histories"), "C04": "exhaustive enumeration of criterion expression trees x reachable estimator states, judged by Boolean evaluation",
 "C05": SEQ.format("update histories x thresholds around the attained values"), "C06": SEQ.format("sampling histories x tolerances around the exact bound"),
 "C07": SEQ.format("recorded value words, exact rational kneedle model"), "C08": ENUM.format("bit-generator words (all sign patterns), shapes, call forms and stream splits"),
 "C09": "stateless model checking of the real thread pool code under a controlled scheduler: all schedules up to the preemption bound (all job orders unbounded)",
 "C10": ENUM.format("sizes, spectra words, distributions, seeds"), "C11": ENUM.format("tridiagonal matrices over a value alphabet x methods x input forms"),
 "C12": ENUM.format("Jacobi matrices x degrees x methods"), "C13": SEQ.format("chains of appended columns"),
 "C14": ENUM.format("operators x starts x degrees x settings x representations x dirty workspaces"), "C15": ENUM.format("operators x starts x degrees x return flags"),
 "C16": ENUM.format("operators x vectors x degrees x functions x call forms"), "C17": ENUM.format("operators x ordered blocks of vectors x degrees x layouts"),
 "C18": "explicit-state exploration: all operation sequences up to a depth on one operator object against fresh operators", "C19": SEQ.format("column/row words and call sequences"),
 "C20": ENUM.format("operators x representations"), "C21": ENUM.format("function names x parameters x argument grid x call forms"),
 "C22": SEQ.format("scripted sampling histories x stopping rules x batch sizes x output modes"), "C23": "complete enumeration of all equally likely sampling outcomes (every branch of the probabilistic model) and exact averaging",
 "C24": ENUM.format("operators x scripted sketches x sketch sizes x modes x representations"), "C25": SEQ.format("scripted sketches x batch sizes x stopping rules"),
 "C26": SEQ.format("scripted sampling histories x stopping rules x output modes"), "C27": ENUM.format("operators x all sign sketches x budgets"),
 "C28": "explicit-state exploration: all ordered call sequences of the routine menu up to a depth, against isolated calls", "C29": ENUM.format("entry points x operator kinds x argument menus"),
 "C30": SEQ.format("sample words, drawing calls recorded by a stand-in"),
 "C37": "explicit-state exploration of handle histories: all orders of dropping arguments and results after successful calls and after faults at every hook use",
 "C36": ENUM.format("matrices x transformations of units, sign, order and orientation x routines, samplers and stopping rules"),
 "C35": ENUM.format("routines x hooks x uses x exception types x operator styles, and all answer forms of the hooks"),
 "C34": ENUM.format("routines x layouts/types/formats/calling styles of all arguments x value menus"),
 "C33": "stateless model checking of the real code under a controlled scheduler: all schedules of two concurrent calls up to the preemption bound; exhaustive enumeration of nested calls at every hook position",
 "C32": SEQ.format("matrices and call sequences of the compiled header templates"),
 "C31": SEQ.format("value words and batch groupings, messages parsed"),
}
import importlib, sys
sys.path.insert(0, R)
checks = []
for p in props:
    i = p["id"]
    m = importlib.import_module(f"mc.props.{i.lower()}")
    checks.append(dict(property=i, quick_cmd=f"./run.sh {i} quick", thorough_cmd=f"./run.sh {i} thorough", evidence_file=f"evidence/{i}.json", technique=T[i], level="model_checking",
                       level_note="Exhaustive within the stated bounds on the code of /repo's working tree (rebuilt for the run): " + m.RULE + ". Assumes: " + "; ".join(m.ASSUMPTIONS) + ". Nothing is claimed beyond the bounds."))
json.dump(dict(version=1, setup_cmd="./setup.sh", checks=checks, not_applicable=[],
               notes="No hooks: /repo carries only fix: commits. The checks observe the public API of an overlay built from /repo/src (see DESIGN.md)."),
          open(os.path.join(R, "MANIFEST.json"), "w"), indent=1)

FIXED = """
115e2bf C06 the t-score was taken with n degrees of freedom instead of n-1
4b48a5a C07 the knee rule used the final mean instead of the running mean
b6571e8 C07 a constant sample mean was never recognised as converged (division by zero)
4a7a9d6 C07 rounding errors of a constant sample mean were taken for changes
2b0513b C02 the running mean was handed out by reference and changed after later updates
cf0661b C02 recorded samples aliased the caller's buffer
402b5fd C01 an empty batch turned the running moments into NaN
36b8fae C03 single-row updates and degenerate controls failed
454dcce C03 delta and recorded values of the control-variate estimator were never updated
0725802 C21 softsign could not be requested by its documented name
dc59f27 C13 single precision inputs were rejected/promoted
24f9416 C08 rademacher samples could not be written to single precision arrays
5fd536c C10 pd=True did not clip prescribed negative eigenvalues
d49046f C16 MatrixFunction/Toeplitz did not initialise the LinearOperator base class
52532b8 C19 non-symmetric Toeplitz products were wrong (imaginary part of the spectrum dropped)
fc15c6e C14 the requested precision was ignored
3724ac8 C18 leftovers in reused workspaces changed later results
15bf194 C16 vectors in invariant subspaces gave wrong results/NaN
3b82263 C15 spurious Ritz values beyond an invariant subspace
f818001 C11 tqli used a wrong shift/deflation and returned wrong eigenvalues
41dbc55 C12 the FTTR rule ignored the degree and failed at boundary cases
060b766 C12 zero off-diagonals gave NaN weights
e4c3166 C24 callable distributions were rejected by hutchpp and diag
5b28c27 C24 hutchpp divided by zero samples for small operators
3960dc0 C24 full output failed for operators with a quad method
4366343 C24 the reported samples were per coordinate instead of per vector
7be2330 C22 callbacks saw a stale estimate (hutch, diag)
7174531 C25 the convergence criterion given to xtrace was ignored
be5533f C25 the norm correction for sphere samples was never applied
120838e C25 callbacks of xtrace saw a stale result
c6bf13f C25 xtrace failed on 1 x 1 operators
0b72e21 C29 lanczos aborted the process on non-square operators
31cb03d C29 operators that are not two-dimensional were accepted or broke the validity test
e430dea C29 hutch looped forever on empty batches
219f058 C29 MatrixFunction read out of bounds for vectors of the wrong length
c845009 C30 samples and indices of different length were drawn when values are missing
bf5fd8a C14 matrix-free operators whose products are strided views were read as if contiguous
8618c1d C29 matrix-free operators whose products have the wrong size were accepted (out-of-bounds read)
6bbbcdc C32 the Gram operator multiplied matrices by A instead of A'A and reported the shape of A
f7c58a7 C34 Lanczos with a tolerance that is no Python float (numpy single precision, integer 0) returned zeros
7dc4ce3 C34 non-contiguous Lanczos output arrays were accepted, the result was all zeros
9091f26 C34 Lanczos on byte-swapped arrays returned zeros, non-canonical csc matrices aborted the process, read-only ones were rejected
a21e199 C34 tqli failed on single precision or integer tridiagonals and numpy iteration counts
0344a97 C34 the fttr rule failed on non-contiguous or single precision diagonals
8162ca9 C34 the built-in inverse of integers was truncated to zero
addf1bc C12 quadrature ignored an output array given alone
0b14697 C34 lengths given as numpy integers changed the shape of isotropic samples
18fe6b0 C30 the error with respect to a given value could not be drawn / relative error formula
a494021 C28 xtrace of operators whose products are single precision failed in the rank-one update
"""
kf = os.path.join(R, "known_findings.json")
d = json.load(open(kf))
d["fixed"] = [f"fixed: property={l.split()[1]} {l.split()[0]} {l.split(' ', 2)[2]}" for l in FIXED.strip().splitlines()]
json.dump(d, open(kf, "w"), indent=1)
print(len(checks), len(d["fixed"]))
