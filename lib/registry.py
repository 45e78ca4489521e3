import checks_guess
import checks_ops
import checks_proc
import checks_run
import checks_twin
import checks_var

RUN = checks_run.check
CHECKS = {p: ("model_checking", RUN) for p in ("C02", "C03", "C04", "C05", "C06", "C08", "C14", "C15")}
_RUN_NOTE = ("The run design (RunImpl.tla) is model checked exhaustively for small configurations; recorded executions of the "
             "real async_launch::launch - all schedules TLC enumerates for small configurations plus longer random ones - are "
             "validated event by event against Run.tla by TLC. Bounded: no claim for schedules outside these families. Trusted: "
             "TLC, the recording harness.")
_T = "TLA+ (TLC): model-checked run design + trace validation of real executions"
NOTES = {p: (_T, _RUN_NOTE) for p in CHECKS}

CHECKS["C10"] = ("model_checking", checks_ops.check_c10)
NOTES["C10"] = ("TLA+ (TLC): document semantics as a specification + conformance of the real parser",
                "SpecDoc.tla gives every YAML document its parameter space or rejection; documents enumerated by TLC (small, exhaustive "
                "families) and random, perturbed and arbitrary ones go through the real parser and TLC judges every answer. Bounded: no claim "
                "for documents outside these families. Trusted: TLC, serde_yaml's reading of YAML text, the recording harness.")

_OPS = ("Variation.tla relates inputs and outputs of the operator. The real operator is applied to every value (every pair of values, "
        "many triples) of small parameter spaces enumerated by TLC, and in long random histories over random spaces; TLC judges every "
        "application. Bounded: no claim for spaces and random draws outside these families. Trusted: TLC, the recording harness.")
_OT = "TLA+ (TLC): operator relation as a specification + conformance of the real operator"
for _p, _f in (("C12", checks_var.check_c12), ("C13", checks_var.check_c13)):
    CHECKS[_p] = ("model_checking", _f)
    NOTES[_p] = (_OT, _OPS)

CHECKS["C17"] = ("exploration", checks_var.check_c17)
NOTES["C17"] = ("TLA+ (TLC): liveness of the operators and a benchmark battery as a specification + conformance of the real code",
                "Battery.tla states problems, budgets and factors, Variation.tla what selection, mutation and recombination must achieve; "
                "whole runs and many operator applications are recorded and TLC judges them. Statistical: a fixed battery and bounded draws. "
                "Trusted: TLC, the recording harness.")

CHECKS["C01"] = ("model_checking", checks_guess.check_c01)
NOTES["C01"] = ("TLA+ (TLC): conformance as a predicate, monitored on recorded runs and operator histories",
                "Domain.tla's Conforms is judged by TLC on every parameter set of recorded runs (rich random spaces, guesses, up to 220 "
                "evaluations) and on every value produced by the real operators in long histories and on completely enumerated small spaces. "
                "Bounded: no claim outside these families. Trusted: TLC, the recording harness.")
CHECKS["C11"] = ("model_checking", checks_guess.check_c11)
NOTES["C11"] = ("TLA+ (TLC): codec as a specification + conformance of the real codec, lockstep product for the initial guess",
                "Domain.tla's ToJ/Accepts/FromJ judge the real codec on every value of small spaces, on every document one edit away from one, "
                "and on random ones; runs with the initial value as guess are compared in lockstep with runs without guess (Twin.tla). Bounded. "
                "Trusted: TLC, serde_json's number reading (see KNOWN_FINDINGS), the recording harness.")

CHECKS["C09"] = ("model_checking", checks_twin.check_c09)
NOTES["C09"] = ("TLA+ (TLC): lockstep product of recorded executions",
                "Twin.tla is the product of two executions of the same inputs; TLC checks in lockstep that the recorded executions of the real "
                "code - same process, other processes, other order, speed and environment - evaluate the same ids, seeds and parameter sets "
                "and report the same. Bounded: no claim for inputs outside the generated families. Trusted: TLC, the recording harness.")

CHECKS["C07"] = ("model_checking", checks_proc.check_c07)
NOTES["C07"] = ("TLA+ (TLC): model-checked process design + trace validation of real executions of the tool",
                "The design of process-based evaluation (ProcImpl.tla) is model checked for small configurations; the real tool is executed "
                "with obedient objective-function processes on schedules enumerated by TLC and random ones, and TLC validates what is observed "
                "(starts, ends, kills with life times, the process table after return, the reports) against Proc.tla. Bounded. Trusted: TLC, "
                "the driver, /proc.")

import checks_cli  # noqa: E402
CHECKS["C16"] = ("model_checking", checks_cli.check_c16)
NOTES["C16"] = ("TLA+ (TLC): the tool's protocol as a specification + conformance of real executions",
                "Cli.tla states, for one evaluation at a time, what the tool does as a function of options, files and the output of every "
                "objective-function process; executions of the real tool (every output form and bad option once, plus random ones) are judged by "
                "TLC, runs with several evaluations at a time are validated against Proc.tla. Bounded. Trusted: TLC, the driver, Python's JSON.")
