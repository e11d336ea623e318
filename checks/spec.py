"""Budgets and evidence text per property."""
_EXEC_REAL = ["zhusuan library code from /repo's working tree",
              "TensorFlow graph construction, gradients, CPU kernels"]
_EXEC_STUB = ["TensorFlow runtime executor (deterministic re-implementation)",
              "random number generation (seeded streams)", "variable store"]


def S(level, nq, nt, rule, assumptions=(), real=None, stub=None, by="order"):
    return {"by": by, "level": level, "n": {"quick": nq, "thorough": nt}, "rule": rule,
            "assumptions": list(assumptions), "real": real or _EXEC_REAL,
            "stub": stub or _EXEC_STUB}


SPEC = {
    "C05": S("exploration", 1200, 20000,
             "seeded scenarios (algorithm, coupled latents, shapes, feeds, "
             "iterations, per-run scheduler); a run is non-trivial and distinct "
             "if its operation execution order hashes to a new value"),
    "C06": S("exploration", 1000, 16000,
             "seeded SGHMC/SGNHT scenarios over resampling periods; a run is "
             "non-trivial and distinct if its execution order is new"),
}
SPEC.update({
    "C01": S("exploration", 700, 12000,
             "seeded HMC scenarios (model, chains, latents, adaptation, feeds, "
             "fetch subset, per-run scheduler); a run is non-trivial and "
             "distinct if its operation execution order hashes to a new value"),
    "C02": S("exploration", 600, 10000,
             "seeded HMC scenarios with random subsets of the statistics "
             "fetched; a run is distinct if its execution order is new"),
    "C03": S("fault_enumeration", 450, 8000,
             "seeded HMC scenarios with NaN/+inf/-inf model faults per chain "
             "and iteration, followed by fault-free recovery iterations; a run "
             "is distinct if its execution order is new"),
    "C04": S("exploration", 400, 8000,
             "seeded on/off adaptation histories; a run is distinct if its "
             "execution order is new"),
})
SPEC.update({
    "C07": S("fault_enumeration", 700, 9000,
             "seeded HMC/SGMCMC scenarios in which a randomly chosen executed "
             "operation of the model or its gradient fails, with a seeded "
             "number of other ready operations still completing; a run is "
             "distinct if its execution order is new"),
    "C15": S("exploration", 700, 12000,
             "seeded variational problems (family, latents, shapes, samples, "
             "estimator, fetch combination, model form); a run is distinct if "
             "its execution order is new"),
})
SPEC.update({
    "C08": S("fault_enumeration", 260, 4000,
             "seeded sampler/estimator histories cut at a seeded iteration by a "
             "process crash, rebuilt, restored and continued; a run is distinct "
             "if its execution order is new"),
    "C10": S("fault_enumeration", 600, 8000,
             "seeded programs of nested/concurrent/aborted observe() "
             "constructions under a seeded thread scheduler; a run is distinct "
             "if its thread switch sequence or scenario is new",
             real=["zhusuan framework code", "TensorFlow graph construction",
                   "Python threads (serialised at traced lines)"],
             stub=["thread scheduler (seeded, line granularity)",
                   "TensorFlow runtime executor", "random number generation"]),
    "C11": S("exploration", 2000, 40000,
             "seeded histories of construction and query operations on one "
             "net, failing ones included; a run is distinct if its execution "
             "order is new"),
    "C14": S("exploration", 700, 10000,
             "seeded REINFORCE histories (decay, baseline, shapes, fetch "
             "combination, per-run scheduler); a run is distinct if its "
             "execution order is new"),
})
SPEC.update({
    "C12": S("exploration", 1050, 20000,
             "seeded (distribution, parameters, batch layout, broadcasting, "
             "n_samples mode, dtype) settings with about 20000 recorded samples "
             "each, Rosenblatt-transformed and tested for uniformity and "
             "independence, log_prob compared with the reference density at "
             "every sample; a run is distinct if its setting is new",
             by="setting"),
    "C13": S("fault_enumeration", 2100, 40000,
             "seeded (distribution, parameters, dtype) settings in which "
             "elements of the random draws are replaced by end points of the "
             "generator's range; a run is distinct if its execution order is "
             "new"),
})
SPEC.update({
    "C09": S("fault_enumeration", 280, 4000,
             "seeded AIS programs (latents, proposal hierarchy, temperatures, "
             "adaptation) of several runs, some of them failing at a seeded "
             "call and operation; a run is distinct if its execution order is "
             "new"),
})
SPEC.update({
    "C17": S("fault_enumeration", 700, 12000,
             "seeded programs re-run with one element of one random draw "
             "replaced (interference), with fresh streams and with equal "
             "streams; a run is distinct if its execution order is new"),
})
SPEC.update({
    "C18": S("exploration", 840, 16000,
             "seeded (distribution, parameters, layout, dtype, construction "
             "route, is_reparameterized, use_path_derivative) settings; the "
             "draws of each run are replayed exactly with one parameter moved; "
             "a run is distinct if its execution order is new"),
})
SPEC.update({
    "C16": S("fault_enumeration", 1600, 30000,
             "seeded histories of load attempts, each with a connection fault, "
             "short read, full disk, I/O error or crash at a seeded write, "
             "open, rename, remove or mkdir, in the same or in a new process; "
             "a run is distinct if its dataset and fault history are new",
             by="setting",
             real=["examples/utils/dataset.py", "urllib.request.urlretrieve",
                   "gzip, tarfile, zipfile, NumPy file readers and writers"],
             stub=["HTTP server (urllib.request.urlopen)",
                   "disk faults and process death at the Python file-system "
                   "calls, on a scratch directory"]),
})
SPEC.update({
    "C19": S("fault_enumeration", 700, 12000,
             "seeded histories of constructions of 1-3 models (observed, "
             "nested, failing before or after their parameters, inside HMC "
             "and ELBO, from other variable scopes), parameter updates and "
             "evaluations; a run is distinct if its execution order is new"),
    "C20": S("fault_enumeration", 320, 7000,
             "seeded programs of 2-3 inference components (HMC, SGMCMC, "
             "variational training, AIS) run alone and then interleaved and "
             "combined in one session, with failing neighbours; a run is "
             "distinct if its execution order is new"),
})
SPEC.update({
    "C21": S("fault_enumeration", 1800, 40000,
             "seeded (distribution, route, layout, dtype) settings with "
             "histories of clean runs and runs in which one element of a "
             "parameter or value is numerically faulty; a run is distinct if "
             "its execution order is new"),
})
SPEC.update({
    "C22": S("fault_enumeration", 240, 4500,
             "seeded programs (nets, samplers, estimators, AIS) run in this "
             "process and in another one with another hash seed, generator "
             "states, preceding programs, thread and execution order; a run "
             "is distinct if its execution order is new"),
})
SPEC.update({
    "C23": S("fault_enumeration", 320, 6000,
             "seeded flow programs (planar, inverse autoregressive, chained) "
             "with histories of training steps, failed steps, parameter jumps "
             "and restarts; a run is distinct if its execution order is new"),
})
