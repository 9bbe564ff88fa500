"""What the evidence says about each check."""
SCHED = "the thread scheduler (one baton, handed over at source lines, bytecode instructions or torch calls)"
LOCKS = "threading.Lock and RLock"
FAULTS = "torch's allocator and the delivery of signals (failures raised at calls into torch)"
RNG = "all randomness"
DISK = "the disk (checkpoints are written to a simulated file: full, failing, short, lost and torn writes)"
CRASH = "the death of the process (its objects are dropped, the simulated disk is kept)"

COMMON = [
    "the reference is an independent float64 model differentiated by torch's autograd: torch's own layers and autograd are trusted",
    "results at inputs within 1e-7 (float64) or 5e-3 (float32) of a kink, a pooling tie or deep saturation are not judged",
    "relative tolerance 1e-10 in float64 (less where tanh or sigmoid saturate, 1e-7 where softplus switches to its linear branch), 2e-3 in float32, measured for each row against the size of its summed terms",
    "CPU tensors, models of at most about 170 parameters and layers of at most 48 values",
]
SHARE = COMMON + ["a mismatch counts only when the same call alone on a freshly built model is right (otherwise it is C01's or C10's)"]


def a(rule, stubs, assumptions=COMMON, nontrivial="the program has at least two operations"):
    return {"rule": rule, "stubs": stubs + [RNG], "assumptions": assumptions, "nontrivial": nontrivial}


ABOUT = {
    "C01": a("Programs: 4 to 9 forwards and products on one or two random models, inputs kept, reused, refilled in place, strided.", [SCHED]),
    "C02": a("Programs: 2 or 3 tasks with 1 to 3 calls each on one model or on models that share layers; uniform, burst, PCT and between-operation schedules.", [SCHED, LOCKS], SHARE,
             "the baton passed between tasks inside an operation"),
    "C03": a("Programs: forwards, then malformed calls and calls that fail at a random torch call (allocation failure, MemoryError, KeyboardInterrupt), then good calls.", [SCHED, LOCKS, FAULTS], SHARE,
             "at least one call failed or was refused"),
    "C04": a("Programs: calls and likelihoods with the arguments, weights, switches and modes compared at every torch call of the code under test and after it; then updates, after which earlier results are compared again.", [SCHED, LOCKS], SHARE),
    "C05": a("Programs: the same call before and after weight updates by a dozen routes.", [SCHED], SHARE),
    "C06": a("Programs: reads and writes of the flat weight vector of models and parts of them, scribbling on the vectors, wrong lengths, writes failing at a random torch call and retried.", [SCHED, FAULTS], SHARE),
    "C07": a("Programs: copies by deepcopy, pickle, torch.save and state_dict at random points of a history, checkpoints with disk faults and process crashes, restarts from what is on the disk.", [SCHED, LOCKS, FAULTS, DISK, CRASH], SHARE),
    "C08": a("Programs: models with the same parameterless layer object at several places and several models that share layers, calls interleaved (also by tasks).", [SCHED, LOCKS], SHARE),
    "C09": a("Programs: container edits (append, insert, extend, +=, assignment, deletion, pop, by name) between calls.", [SCHED], SHARE),
    "C10": a("Programs: likelihoods, gradients and GGNs of data split into chunks among tasks in random order, with failing chunks retried, and of rows in random batches.", [SCHED, LOCKS, FAULTS]),
    "C11": a("Programs: forwards with autograd graphs, products (some failing) between forward and backward, several graphs alive.", [SCHED, LOCKS, FAULTS], SHARE),
    "C12": a("Programs: a cycle of calls, failures, copies and wrappers, repeated; live tensors, their bytes, container objects, heap bytes and the objects held by model and library are compared at growing distances.", [SCHED, FAULTS],
             ["growth is judged over windows of 22 cycles and confirmed over two windows of 60 to 200 cycles", "bounded caches of up to about 60 entries are not growth"]),
    "C13": a("Programs: forwards, products, likelihoods, malformed and failing calls by 1 to 3 tasks on models whose containers record feature maps; every record of every container is compared with the reference layer by layer after each operation (one task) or when all tasks are done; then edits and updates, each followed by a forward.", [SCHED, LOCKS, FAULTS],
             ["a record is compared with the layers and weights of the model now, so after an edit or update only records of later passes are checked", "results of the calls themselves are the business of the other properties"]),
}
