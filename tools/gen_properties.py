"""Writes properties.jsonl (the property texts live here)."""
import json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []
def p(id, title, statement, over, text, why, files, mech, state=None, observe=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech], "hook_needed": None}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe: a["observe_at"] = observe
    P.append({"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a})

p("C01", "Scoped overrides are undone however the block ends",
  "A block that temporarily swaps a model's parameter values (including those of wrapped PyTorch modules), the active backend, the operator bindings or the data-validation switch, or that borrows a temporary file, puts everything back exactly as it was when it ends. This holds when the block ends normally, when any exception leaves its body at any point, when the override fails while it is still being applied, for overrides nested in one another, and for layers that occur several times in the tree. While the block runs, every overridden value and no other is in effect.",
  ["fault_sequences", "histories", "programs"],
  "for all model trees, override sets, nestings of overrides, and points at which the body or the entry of a block raises or is cancelled",
  "The tests enter each override once and leave it normally; none raises in the body, fails half way through entering, or nests overrides over shared layers.",
  ["thinc/model.py", "thinc/shims/pytorch.py", "thinc/shims/shim.py", "thinc/backends/__init__.py", "thinc/util.py"],
  [("Model.use_params / Shim.use_params backup and restore", "thinc/model.py, thinc/shims/pytorch.py"), ("Model.define_operators context variable token", "thinc/model.py"), ("use_ops try/finally", "thinc/backends/__init__.py"), ("data_validation, make_tempfile", "thinc/util.py")],
  [("ParamServer._params", "current parameter values", "thinc/backends/_param_server.py"), ("context_ops / context_operators / DATA_VALIDATION", "scoped settings", "thinc/backends/__init__.py, thinc/model.py, thinc/util.py")],
  ["Model.get_param, Model.predict, get_current_ops, Model operators, Model.initialize with invalid data, file system"])

p("C02", "Context settings of one thread or task never leak into another",
  "The active backend, the operator bindings and the data-validation switch that one thread or one asynchronous task selects, for a block or until further notice, are never seen by another thread or by a sibling task, however their execution interleaves. Each thread or task always observes the value it selected last itself, or the value it inherited when it started.",
  ["schedules", "histories"],
  "for all interleavings of any number of threads and of tasks, each running any nesting of context settings, with cancellation at any suspension point",
  "The tests cover one hand-written thread order; isolation depends on where threads and tasks are preempted, which a test does not control.",
  ["thinc/backends/__init__.py", "thinc/model.py", "thinc/util.py"],
  [("ContextVar context_ops and thread-local mirror", "thinc/backends/__init__.py"), ("ContextVar context_operators", "thinc/model.py"), ("ContextVar DATA_VALIDATION", "thinc/util.py")],
  None, ["get_current_ops, Model().ops, the result of a bound operator, whether initialize validates its data"])

p("C03", "Ids of models and wrapped modules stay unique under concurrent creation",
  "However many threads create, clone or copy models and wrappers of external modules at the same time, no two model nodes ever share an id and no two wrapper objects ever share an id. A copied model gives every copied node and wrapper a new id and leaves the ids of the original unchanged.",
  ["schedules"],
  "for all interleavings of threads that create, clone and copy models and wrappers",
  "The id counters race only when two threads are inside node creation at once; no test creates models from more than one thread.",
  ["thinc/model.py", "thinc/shims/shim.py", "thinc/layers/clone.py"],
  [("global_id counter under global_id_lock", "thinc/model.py, thinc/shims/shim.py")],
  [("Model.global_id / Shim.global_id", "last id handed out", "thinc/model.py, thinc/shims/shim.py")], ["Model.id, Shim.id"])

p("C04", "Reading from a model is free of side effects and safe in parallel",
  "Any number of threads that predict with, serialise, copy or walk one initialised model at the same time each get exactly the result they would get alone. Doing so changes no parameter, gradient, attribute, dimension or serialised form of the model, no array the callers passed in or were handed before, and draws nothing from the global random generators.",
  ["schedules", "programs", "inputs"],
  "for all interleavings of read-only calls on one model, all layer compositions and all batches",
  "The tests predict from one thread only and compare outputs, not side effects; a scratch value kept on a shared object shows only when two calls overlap.",
  ["thinc/model.py", "thinc/layers", "thinc/backends/ops.py", "thinc/backends/numpy_ops.pyx", "thinc/shims/pytorch.py"],
  [("forward functions keep per-call state in closures only", "thinc/layers/*.py"), ("Model.predict / to_bytes / copy / walk", "thinc/model.py")],
  None, ["Model.predict, Model.to_bytes, Model.copy, Model.walk"])

p("C05", "Backward callbacks of batches in flight are independent of each other",
  "Any number of forward passes can be in flight on one model: whatever the order in which their backward callbacks run, and whatever other forward passes, predictions, serialisations, copies or other backward passes happen in between, each batch gets the same input gradient and contributes the same parameter gradient as if its forward and backward pass had run back to back. The inputs, outputs and output gradients that callers hold keep their values throughout.",
  ["schedules", "programs", "histories"],
  "for all orders of forward, backward and read-only calls over several in-flight batches on one model, and all layer compositions",
  "The tests run each forward pass directly followed by its backward pass; overlapping batches and aliased buffers are not exercised.",
  ["thinc/layers", "thinc/backends/ops.py", "thinc/backends/numpy_ops.pyx", "thinc/model.py", "thinc/shims/pytorch.py"],
  [("backprop closures capture everything their batch needs", "thinc/layers/*.py"), ("ParamServer.inc_grad copies and accumulates", "thinc/backends/_param_server.py")],
  None, ["Model.begin_update, callbacks, Model.get_grad"])

p("C06", "Models trained in different threads do not interfere",
  "Threads that each train, evaluate, serialise and restore their own model with their own optimizer arrive at the same parameters, predictions and bytes as when each runs alone, under any interleaving of the threads.",
  ["schedules", "programs"],
  "for all interleavings of threads with disjoint models, optimizers and data",
  "Interference needs hidden shared state (module-level buffers, shared defaults, shared ops scratch) hit by two threads at once; tests are single-threaded.",
  ["thinc/model.py", "thinc/optimizers.py", "thinc/schedules.py", "thinc/backends", "thinc/layers"],
  [("state is held per model, per optimizer or per call", "thinc/model.py, thinc/optimizers.py, thinc/backends/ops.py")],
  None, ["parameters, predictions and bytes after training"])

p("C07", "Every batch's gradient reaches the update exactly once",
  "The parameter gradients that accumulate between two updates equal the sum of the gradients of the individual batches, in whatever order the batches come and, for layers that treat items independently, however the data is split into batches. An update applies every accumulated gradient exactly once and leaves none behind for the next update, also when the update pass is interrupted between two parameters and run again.",
  ["histories", "schedules", "fault_sequences"],
  "for all orders and splits of batches between updates, all models, and all points between two parameters at which the update pass can stop",
  "The tests accumulate at most one batch per update and never interrupt an update.",
  ["thinc/backends/_param_server.py", "thinc/model.py", "thinc/shims/pytorch.py", "thinc/optimizers.py"],
  [("ParamServer.inc_grad", "thinc/backends/_param_server.py"), ("Model.finish_update / Shim.finish_update", "thinc/model.py, thinc/shims/pytorch.py"), ("Optimizer zeroes the gradient it consumed", "thinc/optimizers.py")],
  None, ["Model.get_gradients, parameters after finish_update"])

p("C08", "Remote parameters: reads come from the proxy, gradients go there once",
  "With a remote parameter proxy attached, every parameter read returns what the proxy serves at that moment, every parameter write reaches the proxy before it is visible locally, and every gradient contribution reaches the proxy exactly once and is never also kept or applied locally. If the proxy fails a call, the failure reaches the caller, a failed write changes nothing locally and a failed read does not fall back to an older value. So workers that train through a lossy, slow or partitioned network end with exactly the parameters that the server's log of updates implies.",
  ["schedules", "fault_sequences", "histories"],
  "for all interleavings of several workers with a parameter server, and all sequences of message loss, duplication, delay, reordering, partition, server error and worker crash",
  "One test attaches a mock proxy and makes three calls; no failure, concurrency or training step is covered.",
  ["thinc/backends/_param_server.py", "thinc/model.py"],
  [("ParamServer proxy delegation", "thinc/backends/_param_server.py")],
  [("ParamServer.proxy", "remote parameter store", "thinc/backends/_param_server.py")], ["calls received by the proxy, Model.get_param, Model.has_grad"])

p("C09", "Checkpoints restore the whole model and training resumes exactly",
  "A model saved at any point of its life and loaded into a freshly built model of the same structure has the same parameters, dimensions, attributes, references and wrapped-module weights: it is reported as compatible, serialises to the same bytes and predicts the same. Training that is killed at any point and resumed from its last checkpoint with a stateless optimizer continues exactly as if it had never stopped.",
  ["crash_points", "histories", "programs"],
  "for all model structures, all histories of training, attribute and dimension changes before the checkpoint, and all points at which the process is killed",
  "The tests round-trip a few fixed, mostly untrained models and do not resume training.",
  ["thinc/model.py", "thinc/shims/pytorch.py", "thinc/shims/torchscript.py", "thinc/util.py"],
  [("to_dict/from_dict, to_bytes/from_bytes", "thinc/model.py"), ("torch state serialisation", "thinc/shims/pytorch.py, thinc/shims/torchscript.py"), ("serialize_attr/deserialize_attr", "thinc/model.py")],
  None, ["Model.to_bytes, from_bytes, to_disk, from_disk, can_from_disk, predict"])

p("C10", "Storage faults never yield a silently wrong or lost checkpoint",
  "A save that returns has stored the complete model, whatever short writes happened underneath, and a save or load hit by an I/O error or full disk raises. A save that fails before it has produced its data leaves an existing file untouched. A file cut off at any byte, by a crash or a failed write, is reported as incompatible, and loading it raises and leaves the model in memory exactly as it was.",
  ["crash_points", "fault_sequences"],
  "for all disk faults (open, short write, ENOSPC, EIO on write, read, flush or close) and crash points during save and load, on any model",
  "The tests use a healthy temporary directory; no write fails and no file is truncated.",
  ["thinc/model.py", "thinc/shims/shim.py"],
  [("to_disk/from_disk/can_from_disk", "thinc/model.py, thinc/shims/shim.py"), ("msgpack framing detects truncation; structure is checked before loading", "thinc/model.py")],
  None, ["file contents, return values and exceptions of to_disk, from_disk, can_from_disk"])

p("C11", "A failed call leaves the model as it was and can be retried",
  "If a prediction, a forward pass, a serialisation, a copy or a compatibility check fails at any point, because memory runs out, the user interrupts it or a callback raises, the model's parameters, gradients, dimensions, attributes, references and serialised form are as before the call, and so are the active backend, operator bindings and validation switch. Repeating the call then gives the same result as if it had never failed. Repeating an initialisation or a resizing that failed half way also gives the same model as one that never failed.",
  ["fault_sequences", "crash_points", "programs"],
  "for all points inside a read-only, forward, initialising or resizing call at which an exception can be raised, all models and batches",
  "The tests inject no failures into running calls.",
  ["thinc/model.py", "thinc/layers", "thinc/shims/pytorch.py", "thinc/backends"],
  [("forward passes and readers do not write to the model", "thinc/layers/*.py, thinc/model.py"), ("PyTorchShim.predict/begin_update set the module mode on entry", "thinc/shims/pytorch.py")],
  None, ["Model.to_bytes, gradients, get_current_ops after the failed call; result of the retry"])

p("C12", "Batching visits every item exactly once, in order and aligned",
  "Every pass over a batched sequence yields each item exactly once, in order or in one random permutation when shuffled, in as many batches as announced and of the sizes asked for, with several sequences staying aligned item by item, for any batch-size schedule, read-ahead buffer and sequence type. Passes over the same batches that are interleaved, run in different threads, abandoned half way or broken off by a failing source do not disturb each other or later passes.",
  ["schedules", "fault_sequences", "inputs"],
  "for all sequence types, lengths, size schedules, buffer sizes, interleavings of iterators over one batching, and points at which an iteration stops or the source fails",
  "The tests iterate each batching once, from start to end, over healthy data.",
  ["thinc/backends/ops.py", "thinc/types.py"],
  [("Ops.minibatch / multibatch / _get_batch_sizes", "thinc/backends/ops.py"), ("SizedGenerator re-creates its generator", "thinc/types.py")],
  None, ["batches produced by minibatch and multibatch, len() of the result"])

p("C13", "Schedules and optimizer hyper-parameters follow the step clock",
  "For any history of updates, step advances (single, repeated, skipped) and reported scores, every hyper-parameter that an update uses is the value its schedule has at the current step: list- and generator-based schedules give their n-th value at step n, keep the last value once exhausted and refuse to go backwards, formula-based schedules depend on the step alone, and the plateau schedule counts every reported score once. All hyper-parameters are read at the same step, and reading a schedule any number of times at one step does not change it.",
  ["histories", "schedules"],
  "for all sequences of updates, step advances, stalls, jumps and score reports, and all schedules given as number, list, generator or schedule object",
  "The tests step a few schedules by one from zero; jumps, stalls, repeated reads and exhausted sources in combination are not sampled.",
  ["thinc/optimizers.py", "thinc/schedules.py"],
  [("Optimizer._step, step_schedules, last_score", "thinc/optimizers.py"), ("_wrap_generator_schedule", "thinc/optimizers.py"), ("_plateau_schedule and formula schedules", "thinc/schedules.py")],
  [("Optimizer._step", "logical clock", "thinc/optimizers.py"), ("_PlateauState", "scores seen", "thinc/schedules.py")], ["Schedule.__call__, Schedule.to_generator, parameters after Optimizer.__call__"])

p("C14", "Updates of one parameter never depend on those of another",
  "What an optimizer does to one parameter depends only on that parameter's own history of gradients and on the step clock: updating other parameters in between, in any order and number, changes neither its new value, its moving average nor its momentum, and parameters that first appear late start from fresh state. Each call consumes its gradient, leaving it zero, and touches no array of another parameter.",
  ["schedules", "histories"],
  "for all interleavings of updates to several parameters under any optimizer configuration and any step history",
  "The tests update one parameter or all parameters in lockstep; state shared between parameters shows only when their histories differ.",
  ["thinc/optimizers.py", "thinc/backends/ops.py", "thinc/backends/numpy_ops.pyx"],
  [("per-key dictionaries mom1, mom2, averages, nr_update", "thinc/optimizers.py"), ("_radam_buffer keyed by step and betas", "thinc/optimizers.py")],
  [("Optimizer.mom1/mom2/averages/nr_update", "per-parameter state", "thinc/optimizers.py")], ["weights, gradients and averages after each Optimizer.__call__"])

p("C15", "Seeded programs are reproducible",
  "After fixing the random seed, a program that builds, initialises, trains and evaluates a model (with explicit hashing seeds) and shuffles data gives the same parameters, predictions, bytes and batches every time, and so does every single array operation, initialiser and loss. The result depends neither on the contents of uninitialised or reused memory, nor on what ran before in the process, nor on hash randomisation, object addresses, the ids handed out earlier, or how the arrays passed in are laid out in memory (views, strides, order), where such arrays are accepted at all.",
  ["histories", "programs", "configurations"],
  "for all programs over the layers, all memory contents, prior histories, hash seeds and process restarts",
  "Each test sees one memory state, one hash seed and one history; a read of uninitialised memory usually finds zeros there.",
  ["thinc/util.py", "thinc/backends/ops.py", "thinc/backends/numpy_ops.pyx", "thinc/initializers.py", "thinc/layers"],
  [("fix_random_seed", "thinc/util.py"), ("Ops.alloc and callers that skip zeroing", "thinc/backends/ops.py, thinc/backends/numpy_ops.pyx"), ("dropout masks and initializers draw from the global generator", "thinc/backends/ops.py, thinc/initializers.py")],
  None, ["parameters, predictions, gradients, bytes and batches of the program"])

p("C16", "A copied model and its original evolve independently",
  "A copy of a model predicts, trains and serialises exactly like the original, including layers that occur several times, references between layers, pending gradients and wrapped modules. From then on no operation on either (training, parameter, gradient, attribute, dimension or layer changes, loading) has any effect on the other, in whatever order operations on the two interleave.",
  ["histories", "schedules", "programs"],
  "for all model structures, all states at the time of the copy, and all interleavings of later operations on the original and its copies",
  "The tests copy fresh models and compare ids and initial weights; shared mutable state shows only after diverging histories.",
  ["thinc/model.py", "thinc/shims/shim.py", "thinc/layers/clone.py", "thinc/layers/bidirectional.py"],
  [("Model.copy / _copy with memo of seen layers", "thinc/model.py"), ("Shim.copy", "thinc/shims/shim.py")],
  None, ["Model.copy, and predict, gradients, bytes of original and copy"])

p("C17", "Overflowing mixed-precision steps are skipped and adapt the scale",
  "In mixed-precision training of a wrapped PyTorch module, a step in which any gradient overflowed changes no weight and consumes its gradients, returns zero input gradients and shrinks the loss scale; every other step applies the same update as unscaled training, and the scale grows after the configured number of consecutive steps without overflow. One overflowing step affects no later step except through the scale.",
  ["fault_sequences", "histories"],
  "for all sequences of training steps with overflows injected into any gradients of any batches, and all scaler settings",
  "The scaler tests need a GPU and are skipped; sequences of overflowing and clean steps are not tested.",
  ["thinc/shims/pytorch_grad_scaler.py", "thinc/shims/pytorch.py"],
  [("PyTorchGradScaler.scale/unscale/update", "thinc/shims/pytorch_grad_scaler.py"), ("PyTorchShim.begin_update backprop and finish_update", "thinc/shims/pytorch.py")],
  [("_scale, _growth_tracker, _found_inf", "loss scale state machine", "thinc/shims/pytorch_grad_scaler.py")], ["module weights, input gradients, scale after each step"])

p("C18", "Array operations, losses and containers are free of side effects",
  "Unless asked to work in place, every array operation, loss and access to a data container returns what the same call returns alone in a fresh process, whichever calls on the same arrays, loss objects or containers ran before, failed half way or run at the same time in other threads, and never changes its operands or a result handed out earlier. The in-place form of an operation returns the same values and changes no array but its own operands. No operation reads or writes the memory between or next to the elements of operands that are views of larger arrays. Indexing a batch of ragged sequences yields exactly the selected sequences.",
  ["schedules", "fault_sequences", "histories"],
  "for all sequences and interleavings of calls on shared operands, and all points at which a call can fail",
  "The tests call each operation once on operands of its own and look at nothing but the result.",
  ["thinc/backends/ops.py", "thinc/backends/numpy_ops.pyx", "thinc/loss.py", "thinc/types.py", "thinc/util.py"],
  [("Ops and NumpyOps methods", "thinc/backends/ops.py, thinc/backends/numpy_ops.pyx"), ("loss calculators hold settings only", "thinc/loss.py"), ("Ragged caches its offsets on first access", "thinc/types.py")],
  None, ["results and operands of Ops methods, losses, Ragged/Pairs/Padded accesses and converters"])

p("C19", "Edits of the layer tree take effect everywhere and disturb nothing else",
  "However edits of a model's layer tree (adding, removing, replacing and wrapping nodes, swapping callbacks, setting references, changing attributes of all nodes of a kind) follow one another and interleave with batches in flight, walks in progress, updates, copies and saves: an edit takes effect at every place where the node occurs, and only there; every walk order visits each node of the current tree exactly once, in its order; no reference points to a node that was removed; recursive wrapping wraps every node exactly once. A batch in flight finishes its backward pass with the layers of its forward pass, and an update reaches exactly the nodes of the current tree. A removal, replacement or reference change that was broken off at any point is completed by repeating it.",
  ["histories", "fault_sequences", "programs"],
  "for all layer trees with shared nodes and references, all histories of edits interleaved with passes and updates, and all points at which an edit is broken off",
  "The tests make one or two edits on a small tree; none edits a tree with unset references or with batches in flight, or repeats an edit that failed half way.",
  ["thinc/model.py", "thinc/layers"],
  [("Model.remove_node / replace_node / set_ref / replace_callbacks", "thinc/model.py"), ("Model.walk in three orders", "thinc/model.py"), ("wrap_model_recursive, set_dropout_rate, change_attr_values", "thinc/model.py"), ("backprop closures hold the callbacks of their own forward pass", "thinc/layers/*.py")],
  None, ["Model.layers, walk, get_ref, get_gradients, predict and callbacks before and after edits"])

NA = [
 ("N01", "Backward passes compute the true gradient of the forward pass", "For every layer and input, the gradient returned and accumulated by the backward pass equals the derivative of the forward pass.", ["thinc/layers", "thinc/backends"]),
 ("N02", "All backends compute the same results", "For every operation and input, the C, generic array and GPU implementations agree within rounding.", ["thinc/backends"]),
 ("N03", "Dimension inference is consistent", "Initialising a model from sample data infers the same dimensions as setting them by hand, and contradictory dimensions are rejected.", ["thinc/model.py", "thinc/layers"]),
 ("N04", "Configuration resolves to what was written", "Resolving a configuration builds exactly the objects it describes and writing and reading it round-trips.", ["thinc/config.py"]),
 ("N05", "Losses and their gradients agree", "For every loss, the gradient is the derivative of the loss for all guesses, truths and missing values.", ["thinc/loss.py"]),
 ("N07", "Sequence layout conversions are inverses", "Converting between list, ragged, padded and array layouts and back returns the original data.", ["thinc/backends/ops.py", "thinc/types.py"]),
 ("N08", "The type-checker plugin accepts exactly compatible compositions", "The plugin reports an error for a composition if and only if the layers' types do not fit.", ["thinc/mypy.py"]),
]
for id, t, s, f in NA:
    p(id, t, s, ["inputs"], "for all inputs", "The tests sample a few inputs.", f, [("see files", ", ".join(f))])
if __name__ == "__main__":
    with open(os.path.join(HERE, "properties.jsonl"), "w") as fh:
        for x in P: fh.write(json.dumps(x, ensure_ascii=False) + "\n")
