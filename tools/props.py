NOTES = ("Deterministic simulation with fault injection. Every check is `python -m dst ID`; a violation's replay file is run with "
         "`python -m dst ID --replay FILE`. No hooks were added to /repo: the seams used are the generated program's compiler, "
         "OpenMP runtime, stdio and clock, and the generator's file, thread and random-source interfaces.")


def P(id, title, statement, over, qtext, why, files, mechanism, claim, state=(), observe=()):
    a = {"files": files, "mechanism": mechanism}
    if state:
        a["state"] = [{"name": n, "meaning": m} for n, m in state]
    if observe:
        a["observe_at"] = list(observe)
    return {"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": qtext},
            "why_tests_cant": why, "anchors": a, "claim": claim}


T = "src/acetone_nnet/templates"
PROPS = [
    P("C01", "Predictions of a batch do not depend on the schedule",
      "For every supported network, dataset and number of tests, the predictions that the generated program writes, and those that the "
      "training hook's batch loop returns, are for each test bit-identical to that test's prediction computed alone, whatever number of "
      "threads the parallel loop gets, however their execution is interleaved and whatever the clock says. Every test of the batch is "
      "predicted exactly once and reported in order, for every number of tests including none, a full batch and batches cut by the "
      "maximum batch size, and the program terminates.",
      ["schedules", "inputs", "programs"],
      "all interleavings of the threads of the parallel batch loops, team sizes, clock behaviours, batch sizes and repetitions, networks",
      "the tests run one or a few inputs with whatever schedule the machine happens to produce",
      [f"{T}/template_main_file.c.tpl", f"{T}/template_train_hook_file.c.tpl", f"{T}/template_source_file.c.tpl",
       f"{T}/memory_layout", f"{T}/layers"],
      "each iteration of the OpenMP loop over a batch uses its own inference context from a fixed array of contexts",
      {"technique": "deterministic simulation: seeded OpenMP scheduler over the generated program",
       "note": "Sampled networks, batch sizes and schedules at memory-access granularity under sequential consistency; races are C02's."},
      state=[("inference context", "all intermediate tensors of one inference")],
      observe=["output file of the generated program", "predictions returned by batch_loop"]),
    P("C02", "Concurrent inferences share no mutable memory",
      "In the generated code, two inferences running on different contexts never access the same memory location with at least one of them "
      "writing and no ordering between them. An inference writes only its own context and its own prediction, reads only these, its input "
      "and the constant parameters, and never touches memory outside the arrays it addresses; parameters and inputs are never modified.",
      ["schedules", "inputs", "programs"],
      "all networks, code versions and layouts; all interleavings of concurrent inferences",
      "a test observes outputs, which may be right by luck of the schedule or of the layout of memory",
      [f"{T}/memory_layout", f"{T}/layers", f"{T}/template_source_file.c.tpl", "src/acetone_nnet/generator/neural_network.py"],
      "every temporary is local or a field of the context passed to the inference",
      {"technique": "deterministic simulation with a vector-clock race detector and memory confinement monitor in the simulated OpenMP runtime",
       "note": "Every load and store of the generated code is checked in every sampled run; networks and schedules are sampled."},
      observe=["every memory access of the generated code"]),
    P("C03", "An inference result depends on its input only",
      "The prediction of the generated code for an input is bit-identical whatever was computed before, in whichever context, with whatever "
      "the context and the prediction buffer contained beforehand, and however often it is repeated. The parameters and the caller's input "
      "are unchanged by any sequence of calls.",
      ["histories", "inputs", "programs"],
      "all histories of inferences, batches and program runs on reused, fresh or corrupted contexts, for all networks",
      "tests run each freshly generated program once, on contexts that are zero",
      [f"{T}/layers", f"{T}/template_source_file.c.tpl", f"{T}/memory_layout", f"{T}/normalization"],
      "each layer initialises what it accumulates into; nothing persists between inferences",
      {"technique": "deterministic simulation: seeded histories with corruption of surviving state injected between operations",
       "note": "Bit-exact comparison with the same call on a fresh context; histories and networks are sampled."},
      observe=["prediction of each call", "contents of inputs and parameters after each call"]),
    P("C04", "The generated program computes the function of its model",
      "For every model the generator accepts, in each of its input formats (ONNX, NNet, JSON, exported PyTorch program), the output the "
      "generated program writes for each test of the dataset equals, up to floating-point rounding, the function the model defines. This "
      "holds for every combination of layers and attributes, code version, data type, optimisation setting and data layout, and whatever "
      "the thread schedule and the initial contents of the inference contexts are; a model that cannot be translated is refused, never "
      "translated into something else.",
      ["inputs", "programs", "schedules"],
      "all models, datasets and generation options; schedules and initial contexts of the generated program",
      "tests compare one layer or a few small networks on one input, mostly with the generator's own Python evaluation as reference",
      ["src/acetone_nnet/importers", "src/acetone_nnet/generator", "src/acetone_nnet/graph", T],
      "importers build a graph of layers, each of which renders a C template with its dimensions and constants",
      {"technique": "deterministic simulation: the whole generated program under a seeded scheduler on corrupted contexts, against independent reference evaluators",
       "note": "Sampled models, options and schedules; equality up to a tolerance scaled to the conditioning of the network."},
      observe=["output file of the generated program", "outcome of generation"]),
    P("C05", "The Python evaluation computes the function of its model at any time",
      "compute_inference of a generator returns and writes, for each test, what the model defines up to rounding, and exactly the same "
      "values however often and in whatever order it is called among generations of code, evaluations by other generators of the same model "
      "object and evaluations that failed. It modifies neither the dataset nor the model it was given, and an evaluation whose output "
      "cannot be written raises.",
      ["histories", "inputs", "programs"],
      "all histories of calls on generators sharing a model and a dataset, with failing writes, for all models",
      "tests evaluate each fresh generator once, before or after a single generation",
      ["src/acetone_nnet/generator", "src/acetone_nnet/importers", "src/acetone_nnet/graph"],
      "layers keep the weights and paths they share with the generator; the evaluation walks the layers in order",
      {"technique": "deterministic simulation: seeded histories of generator operations with write faults, against independent reference evaluators",
       "note": "Sampled models and histories; equality up to a tolerance scaled to the conditioning of the network, repeats bit-exact."},
      observe=["returned prediction", "output_python.txt", "bytes of the dataset and the model before and after"]),
    P("C06", "Options of form do not change the results of a program",
      "Programs generated from one model and dataset with parameters and dataset in text or binary form, any page size, function name, "
      "verbosity, dataset given as an array or a file, and compiled at any optimisation level give bit-identical predictions, and equal to the "
      "printed precision when numbers are written in decimal. Programs that differ in convolution versions, chosen per type or per "
      "layer, in data layout or in graph optimisation give predictions that differ by rounding only.",
      ["configurations", "inputs", "programs", "schedules"],
      "all combinations of generation options, models, datasets and schedules",
      "each test fixes one combination of options",
      ["src/acetone_nnet/generator/neural_network.py", "src/acetone_nnet/versioning", T, "src/acetone_nnet/templates/template_makefile.tpl"],
      "each option selects how constants, data or loops are written; the computation is the same",
      {"technique": "deterministic simulation: several programs of one model, each under its own seeded schedule, compared with each other",
       "note": "Sampled models, options and schedules."},
      observe=["output files of the generated programs"]),
    P("C07", "What is generated depends on the model and the options only",
      "Generating code for a model writes byte-identical files in every process, whatever the hash seed, memory layout, clock, state of random "
      "generators, locale, working directory, directory order, and whatever was generated, evaluated or failed before in the process, "
      "including when the generator draws the test dataset itself.",
      ["histories", "configurations", "programs"],
      "all process environments and prior histories, models and options",
      "a test generates once in one process; differences between environments or after other generations never appear",
      ["src/acetone_nnet/generator", "src/acetone_nnet/importers", "src/acetone_nnet/graph", "src/acetone_nnet/pattern_matching", "src/acetone_nnet/versioning"],
      "generation is a function of the parsed graph; the drawn dataset uses a generator with a fixed seed",
      {"technique": "deterministic simulation: seeded histories of generations in interpreters whose nondeterminism is controlled and varied",
       "note": "Sampled models, histories and environments; every file compared byte for byte."},
      observe=["bytes of every generated file"]),
    P("C08", "Generators used from concurrent threads do not affect each other",
      "Threads that each create generators, generate code and evaluate models obtain exactly the files and results each would obtain alone, "
      "however they are interleaved, even when they share model objects, datasets and option dictionaries, none of which is modified.",
      ["schedules", "programs"],
      "all interleavings of threads, their actions and models",
      "the tests use the generator from one thread",
      ["src/acetone_nnet/generator", "src/acetone_nnet/importers", "src/acetone_nnet/pattern_matching", "src/acetone_nnet/versioning"],
      "state of a generation lives in its generator; module-level registries are only read",
      {"technique": "deterministic simulation: seeded line-level scheduler over real Python threads",
       "note": "Sampled thread programs and schedules; switches between lines of the package."},
      observe=["files of each thread", "bytes of shared objects before and after"]),
    P("C09", "Storage faults and crashes during generation are never silent",
      "If generating code, evaluating a model or the command line returns normally, every file it names is complete and correct, whatever storage "
      "operations failed or were cut short meanwhile; if none failed, it succeeds. Whatever fails and wherever the process dies, files that were "
      "there before are unchanged, each file of the set holds a beginning of its own content, the directory is refused rather than mixed by "
      "a later attempt, and the generator and later generations elsewhere still give the complete result.",
      ["fault_sequences", "crash_points", "programs", "histories"],
      "all storage errors, short writes, full devices and crashes at all storage operations, for all models and options",
      "the tests always have a working, empty directory",
      ["src/acetone_nnet/generator/neural_network.py", "src/acetone_nnet/cli/generate.py"],
      "each file is created exclusively, written and closed in a fixed order, errors propagate",
      {"technique": "deterministic simulation with fault injection at every storage operation of the generator (interposed system calls), crash and retry",
       "note": "Operations of each run are counted first, then faults are placed among them by seed; crashes are process crashes."},
      state=[("output directory", "files generated so far")],
      observe=["outcome of the call", "contents of the directory after it", "outcome of later attempts"]),
    P("C10", "Generations that race for one directory never mix",
      "When several generations write to one directory at the same time, at most one reports success, and if one does the directory holds "
      "exactly its files, complete; every other one fails with an error and changes nothing that was there. A file that existed before is never "
      "changed, and a generation that is alone in its directory succeeds.",
      ["schedules", "programs"],
      "all interleavings of concurrent generations into shared directories, models and options",
      "the tests generate into a directory of their own, one at a time",
      ["src/acetone_nnet/generator/neural_network.py"],
      "every file is opened for exclusive creation, in a fixed order",
      {"technique": "deterministic simulation: seeded line-level scheduler over real Python threads that share output directories",
       "note": "Sampled models and schedules; switches between lines of the package; one process."},
      observe=["outcome of each call", "contents of the shared directories"]),
    P("C11", "The program reports what it could not read or write",
      "When the generated program exits with success, the output file it was given holds all predictions, correct and complete, whatever storage "
      "operations failed or transferred less than asked; when nothing failed, it exits with success. A program that reads its inputs from a "
      "file predicts exactly the values the file holds, and exits with an error when the file is missing, unreadable, short or not made of "
      "numbers. It never changes its input file.",
      ["fault_sequences", "inputs", "schedules", "programs"],
      "all errors and short transfers at all storage operations of the program, all contents of the input file, models and options",
      "the tests run the program on a working disk with a complete input file",
      [f"{T}/template_main_file.c.tpl", "src/acetone_nnet/generator/neural_network.py"],
      "the main program checks what opening, reading, printing and closing return and turns it into its exit status",
      {"technique": "deterministic simulation with fault injection at every stdio operation of the generated program",
       "note": "Operations of each program are counted first, then faults are placed among them by seed; glibc's stdio is real, its kernel side simulated."},
      observe=["exit status of the program", "contents of the output file", "contents of the input file"]),
    P("C12", "Weights copied into or saved from a program are exact and complete",
      "After copy_weights, every prediction of a program with binary parameters, through inference, batch_loop or main, equals that of "
      "the program generated from the network those weights come from, however often and in whatever order weights are replaced and whatever ran "
      "before. save_weights returns the size of all parameters exactly if it wrote all current parameters in the order of the parameter file, "
      "and a smaller value or -1 otherwise, whatever storage operation failed.",
      ["histories", "fault_sequences", "schedules", "programs"],
      "all histories of copying, predicting and saving, all storage faults while saving, all networks and weights",
      "the tests never call the training hook",
      [f"{T}/template_train_hook_file.c.tpl", f"{T}/template_header_file.c.tpl", "src/acetone_nnet/generator/neural_network.py"],
      "the hook copies and writes every parameter array in the order of the binary parameter file",
      {"technique": "deterministic simulation: seeded histories of the training hook under simulated schedules and storage faults",
       "note": "Sampled networks and histories; part of the runs use the real shared library in process, without a simulated schedule."},
      state=[("parameter arrays", "weights the program predicts with")],
      observe=["predictions after each step", "value returned by save_weights and the file it wrote"]),
    P("C13", "A model file that is cut, damaged or unreadable is never half used",
      "A model file (NNet, JSON, ONNX, ONNX with external data) that was cut short, has lost or zeroed pieces that its format can reveal, or whose reading "
      "fails part-way makes generation fail; it never yields code for another network. "
      "Reads that are interrupted or return less than asked change nothing: the code equals that of the undisturbed run.",
      ["fault_sequences", "inputs"],
      "all cuts and block losses of all model files, all sequences of read faults at every operation on them, and histories of repeated loads",
      "tests load complete files from a disk that works",
      ["src/acetone_nnet/importers/NNET_importer/parser_NNET.py", "src/acetone_nnet/importers/JSON_importer/parser_JSON.py",
       "src/acetone_nnet/importers/ONNX_importer/parser_ONNX.py", "src/acetone_nnet/importers/parser.py"],
      "the importers read the file and build the layers of the network",
      {"technique": "deterministic simulation: file damage and read faults injected at seeded operations, histories of loads compared with the undisturbed generation",
       "note": "Damage is limited to what the format can reveal: for JSON cuts, zeroed blocks and stale tails; for ONNX cuts."},
      observe=["whether generation fails", "bytes of every generated file"]),
    P("C14", "The tests inside a program are the given ones, or generation is refused",
      "The tests a generated program holds, and those the Python evaluation uses, are bit for bit the first nb_tests of the dataset given (file in either "
      "notation, array of any layout or type that the data type can hold), or the random ones the generator reports. "
      "A dataset that is too short, cut, torn, of the wrong width, or that cannot be read makes generation fail.",
      ["fault_sequences", "inputs", "histories"],
      "all datasets in all accepted forms, all damage to their files, all read faults, and histories of generations and evaluations",
      "tests use one dataset of the right shape from a working disk",
      ["src/acetone_nnet/generator/neural_network.py", f"{T}/template_main_file.c.tpl"],
      "_initialise_dataset, _load_dataset, generate_testdataset_files, compute_inference",
      {"technique": "deterministic simulation: dataset damage and read faults at seeded operations, embedded tests read back from the compiled object",
       "note": "Finite values within the range of the data type."},
      observe=["bytes of the test array in the compiled program", "inputs that the Python evaluation used", "whether generation fails"]),
    P("C15", "The comparison of outputs reports every difference, or fails",
      "The comparison tool reports the largest absolute and relative difference over all values of the two output files it is given, exactly, and "
      "never succeeds after looking at less: files that are cut, of different shapes, not numbers, or that cannot be read make it fail or report an infinite difference.",
      ["fault_sequences", "inputs"],
      "all pairs of output files, all damage to either, all read faults",
      "tests compare two good files",
      ["src/acetone_nnet/cli/compare.py"],
      "cli_compare and compare_result parse both files and compare value by value",
      {"technique": "deterministic simulation: damage and read faults at seeded operations, result checked against an exact reference comparison",
       "note": "Values in the notations that acetone writes."},
      observe=["differences reported", "exit of the tool"]),
    P("C16", "A quantized program computes exactly its fixed-point arithmetic",
      "For a network of matrix products, additions and rectifiers with a fixed-point format per layer, the program generated for that target configuration computes, in "
      "every run, batch and schedule, exactly the integer results that the formats define (products in the temporary type, shift, wrap), with or without the layer "
      "fusion, and the Python evaluation the same. A configuration that lacks the format of a layer it needs is refused.",
      ["schedules", "programs", "configurations", "inputs"],
      "all networks of supported layers, all formats and integer types, all tests and all schedules of the threads",
      "the repository has no test of quantized generation",
      ["src/acetone_nnet/generator/neural_network.py", "src/acetone_nnet/quantize/activation.py", "src/acetone_nnet/quantize/qform.py",
       f"{T}/layers/template_MatMul.c.tpl"],
      "quantize_layers turns parameters into integers and rescales each product",
      {"technique": "deterministic simulation: quantized programs under seeded schedules, refinement against exact integer arithmetic",
       "note": "Sums of products stay within the temporary type; sampled networks and formats."},
      state=[("per-thread context", "temporary sums")],
      observe=["predictions of main, inference and batch_loop", "results of the Python evaluation"]),
    P("C17", "Debug mode shows what every layer computes",
      "For every supported network in the default data layout, the debug file written by the program generated in debug mode, read back with extract_outputs_c, and the lists that compute_inference "
      "returns hold for every layer the value of the model's corresponding tensor up to rounding, under the right name and index, whatever ran before; predictions are those of "
      "the program without debug mode. The program only succeeds if its debug file is complete, and compare_result only agrees if every value is within tolerance, also for a debug file that was cut.",
      ["schedules", "programs", "inputs", "histories", "fault_sequences"],
      "all supported networks, inputs, histories of inferences and programs, file faults, cuts of the debug file",
      "tests debug a few fixed networks once, on a working disk",
      ["src/acetone_nnet/debug/debug_tools.py", "src/acetone_nnet/debug/debug_onnx.py", "src/acetone_nnet/generator/neural_network.py",
       f"{T}/template_source_file.c.tpl"],
      "debug targets are chosen per layer; the inference function prints each one's output buffer when the layer is done",
      {"technique": "deterministic simulation: debug-mode programs under seeded histories and file faults, refinement against the tensors of the model",
       "note": "One test, as documented; intermediate tensors from onnxruntime for ONNX models, else the last tensor and agreement of C and Python."},
      observe=["debug file, predictions and exit status of the program", "lists returned by compute_inference and debug_onnx", "verdict of compare_result"]),
    P("C18", "An interruption at any point leaves nothing behind",
      "After loading a model, generating code or evaluating was interrupted at any point by an exception (an interrupt from the keyboard, lack of memory), everything done later in the process, "
      "with the same generator, the same model object or others, gives byte for byte what it gives in a process where nothing was interrupted, and the caller's models and datasets are unchanged. "
      "An operation that returns although an exception was raised in it has given the right result; a generation repeated in a directory of an interrupted one is complete or refused.",
      ["crash_points", "histories", "programs"],
      "all points between the lines of the generator, all histories of operations with any number of interruptions, all supported models and options",
      "tests never interrupt an operation, let alone at a chosen line, and go on in the same process",
      ["src/acetone_nnet/generator/neural_network.py", "src/acetone_nnet/importers", "src/acetone_nnet/pattern_matching", "src/acetone_nnet/versioning", "src/acetone_nnet/quantize"],
      "the state that outlives an operation: attributes of the generator and its layers, and registries of the process (patterns, implementations, target files)",
      {"technique": "deterministic simulation: exceptions injected at seeded lines of histories of operations, byte equality with undisturbed processes",
       "note": "Exceptions in front of lines of acetone_nnet, sampled per function and occurrence; not inside libraries or during imports."},
      state=[("generator", "attributes of CodeGenerator and its layers"), ("registries", "patterns and implementations known to the process")],
      observe=["generated files", "output_python.txt", "exceptions"]),
    P("C19", "Layers are generated in the versions asked for; extensions change nothing else",
      "The code of every layer is that of the version selected for its index, else for its type, else the default one; unknown versions and names registered twice are refused, and the caller's selection is not modified. "
      "Registering versions, layer factories or patterns, in any order and from several threads, loses none of them and changes no file generated without them. ",
      ["schedules", "histories", "programs", "configurations"],
      "all histories of registrations, selections and generations, in any number of threads, under all schedules, for all supported models",
      "tests register at most one version, in a process of one thread, and never compare with a process without it",
      ["src/acetone_nnet/versioning", "src/acetone_nnet/generator/neural_network.py", "src/acetone_nnet/pattern_matching/PatternMatcher.py"],
      "registered versions and factories, the selection of versions per layer",
      {"technique": "deterministic simulation: seeded scheduler over threads with histories of registrations, refused registrations and generations; refinement against processes without extensions",
       "note": "Registered versions are built-in implementations that leave a mark in the code, so that the expected code is known; patterns registered match nothing."},
      state=[("registries", "implementations and patterns known to the process"), ("selection", "the version of each layer")],
      observe=["generated files", "KeyError", "list_all_implementations"]),
]
