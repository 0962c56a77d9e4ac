# property -> (module, function, level, technique, level note)
SEM = "TLA+ (TLC): trace validation of compiled hardware against the executable semantics SpadeSem.tla"
STA = "TLA+ (TLC): verdict conformance of the compiler with the static semantics SpadeTypes.tla"
CHECKS = {
    "C18": ("c_cdc", "run_fifo", "model_checking", "TLA+ (TLC): design model FifoDesign.tla checked exhaustively; trace validation of compiled hardware against SpadeCdc.tla", "all interleavings of the design model at 1-2 (thorough 3) address bits; random and model-generated schedules with coinciding edges resolved bit by bit"),
    "C19": ("c_cdc", "run_cdc", "model_checking", "TLA+ (TLC): trace validation of compiled hardware against SpadeCdc.tla", "random schedules of both clocks with coinciding edges resolved bit by bit"),
    "C05": ("c_arith", "run", "model_checking", SEM + " and WideArith.tla",
            "operator tables exhaustive up to 4 (thorough 6) bits, random expressions and operands up to 200 bits"),
    "C01": ("c_sem", "run_regs", "model_checking", SEM, "random sequential units with 1-3 clocks, histories of 12-30 cycles"),
    "C02": ("c_sem", "run_pipes", "model_checking", SEM, "random pipelines of depth 1-5 with stage references, labels and nesting"),
    "C03": ("c_sem", "run_stalls", "model_checking", SEM, "random pipelines with stage conditions, stage.valid and stage.ready"),
    "C07": ("c_sem", "run_match", "model_checking", SEM, "every scrutinee value for types up to 7 bits, random nested matches beyond"),
    "C11": ("c_sem", "run_aggs", "model_checking", SEM, "random aggregate types and nestings up to 64 bits"),
    "C13": ("c_gen", "run", "model_checking", SEM, "random generic units, types, const-generic arithmetic, gen if recursion, each used at several instances"),
    "C14": ("c_meth", "run", "model_checking", SEM, "random inherent and trait impls, generic impls, bounded units and method calls"),
    "C15": ("c_lam", "run", "model_checking", SEM, "random lambdas, captures, nesting, higher-order units and standard library, entity and pipeline lambdas"),
    "C09": ("c_linear", "run", "model_checking", STA.replace("SpadeTypes.tla", "SpadeLinear.tla"), "random programs with ports in tuples, structs, arrays, calls, matches and blocks, valid or with up to two mutations of uses"),
    "C10": ("c_port", "run", "model_checking", SEM, "random units with inverted ports through tuples, structs, arrays, functions, entities and instances"),
    "C16": ("c_pass", "run", "model_checking", SEM, "random programs compiled with random pass lists, #[optimize] and #[inline] sets"),
    "C17": ("c_mem", "run", "model_checking", SEM, "random units with up to 3 memories, 0-3 write ports, initial contents, 1-2 clocks"),
    "C08": ("c_exh", "run", "model_checking", STA, "random matches, lets and regs near the boundary between exhaustive and not, nested types up to 1500 representative values"),
    "C28": ("c_assert", "run", "model_checking", SEM, "random units with assertions in units, blocks, branches, lambdas, pipelines and inlined instances"),
    "C04": ("c_type", "run_pipe", "model_checking", STA, "random pipelines, valid or with up to two mutations of stages, depths, delays and stage references"),
    "C06": ("c_type", "run", "model_checking", STA, "random typed programs, valid or with up to three mutations of types, widths, operators, arguments and statements"),
    "C12": ("c_names", "run", "model_checking", STA.replace("SpadeTypes.tla", "SpadeNames.tla") + "; trace validation of shadowing programs against SpadeSem.tla",
            "random module trees of up to 2 libraries with use aliases, visibilities and paths; scope mutations; programs with hidden names"),
    "C20": ("c_std", "run", "model_checking", "TLA+ (TLC): argument/result tables and histories of compiled hardware checked against SpadeStd.tla",
            "every function at several random types, widths, lengths and function arguments, 12 argument rows or 6-40 cycles each"),
    "C25": ("c_parse", "run", "model_checking", "TLA+ (TLC): lexer, grammar and evaluation of SpadeParse.tla against compiled hardware; trace validation of respelled programs against SpadeSem.tla",
            "random expressions of depth 2-4 over all operators and postfix forms with minimal, random and redundant parentheses, spacing and comments"),
    "C21": ("c_det", "run", "model_checking", "TLA+ (TLC): design model MonoDesign.tla checked exhaustively; trace validation of repeated compilations against DetTrace.tla", "all schedules of 2 (thorough 3) workers over 512 graphs of 5 instances; random jobs compiled 4-8 times in several processes, orders and thread counts"),
    "C22": ("c_driver", "run", "model_checking", "TLA+ (TLC): design model DriverDesign.tla checked exhaustively; trace validation of command line runs against SpadeDriver.tla", "all jobs of 3 units and 2 outputs in the design model; random jobs of up to 4 files, 9 units, 4 faults and 5 outputs"),
    "C23": ("c_net", "run", "model_checking", "TLA+ (TLC): the syntax trees of emitted netlists checked against SpadeNet.tla", "every module of programs drawn from the generators of the other checks: declarations, drivers bit by bit, widths, selects, connections, latches and the ports of every unit"),
    "C24": ("c_wave", "run_wave", "model_checking", "TLA+ (TLC): texts of simulated and random signal values checked against SpadeWave.tla", "random types up to 260 bits, every variable of random unit trees with generics and pipelines, values with undefined and high impedance bits"),
    "C26": ("c_wave", "run_bench", "model_checking", "TLA+ (TLC): answers of test bench sessions checked against SpadeWave.tla", "random port types, field paths, expressions and values, sessions of 5-9 accesses with wrong names, directions, types and values among them"),
    "C27": ("c_type", "run_kind", "model_checking", STA, "random programs mixing functions, entities, pipelines and unsafe units, with up to three mutations of kinds and calls"),
}
# property -> reason it is not decided
NOT_APPLICABLE = {}
