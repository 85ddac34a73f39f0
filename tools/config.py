# Per property: build variants with their share of the search time, (quick, thorough) search seconds,
# and what the evidence says about rule, components and assumptions.
LIB = "tokenizer, parser, analyser, instantiation, VM code generator, virtual machine, BMS/C/C++ code generators, document parser, HTML conversion and printing code, compiled from /repo's working tree"
HEAP = "the process heap and the caller's memory resource (simulated, with fault injection)"
CLOCK = "time (a step clock counting basic blocks of the code under test)"
POOL = "libstdc++'s own pool resource is not made to fail in the middle of its bookkeeping (it is not safe against that); every allocation from it can fail as a whole"
MODEL = "the reference model of the language (elaboration and interpretation of the generated subset) is right about what the documentation and tests say; constructs whose meaning is not pinned down (overflow of Int beyond 128 bits, falling off the end of a function) are excluded"
SRC = "inputs come from the repository's examples and tests, and from generators of programs and documents"
TOOL = "the command-line tool (src/cli) and everything below it, compiled from /repo's working tree, with libstdc++'s and glibc's stream buffering; each run in its own process"
PROPERTIES = {
    "P01": dict(technique="seeded failures of a simulated disk and standard output below the real command-line tool, against its undisturbed run",
                note="Seeded search over commands, inputs, buffering modes and sequences of failing or short writes, opens and closes.",
                variants=[("fast", 1)], seconds=(70, 600), real=[TOOL], stub=["the disk and standard output below the C library's buffers (open, read, write, close with faults)", HEAP, CLOCK],
                rule="a run takes one command line and input, and executes the tool 6 to 22 times with other buffering and faults chosen by the seed; non-trivial if a harmful fault really happened; distinct by outputs, statuses and event log",
                assumptions=["interrupted calls (EINTR) stop after at most 20 repetitions", SRC]),
    "P02": dict(technique="seeded read failures, short reads, failing opens and allocations of a simulated disk below file_to_string and the real command-line tool, against the true content",
                note="Seeded search over file sizes and contents around buffer boundaries, and sequences of faults.",
                variants=[("fast", 1)], seconds=(70, 600), real=[TOOL], stub=["the disk and standard output below the C library's buffers (open, read, write, close with faults)", HEAP, CLOCK],
                rule="a run reads one file 8 to 24 times through file_to_string, or executes the tool 6 to 20 times, with faults chosen by the seed; non-trivial if a harmful fault really happened; distinct by outcomes and event log",
                assumptions=["interrupted calls (EINTR) stop after at most 20 repetitions", "files do not change while they are read", SRC]),
    "P03": dict(technique="seeded allocation failures in every stage, with retry, against the undisturbed run",
                note="Seeded search over (input, stage, failing allocation, burst, scope); real library under AddressSanitizer/UBSan. Finds what the sampled inputs and failures reach; no exhaustiveness.",
                variants=[("fast", 0.6), ("asan", 0.4)], seconds=(70, 600), real=[LIB], stub=[HEAP, CLOCK, "output streams (memory)"],
                rule="a run compiles one program or converts one document stage by stage; before the stages, allocation failures (number, length of the burst, global heap or memory resource) chosen by the seed are injected and the stage is retried; non-trivial if at least one allocation really failed; distinct by the sequence of (stage, outcome) and the undisturbed result",
                assumptions=[POOL, SRC]),
    "P04": dict(technique="complete accounting of a simulated heap and memory resource over repeated, faulty and abandoned compilations",
                note="Seeded search; every block is tracked exactly, so a leak on an explored path is certain to be seen; unexplored paths are not covered.",
                variants=[("fast", 0.6), ("asan", 0.4)], seconds=(70, 600), real=[LIB], stub=[HEAP, CLOCK, "output streams and HTML consumers (in memory, can fail)"],
                rule="a run repeats one to three compilations or conversions several times in one process, the later rounds with allocation and output failures chosen by the seed, some abandoned half-way, and accounts for every block; distinct by the whole event log",
                assumptions=[POOL, SRC]),
    "P05": dict(technique="seeded failures of the HTML output (reject, throw) against the undisturbed token sequence",
                note="Seeded search over documents, options and failing writes; oracle is the undisturbed run of the same code.",
                variants=[("fast", 0.6), ("asan", 0.4)], seconds=(70, 600), real=[LIB], stub=[HEAP, CLOCK, "HTML token consumers, and the stream buffer below the tool's own consumers (reject, reject from then on, or throw, at writes chosen by the seed)"],
                rule="a run converts documents with a consumer that fails at the writes chosen by the seed, compares with the undisturbed conversion and converts again; non-trivial if a failure really happened; distinct by input, options and failures",
                assumptions=[SRC]),
    "P11": dict(technique="seeded sequences of successful and failing generations into the same outputs, against the state before",
                note="Seeded search; state of the outputs is compared completely before and after every operation.",
                variants=[("fast", 0.6), ("asan", 0.4)], seconds=(70, 600), real=[LIB], stub=[HEAP, CLOCK],
                rule="a run generates source code (BMS, C, C++) and machine instructions of one to three programs many times into the same outputs, with unsupported constructs and allocation failures chosen by the seed, and compares the outputs before and after; non-trivial if there were successes and failures; distinct by the sequence of operations' outcomes and the programs",
                assumptions=[POOL, SRC]),
    "P08": dict(technique="seeded histories of calls, aborts, resets, added code and allocation failures on several machines, against an executable reference model of the language",
                note="Seeded search over generated programs and histories; every call result is compared with an independent interpreter of the source program.",
                variants=[("fast", 0.75), ("asan", 0.25)], seconds=(70, 660), real=[LIB], stub=[HEAP, CLOCK, "the scheduler of the machines (cycles of several machines interleaved as the seed says)"],
                rule="a run generates a program, compiles it, and drives one to three virtual machines through a history chosen by the seed (start, single steps, finish, reset, added code, allocation failures inside a cycle with and without retry); non-trivial if at least two calls ended; distinct by program, outcomes and number of aborts",
                assumptions=[MODEL, POOL]),
    "P09": dict(technique="seeded sequences of instantiation and analysis requests with allocation failures on one program object, against an executable reference model of the language",
                note="Seeded search over generated programs and request sequences; constants, rejections and calls of instances are compared with an independent interpreter.",
                variants=[("fast", 0.75), ("asan", 0.25)], seconds=(70, 660), real=[LIB], stub=[HEAP, CLOCK, "the order of requests (chosen by the seed)"],
                rule="a run generates a program and sends instantiation, analysis and call requests chosen by the seed to one program object, some ended by allocation failures; non-trivial if something was analysed or instantiated; distinct by program and outcomes",
                assumptions=[MODEL, POOL]),
    "P10": dict(technique="seeded histories of calls, failures, aborts and resets on virtual machines and of failing analyses, against the comparison that an executable reference model says failed",
                note="Seeded search over generated programs rich in assertions; every failure report and printed message is compared with an independent interpreter that tracks which comparison produced each value.",
                variants=[("fast", 0.75), ("asan", 0.25)], seconds=(70, 600), real=[LIB], stub=[HEAP, CLOCK, "the scheduler of the machines (cycles of two machines interleaved as the seed says)"],
                rule="a run generates a program with assertions over comparisons, variables, logical operators, conditionals and calls, drives one or two virtual machines through a history chosen by the seed, and analyses variants of the program with failing constants and static assertions; non-trivial if a failure was reported; distinct by program and outcomes",
                assumptions=[MODEL, POOL]),
    "P12": dict(technique="seeded storage faults applied to stored sources and documents, processed completely under sanitizers and a step clock",
                note="Seeded search over (input, sequence of storage faults, options); crashes and undefined behaviour through AddressSanitizer/UBSan, hangs through a bound on executed basic blocks.",
                variants=[("asan", 0.8), ("fast", 0.2)], seconds=(70, 600), real=[LIB], stub=[HEAP, CLOCK, "the disk (damages stored files as the seed says: flipped bits, torn, zeroed, duplicated, dropped, swapped, foreign blocks)", "output streams (memory)"],
                rule="a run damages one stored program or document by one to seven storage faults and takes it through every stage and printer; non-trivial if the content was really changed; distinct by the outcomes and results of all stages",
                assumptions=["nesting deeper than the file's size allows within a 512 MB stack is not reached; the recursion of the parsers is not bounded by themselves", "computations which a program asks for in constant expressions are cut off after 100000 machine cycles", SRC]),
    "P06": dict(technique="seeded preemptive interleaving (at basic blocks) of independent compilations with faults and abandonment, against each compilation alone in a fresh process",
                note="Seeded search over sets of jobs, preemption points and faults; every stage's complete observable result is compared with the solo run.",
                variants=[("fast", 0.85), ("asan", 0.15)], seconds=(70, 600), real=[LIB], stub=[HEAP, CLOCK, "the thread scheduler (fibers that have their own stack, exception state and thread-local variables; one-time initialisation is atomic)"],
                rule="a run interleaves two to five compilations or conversions, preempted at basic blocks as the seed says, some with allocation failures, failing output, or abandoned half-way; non-trivial with more than ten context switches; distinct by the complete event log",
                assumptions=["preemption happens between basic blocks of the code under test and not inside the C++ library; data races in the sense of the memory model are only seen if they change a result", POOL, SRC]),
    "P07": dict(technique="seeded perturbation of heap placement, memory contents, stack contents and process history (with faults), against the run alone in a fresh process",
                note="Seeded search over inputs, layouts and histories; every stage's complete observable result is compared.",
                variants=[("fast", 1)], seconds=(70, 600), real=[LIB], stub=[HEAP, CLOCK, "the contents of fresh, freed and stack memory"],
                rule="a run repeats one compilation or conversion two to six times in one process, each time after a history of completed, rejected, faulted or abandoned other jobs, with another placement of heap blocks and other contents of fresh, freed and stack memory; distinct by the complete event log and the layouts",
                assumptions=["the addresses of the program's code and constants and the environment are not varied", SRC]),
    "P13": dict(technique="seeded sequences of operations on tagged unions of instrumented types whose operations throw where the seed says, against a registry of live objects and a small reference model",
                note="Seeded search over operation sequences and throwing operations on 11 variant and 8 result types; the registry sees every construction and destruction, so a violation on an explored path is certain to be seen.",
                variants=[("asan", 0.6), ("fast", 0.4)], seconds=(50, 500), real=["Variant and Result (src/common/variant.hpp, result.hpp), compiled from /repo's working tree"], stub=["the types they contain (instrumented; they throw as the seed says)"],
                rule="a run performs 30 to 120 operations chosen by the seed on up to three kinds of variants and results, alone and inside vectors, with throwing operations of their contents; non-trivial if something was thrown; distinct by the sequence of operations and where something was thrown",
                assumptions=["variants with one alternative cannot be visited (does not compile) and are not explored"]),
    "P15": dict(technique="seeded chains of regenerations of the source language with failing generations and allocation failures between them, the regenerated program driven against an executable reference model of the language",
                note="Seeded search over generated programs, options, and histories of generations into the same output; acceptance, constants, requires-clauses and calls of the regenerated program are compared with an independent interpreter of the original.",
                variants=[("fast", 0.75), ("asan", 0.25)], seconds=(70, 600), real=[LIB], stub=[HEAP, CLOCK, "the order of generations, failures and requests (chosen by the seed)"],
                rule="a run generates a program, regenerates it one to four times in a chain with options, failing and exhausted generations and other languages into the same output, analyses the last one and drives its constants, instances and calls; non-trivial if the regenerated program was analysed; distinct by program and outcomes",
                assumptions=["annotations are not part of what is regenerated (they do not change the meaning of programs)", MODEL, POOL]),
    "P16": dict(technique="seeded storage faults on source texts and allocation failures while tokenizing into a kept vector, against an independent reference lexer",
                note="Seeded search over texts, damages and histories of tokenizations; every token (begin, length, kind, line) is compared with an independent maximal-munch lexer.",
                variants=[("fast", 0.5), ("asan", 0.5)], seconds=(50, 500), real=["tokenizer (src/bms/tokenization) and what it uses, compiled from /repo's working tree"], stub=[HEAP, CLOCK, "the disk (damages stored texts as the seed says)"],
                rule="a run takes one to three texts, damages and tears them, and tokenizes them one after another into the same vectors with allocation failures and retries; non-trivial if tokens were appended; distinct by texts and outcomes",
                assumptions=["the reference lexer is right about the documented tokens", SRC]),
    "P18": dict(technique="seeded histories of requests, calls, faults and resets on programs changed at seeded points, monitored for type errors of the virtual machine and for the declared type of every result",
                note="Seeded search over programs whose types, operators and operands were changed at random; the oracle is the declared signature, and what analysis accepts is believed and executed.",
                variants=[("fast", 0.75), ("asan", 0.25)], seconds=(70, 600), real=[LIB], stub=[HEAP, CLOCK, "the order of requests, calls, failures and resets (chosen by the seed)"],
                rule="a run changes a generated program at zero to several places, analyses it, and if it is accepted calls its functions and instances in histories with allocation failures, aborts and resets; non-trivial if calls completed; distinct by program and outcomes",
                assumptions=["functions that can end without return are excluded (unspecified)", POOL]),
    "P19": dict(technique="seeded storage faults on documents, failing HTML consumers and allocation failures in histories of conversions, every page read by an independent strict HTML reader and compared with the document's tree",
                note="Seeded search over documents and programs with markup-like text in them, their damaged versions, options, and histories of failing and completing conversions.",
                variants=[("fast", 0.7), ("asan", 0.3)], seconds=(60, 500), real=["document parser, HTML conversion, HTML writer, tokenizer and highlighter (src/bmd, src/bms/tokenization), compiled from /repo's working tree"], stub=[HEAP, CLOCK, "the disk (damages stored documents as the seed says)", "the consumer of HTML tokens (rejects or throws as the seed says)"],
                rule="a run takes a document or program with markup-like text inserted and its damaged versions and converts them 3 to 12 times with options, failing consumers and allocation failures; non-trivial if pages were completed and others cut off; distinct by texts, options and outcomes",
                assumptions=["the tree of the document is the repository's own parser's", "an ampersand is passed through by design (so that entities can be written)", "directives that are not implemented (they end with a reported error) are judged up to there", SRC]),
}

PURE = "a pure function of its input with no schedule, clock, fault, history or interleaving in it; deterministic simulation would only be input generation: "
NOT_APPLICABLE = {
    "P14": PURE + "translation correctness of C/C++ output belongs to translation validation or differential testing",
    "P17": PURE + "conformance to the grammar belongs to differential testing against a generated recogniser",
    "P20": PURE + "literal values belong to property-based testing or proof",
    "P21": PURE + "the position in a diagnostic belongs to property-based testing with a reference front end",
}
