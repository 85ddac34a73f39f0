#!/usr/bin/env python3
"""Writes properties.jsonl (kept as code so that the lines stay well-formed)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, state=(), observe=(), hook=None):
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files, mechanism=[dict(name=a, where=b) for a, b in mech],
                     state=[dict(name=a, meaning=b, where=c) for a, b, c in state], observe_at=list(observe), hook_needed=hook)))

p("P01", "A zero exit status means all requested output was really written",
  "For every command and every sequence of failures while standard output or the named output file is opened, written, flushed or closed, the command-line tool exits with status 0 only if every byte it would produce without failures reached its destination, in order and unduplicated, and otherwise exits non-zero in an orderly way. Short writes alone change neither the output nor the exit status. A failure of the output never turns a non-zero exit status into a zero one.",
  ["fault_sequences", "inputs", "configurations"],
  "Every subcommand, every input file, every position of EIO/ENOSPC/EPIPE/short write/EINTR/failed open/failed close on stdout or the output file.",
  "The tests never run the command-line tool and never let a write fail; every failure position in the output stream would need its own test.",
  ["src/cli/main.cpp", "src/cli/compile.cpp", "src/cli/glue.cpp"],
  [("exit status chosen by the command handlers and by main()", "src/cli/main.cpp: dump_tokens, dump_ast, to_html, check_semantics, generate, main"),
   ("std::exit(1) on a diagnostic", "src/cli/compile.cpp"), ("stream-backed token consumers", "src/cli/glue.cpp")],
  observe=["exit status", "bytes accepted by stdout", "bytes stored in the output file"])

p("P02", "An input file is read exactly or its failure is reported",
  "Reading a source file yields exactly the stored bytes or reports an error: no pattern of short reads, interrupted reads, read errors, failing opens or allocation failures makes a truncated, padded, duplicated or stale content look like a success. Short reads alone never make reading fail. A read fault never makes the command-line tool exit with status 0 unless its output equals the one for the true content.",
  ["fault_sequences", "inputs"],
  "Every file content and size (0, block-size multiples ±1, embedded NUL, large), every sequence of short read, EINTR, EIO, failing open, and every allocation failure while reading.",
  "Tests read a few small files from a healthy disk; the chunk loop's behaviour at every short-read/err position and size is never exercised.",
  ["src/common/io.cpp", "src/cli/compile.cpp", "src/cli/main.cpp"],
  [("chunked read loop with badbit exceptions", "src/common/io.cpp: file_to_string"), ("error → exit 1", "src/cli/compile.cpp: load_file")],
  observe=["result of file_to_string", "exit status and output of the tool"])

p("P03", "Memory exhaustion at any point is reported cleanly and can be retried",
  "If any single or repeated memory allocation fails while tokenizing, parsing, analysing, instantiating, generating code, executing in the virtual machine, converting a document or printing, the operation ends by reporting out-of-memory to its caller; it never terminates the process, corrupts memory, raises an internal error, or returns a wrong or partial result as if it were complete. Objects that were only inputs of the failed operation stay unchanged and usable. Repeating the operation afterwards with memory available gives exactly the result of an undisturbed run.",
  ["fault_sequences", "programs", "inputs"],
  "Every program or document, every stage, every index (and burst) of the failing allocation, in either the caller-supplied memory resource or the global heap.",
  "No test ever lets an allocation fail; there are hundreds of allocation points per program, each an individual exit path of its own.",
  ["src/bms/tokenization/tokenize.cpp", "src/bms/parsing/parse.cpp", "src/bms/ast.cpp", "src/bms/analyze.cpp", "src/bms/analyze_name_lookup.cpp", "src/bms/analyze_annotations.cpp", "src/bms/instantiate.cpp", "src/bms/vm/codegen.cpp", "src/bms/vm/vm.cpp", "src/bmd/parsing/parse.cpp", "src/bmd/html/doc_to_html.cpp", "src/bmd/html/html_writer.cpp", "src/bmd/codegen/codegen_c_cpp.cpp", "src/bmd/codegen/codegen_bms.cpp", "src/common/diagnostics.cpp"],
  [("exception propagation through pmr containers", "every stage"), ("scope-based rollback during unwinding", "src/bmd/codegen/generator_base.hpp: Scoped_Attempt, Scoped_Parenthesization"),
   ("attribute writer scope", "src/bmd/html/html_writer.hpp: Attribute_Writer")],
  observe=["exception type reaching the caller", "result of the retry", "process survival under ASan/UBSan"])

p("P04", "Every resource acquired during a compilation is given back",
  "When all objects of a compilation have been destroyed, everything taken from the global heap and from the caller's memory resource has been returned exactly once, with the size and alignment it was requested with (the nodes of a parsed document, by design, when the caller releases that resource). This holds whether the compilation succeeded, ended with a diagnostic or internal error at any stage, or was cut short by an injected allocation or output failure. Repeating compilations therefore does not make a process grow, apart from one-time caches.",
  ["histories", "fault_sequences", "programs", "inputs"],
  "Every program or document, every way a stage can end (success, diagnostic, internal error, injected failure), every order of object moves and destruction.",
  "Tests never account for memory; a leak on an error path is invisible to an assertion about results.",
  ["src/bms/parsing/parse.cpp", "src/bms/ast.cpp", "src/bms/analyze.cpp", "src/bms/instantiate.cpp", "src/bmd/parsing/parse.cpp", "src/bmd/parsing/ast.hpp", "src/common/variant.hpp", "src/common/result.hpp"],
  [("owning implementations deleted by destructors and moves", "src/bms/ast.cpp: Analyzed_Program; src/bms/parsing/parse.cpp: Parsed_Program; src/bmd/parsing/parse.cpp: Parsed_Document"),
   ("alternatives destroyed by the tagged unions", "src/common/variant.hpp, src/common/result.hpp")],
  observe=["live blocks of an accounting memory resource and of the global heap"])

p("P05", "A failing HTML output never yields a silently incomplete document",
  "While a document is converted to HTML, if the consumer rejects a token or throws, at any point and any number of times, the tokens it accepted up to the first failure are a prefix of those of an undisturbed conversion, and the conversion reports failure (or lets the consumer's exception through). It reports success only if the consumer accepted the complete token sequence. The document stays usable, and converting it again yields the undisturbed output.",
  ["fault_sequences", "inputs"],
  "Every document, every option set, every token position and pattern at which the consumer rejects or throws.",
  "No test writes to a consumer that fails; the failing position ranges over every token of every document.",
  ["src/bmd/html/doc_to_html.cpp", "src/bmd/html/html_writer.cpp", "src/bmd/html/html_writer.hpp", "src/bmd/html/bms_to_html.cpp", "src/bmd/html/token_consumer.hpp"],
  [("consumer's bool result: true if writing was successful", "src/bmd/html/token_consumer.hpp"), ("writer over the consumer", "src/bmd/html/html_writer.cpp"), ("result of the conversion", "src/bmd/html/doc_to_html.cpp: doc_to_html")],
  observe=["tokens accepted by the consumer", "result or exception of the conversion"])

p("P06", "Independent compilations do not influence one another",
  "Two or more compilations, conversions or virtual machines with separate inputs and memory resources, advanced in any interleaving, produce exactly the results each produces alone. This still holds when some of them fail, run out of memory, or are abandoned half-way. Nothing is shared between them apart from constant tables that are initialised once.",
  ["schedules", "programs", "fault_sequences"],
  "Every set of programs and documents, every preemptive interleaving of their compilations at basic-block granularity, with and without faults in some of them.",
  "Tests run one compilation at a time to completion; shared mutable state only shows under interleaving.",
  ["src/bms/analyze.cpp", "src/bms/parsing/parse.cpp", "src/bms/tokenization/tokenize.cpp", "src/bms/vm/vm.cpp", "src/bmd/html/doc_to_html.cpp", "src/bmd/parsing/parse.cpp", "src/bmd/codegen/codegen_c_cpp.cpp", "src/bms/analyze_name_lookup.cpp"],
  [("all state kept in objects owned by the caller", "every stage"), ("constant lookup tables", "src/bms/analyze_name_lookup.cpp, src/bmd/html/doc_to_html.cpp")],
  observe=["complete observable result of each compilation"])

p("P07", "The same input always gives the same observable result",
  "Every observable result — tokens, printed trees, diagnostics and their order, generated source code, HTML, evaluated constants, call results and printed messages — depends only on the input and options. It does not depend on where objects are placed in memory, on the previous content of memory, or on what the process compiled, printed, or failed to compile before.",
  ["histories", "schedules", "fault_sequences", "programs", "inputs"],
  "Every input; every placement and initial content of allocated memory and stack; every history of earlier successful, rejected, faulted or aborted compilations in the process.",
  "Tests run each input once in one memory layout; dependence on layout, garbage or history needs many perturbed executions compared with each other.",
  ["src/bms/analyze.cpp", "src/bms/analyze_name_lookup.cpp", "src/bms/symbol_table.hpp", "src/bms/ast.cpp", "src/bms/parsing/parse.cpp", "src/bmd/parsing/parse.cpp", "src/bmd/html/doc_to_html.cpp", "src/bmd/codegen/codegen_c_cpp.cpp", "src/bmd/codegen/codegen_bms.cpp", "src/common/diagnostics.cpp"],
  [("ordered containers and initialised members throughout", "every stage"), ("stream formatting", "src/common/diagnostics.cpp")],
  observe=["complete observable result under perturbed heap, stack and history"])

p("P08", "Calls in the virtual machine give the language's result in any history",
  "Calling a compiled function in the virtual machine with arguments of its parameter types yields the value that the language assigns to that call, or the failure it assigns (failed assertion, division by zero, value out of the target type's range). This holds after any history of the same machine: earlier completed, failed or abandoned calls that were followed by a reset, code added later, allocation failures while stepping, and other machines being stepped in between. A completed call leaves exactly its result on the stack.",
  ["histories", "programs", "inputs", "schedules", "fault_sequences"],
  "Every well-typed program, every sequence of calls with every argument values, aborts, resets, added code and allocation failures, and every interleaving of several machines.",
  "The tests call a few functions once on a fresh machine with fixed arguments.",
  ["src/bms/vm/vm.cpp", "src/bms/vm/vm.hpp", "src/bms/vm/codegen.cpp", "src/bms/vm/linear_map_stack.hpp", "src/bms/evaluation/operations.cpp", "src/bms/concrete_value.hpp"],
  [("stepping function", "src/bms/vm/vm.cpp: Virtual_Machine::cycle"), ("variable frames and return addresses", "src/bms/vm/linear_map_stack.hpp"), ("code generation for the machine", "src/bms/vm/codegen.cpp"), ("value semantics", "src/bms/evaluation/operations.cpp")],
  state=[("machine state", "stack, frames, instruction counter, pending comparison", "src/bms/vm/vm.hpp")],
  observe=["result value or failure of each call", "stack size after a call"])

p("P09", "Compile-time evaluation and instantiation agree with the language in any order",
  "Every constant that analysis evaluates, and every static assertion it accepts or rejects, has the value the language assigns to its expression, including calls of ordinary and bit-generic functions made at compile time. Bit-generic functions can be instantiated explicitly or implicitly, repeatedly, in any order, interleaved with analysis and after failed attempts, and every instance behaves like the function with the widths substituted. Repeating an analysis or instantiation that already succeeded changes nothing.",
  ["histories", "programs", "fault_sequences"],
  "Every program, every sequence of analysis and instantiation requests on one program object, including requests that failed because of memory exhaustion and were repeated.",
  "The tests analyse each program once, with at most one instantiation request, always on a fresh object.",
  ["src/bms/analyze.cpp", "src/bms/instantiate.cpp", "src/bms/instantiate.hpp", "src/bms/evaluation/operations.cpp", "src/bms/ast.cpp"],
  [("analysis levels and memoised instances", "src/bms/analyze.cpp"), ("deep copy and width substitution", "src/bms/instantiate.cpp"), ("constant folding and compile-time calls", "src/bms/evaluation/operations.cpp, src/bms/analyze.cpp")],
  state=[("instances of a bit-generic function", "one per set of widths", "src/bms/ast.hpp: ast::Function")],
  observe=["values of constants", "analysis result codes", "results of calls of instances"])

p("P10", "A failed assertion reports the operands that actually failed",
  "When an assertion of a comparison fails while a program executes in the virtual machine or in a call made at compile time, or a static assertion of a comparison fails, the failure (and the message printed for it) reports that very comparison with the operand values it had in that execution. Otherwise a comparison is reported only if it produced the asserted value in that very execution. Nothing from earlier assertions, calls, failures or resets of the machine leaks into the report.",
  ["histories", "programs", "inputs"],
  "Every program with assertions over comparisons, variables, logical operators, conditionals and calls; every history of calls, failures and resets of one machine.",
  "The tests look at failed comparisons only for a single comparison on a fresh machine.",
  ["src/bms/vm/vm.cpp", "src/bms/vm/vm.hpp", "src/bms/comparison_failure.hpp", "src/bms/analyze.cpp", "src/common/diagnostics.cpp"],
  [("comparison remembered for the following assertion", "src/bms/vm/vm.cpp: Cycle_Impl (Binary_Operate, Builtin_Call)")],
  state=[("pending comparison", "operands of the comparison consumed by the next assertion", "src/bms/vm/vm.hpp")],
  observe=["execution error and analysis error contents"])

p("P11", "A failed code generation leaves what was generated before untouched",
  "Generating source code or machine instructions into a caller's output that already has content either appends the complete result, or, when it ends with an error or an exhausted-memory failure, leaves the characters or instructions and their formatting spans that were there before exactly as they were. This holds for any number of successive successes and failures into the same output. What a later success appends does not depend on the failures before it.",
  ["histories", "fault_sequences", "programs"],
  "Every program and language, every accumulated output, every generator error and every allocation-failure position, any succession of them.",
  "The tests generate once into an empty output and never look at it after a failure.",
  ["src/bmd/codegen/generator_base.hpp", "src/bmd/codegen/codegen_c_cpp.cpp", "src/bmd/codegen/codegen_bms.cpp", "src/bmd/codegen/code_string.hpp", "src/bmd/codegen/codegen.cpp", "src/bms/vm/codegen.cpp", "src/bms/vm/codegen.hpp"],
  [("scoped attempt with rollback", "src/bmd/codegen/generator_base.hpp: Scoped_Attempt"), ("truncation of text and spans", "src/bmd/codegen/code_string.hpp"), ("restore lambdas", "src/bms/vm/codegen.cpp")],
  observe=["text and spans of the output", "instructions of the output"])

p("P12", "Damaged stored input is handled safely and in bounded time",
  "However a stored source file or document is damaged — flipped bits, truncation, torn, zeroed, duplicated or swapped blocks — processing it ends, in a number of steps bounded by its size, with a result, a diagnostic, or a reported internal error; tokenizing and parsing a program ends with a result or a diagnostic. It never crashes, hangs, reads or writes outside its buffers, or has undefined behaviour. Executions that a valid program itself asks for (its own unbounded loops evaluated at compile time) are not covered by the bound.",
  ["fault_sequences", "inputs"],
  "Every valid source or document and every sequence of storage faults applied to it, through every processing stage and printer.",
  "The tests hold a few dozen hand-written invalid files; damage at every offset with sanitizers and a step bound is far outside them.",
  ["src/bms/tokenization/tokenize.cpp", "src/bms/parsing/parse.cpp", "src/bms/analyze.cpp", "src/bms/analyze_annotations.cpp", "src/bms/analyze_name_lookup.cpp", "src/bmd/parsing/parse.cpp", "src/bmd/html/doc_to_html.cpp", "src/bmd/html/bms_to_html.cpp", "src/common/parse.cpp", "src/common/diagnostics.cpp"],
  [("bounds-checked cursors with assertions", "src/bmd/parsing/parse.cpp, src/bms/tokenization/tokenize.cpp"), ("diagnostics for malformed input", "every stage"), ("internal-error reporting", "src/common/assert.hpp")],
  observe=["process survival under ASan/UBSan", "executed basic blocks per input byte"])

p("P13", "Tagged unions stay valid when copying or moving their content fails",
  "The variant and result types that all stages hand data around in always contain exactly one live alternative (or are observably in their documented empty state), and each contained object is destroyed exactly once. This holds for every sequence of constructions, copies, moves, assignments, swaps, accesses and destructions, also when an alternative's constructor or assignment throws in the middle. An operation that throws does not lose the validity of the operands.",
  ["histories", "fault_sequences", "inputs"],
  "Every sequence of operations over alternatives that are trivial, throwing, move-only or owning, with a failure injected at every construction and assignment.",
  "The tests cover a handful of operation sequences on alternatives that never throw.",
  ["src/common/variant.hpp", "src/common/result.hpp"],
  [("construct/destroy of the active alternative and the index", "src/common/variant.hpp"), ("success/error storage", "src/common/result.hpp")],
  observe=["live-object registry of instrumented alternatives", "index and value"])

p("P15", "Regenerating the source language gives an equivalent program",
  "Generating the source language from an accepted program yields, for every choice of formatting options, a program that is accepted and has the same meaning, annotations aside: the same constants, the same functions and instances, the same widths accepted by requires-clauses, and the same result or failure of every call. This holds for chains of regenerations, and whatever was generated before into the same output, in whatever language, including generations that failed or ran out of memory.",
  ["histories", "programs", "fault_sequences", "configurations"],
  "Every accepted program, every set of options, every history of earlier generations (completed, failed, exhausted) into the same output, every length of the chain.",
  "The tests compare the text of a few small programs with golden text; they never read it back, never chain and never generate after a failure.",
  ["src/bmd/codegen/codegen_bms.cpp", "src/bmd/codegen/generator_base.hpp", "src/bmd/codegen/code_string.hpp", "src/bms/expression_type.hpp"],
  [("printer of declarations, statements and expressions", "src/bmd/codegen/codegen_bms.cpp: Bms_Code_Generator"), ("parentheses chosen by precedence", "src/bmd/codegen/codegen_bms.cpp: needs_parentheses")],
  observe=["constants, instances, acceptance and call results of the regenerated program"])
p("P16", "Tokens partition the source text exactly",
  "Tokenizing appends to the caller's tokens the maximal-munch partition of the text: in order, non-overlapping, with only white space between them, each with the right position, length, line and kind. A text is refused only if at some position no token begins, and then at that position. This holds for any stored text, however damaged or torn, and for any history of the token vector: tokens that it held before stay as they were, and after an exhausted memory tokenizing again gives the complete result.",
  ["inputs", "fault_sequences", "histories"],
  "Every source text, every sequence of storage faults applied to it, every history of tokenizations into one vector, every allocation failure.",
  "The tests tokenize a few valid texts once into an empty vector, and never a damaged text or with failing allocations.",
  ["src/bms/tokenization/tokenize.cpp", "src/bms/tokenization/token_type.hpp", "src/common/parse.cpp"],
  [("tokenizer", "src/bms/tokenization/tokenize.cpp"), ("spelling and kinds of tokens", "src/bms/tokenization/token_type.hpp")],
  observe=["begin, length, kind and line of every token", "position and code of the error"])
p("P18", "Accepted programs cannot fail with a type error",
  "A program accepted by analysis never fails at run time because an operation is applied to a value of the wrong type, because the stack of the machine is empty, or because a jump leaves the code. A completed call leaves exactly one value, of the declared return type and within its range. This holds in every history of analysis and instantiation requests and calls, with failed assertions, exhausted memory, aborted calls and resets in between.",
  ["programs", "histories", "fault_sequences", "inputs"],
  "Every program that analysis accepts (not only those written to be well-typed), every history of requests, calls, faults and resets.",
  "The tests check single ill-typed programs for rejection; that nothing ill-typed is accepted is a statement about all others.",
  ["src/bms/analyze.cpp", "src/bms/evaluation/operations.cpp", "src/bms/vm/codegen.cpp", "src/bms/vm/vm.cpp", "src/bms/concrete_type.hpp"],
  [("type checks", "src/bms/analyze.cpp, src/bms/evaluation/operations.cpp"), ("implicit conversions in generated instructions", "src/bms/vm/codegen.cpp"), ("dynamic checks", "src/bms/vm/vm.cpp: Cycle_Impl")],
  observe=["kind of every execution error", "type and range of results", "stack size after a call"])
p("P19", "HTML pages are well-formed, and text stays text",
  "Every page that is produced from a document or a program, also from a damaged one, is well-formed: elements are nested and closed, attributes are quoted where needed. Each directive becomes the element that stands for it with exactly its arguments; the text of the document appears completely, in order and only as text (angle brackets, and quotes within attributes, are escaped), and highlighted code keeps its text and layout. What a consumer accepted from a conversion that failed, was refused or ran out of memory is the beginning of such a page. Earlier conversions do not matter.",
  ["inputs", "fault_sequences", "histories", "configurations"],
  "Every document or program, every sequence of storage faults applied to it, all options, every history of completed, refused and exhausted conversions, every position of a failure.",
  "The tests compare a few valid documents with golden HTML; they never contain text that looks like markup, damaged text or failing output.",
  ["src/bmd/html/html_writer.cpp", "src/bmd/html/doc_to_html.cpp", "src/bmd/html/bms_to_html.cpp", "src/bmd/html/html_writer.hpp", "src/bmd/enums.cpp"],
  [("writer's depth, attributes and escaping", "src/bmd/html/html_writer.cpp: HTML_Writer"), ("translation of directives", "src/bmd/html/doc_to_html.cpp: HTML_Converter"), ("highlighting", "src/bmd/html/bms_to_html.cpp")],
  observe=["the page as an independent strict reader of HTML finds it", "code blocks' text with white space"])

NA = "src/"
def na(id, title, st, text, why, files, mech):
    p(id, title, st, ["inputs", "programs"], text, why, files, mech)
na("P14", "Generated C and C++ code behaves like the source program",
  "Source code generated in C or C++ from an accepted program computes, for all arguments, the values that the program computes.",
  "All accepted programs, all options, all argument values.", "Tests compare generated text for a few programs with golden files; they never run it.",
  ["src/bmd/codegen/codegen_c_cpp.cpp"], [("expression and statement translation", "src/bmd/codegen/codegen_c_cpp.cpp")])
na("P17", "Parsing follows the published grammar",
  "A token sequence is accepted if and only if the published grammar derives it, and the tree built is the derivation's.",
  "All token sequences.", "Tests cover a few programs.", ["src/bms/parsing/parse.cpp"], [("recursive-descent parser", "src/bms/parsing/parse.cpp")])
na("P20", "Integer literals denote their mathematical value",
  "An integer literal in any supported base denotes its mathematical value, or is rejected if it is not representable.",
  "All literals.", "Tests cover a few literals.", ["src/common/parse.cpp", "src/common/parse.hpp"], [("literal parsing", "src/common/parse.cpp")])
na("P21", "Diagnostics point at the offending text",
  "The position reported with a diagnostic lies within the source and on the construct that violates the rule reported.",
  "All rejected inputs.", "Tests check some error lines.", ["src/bms/analyze.cpp", "src/bms/parsing/parse.cpp", "src/common/diagnostics.cpp"], [("positions attached to errors", "every stage")])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for x in P:
        a = x["anchors"]
        if not a["state"]: del a["state"]
        if not a["observe_at"]: del a["observe_at"]
        assert len(x["title"]) <= 80, (x["id"], len(x["title"]))
        f.write(json.dumps(x, ensure_ascii=False) + "\n")
