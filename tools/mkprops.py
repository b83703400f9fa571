"""Writes /verif/properties.jsonl (run by hand after editing)."""
import json
P=[]
def p(id,title,st,over,text,why,files,mech,obs,**k):
    d=dict(id=id,title=title,statement=st,quantifier=dict(over=over,text=text),why_tests_cant=why,anchors=dict(files=files,mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=obs,hook_needed=None))
    d["anchors"].update(k)
    P.append(d)

p("P01","Success is reported only when the whole output reached the file",
 "A compilation, or a preprocessing run that writes a file, reports success only if the output file then holds exactly the bytes the same call produces on a healthy file system. When the output cannot be opened, a write or the final flush and close fails, or the disk fills up, the call reports failure. When every write is eventually accepted, however it is split, the call does not report failure.",
 ["fault_sequences","programs","configurations"],
 "Every program, target (virtual machine, LLVM, MIPS, preprocessed text), entry point and every sequence of open, write, flush, close and disk-full faults on the output, at every byte.",
 "The test scripts only ever write to a healthy disk; no test injects a failed or short write, a full disk or a failing close.",
 ["libs/compiler/compiler.c","libs/macro/macro.c","libs/utils/uniio.c","libs/utils/uniprinter.c"],
 [("result of closing the output decides the status","libs/compiler/compiler.c compile_from_io; libs/macro/macro.c macro_to_file"),("write errors remembered by the stream","libs/utils/uniio.c out_clear, io_erase")],
 ["exit status of the call","bytes and mode of the output file"])
p("P02","A source or header that cannot be read fully is never compiled as if whole",
 "If a source file or header that a program uses cannot be opened or read to its end, the call reports failure, or else (the fault was harmless) produces exactly the output of a fault-free run. It never reports success with output made from part of the input, never hangs and never crashes on a failed read.",
 ["fault_sequences","programs","configurations"],
 "Every program and include graph, every entry point, and every sequence of read errors at any byte, failing opens, failing existence checks, failing link lookups and read sizes.",
 "Tests run on files that are always readable; a read error in the middle of a source or header never occurs in them.",
 ["libs/macro/macro.c","libs/macro/linker.c","libs/macro/parser.c","libs/utils/uniio.c","libs/compiler/compiler.c","libs/compiler/lexer.c"],
 [("read error test after the preprocessing of each input","libs/macro/macro.c macro_form_io; libs/macro/parser.c parse_path"),("existing but unopenable header is an error","libs/macro/linker.c")],
 ["exit status of the call","bytes of the output file"])
p("P03","A call that is refused memory fails cleanly",
 "When an allocation is refused at any point of a call (one allocation, several, or all from some moment on), the call ends in bounded work without a crash or a memory error and reports failure with at least one message. It reports success only if the refusal did no harm: then the output is exactly that of a run with all its memory.",
 ["fault_sequences","programs","configurations"],
 "Every program, entry point and every sequence of refused allocations, single, in bursts, permanent, or by a cap on the heap.",
 "Tests run with plenty of memory; no allocation is ever refused in them.",
 ["libs/utils/allocator.c","libs/utils/vector.c","libs/utils/map.c","libs/utils/strings.c","libs/utils/uniio.c","libs/macro/macro.c","libs/macro/parser.c","libs/compiler/compiler.c","libs/compiler/lexer.c","libs/compiler/syntax.c","libs/compiler/codegen.c"],
 [("refusals are counted and compared before and after each stage","libs/utils/allocator.c; libs/macro/macro.c macro_form_io; libs/compiler/compiler.c compile_from_io"),("input ends at the refusal","libs/macro/parser.c skip_until; libs/compiler/lexer.c lex")],
 ["exit status of the call","how the call ends","bytes of the output file","messages"])
p("P04","The result depends only on the sources and the command line",
 "For the same source files and arguments, the status, the output bytes, the diagnostics and the set of files written are the same whatever memory contents and addresses the process starts with, however the operating system splits reads and writes, whichever descriptor numbers, process id, clock, environment variables and random numbers it gives, and whatever an older output file contained.",
 ["configurations","programs","inputs"],
 "Every program, entry point and every environment: heap and stack garbage, block placement and reuse, transfer and buffer sizes, descriptor numbers, pid, clock, environment, stale outputs.",
 "A test observes one environment per machine; a dependence on uninitialised memory, addresses or buffer boundaries shows only in another one.",
 ["libs/compiler","libs/macro","libs/utils"],
 [("explicit initialisation of records","libs/compiler/llvmgen.c, mipsgen.c, codegen.c information records"),("position based stream access","libs/utils/uniio.c, uniscanner.c")],
 ["status, output bytes and mode, diagnostics, files after the call"])
p("P05","Compilations in one process do not influence each other over time",
 "A host program that calls the compiler or the preprocessor repeatedly in one process gets from every call the status, output and diagnostics that the same call gives in a fresh process. This holds after any earlier calls: successful ones, failed ones, other targets, and ones cut short by I/O errors or refused memory. It also holds when one workspace object is compiled or preprocessed again, to the same or another target.",
 ["histories","fault_sequences","programs"],
 "Every history of calls in one process, with any of the earlier calls failing by itself or by an injected fault.",
 "Tests start a new process per compilation, so state left over from an earlier call can never show.",
 ["libs/compiler/compiler.c","libs/macro/macro.c","libs/utils/logger.c","libs/utils/workspace.c","libs/compiler/syntax.c"],
 [("all state lives in objects made by the call","libs/compiler/syntax.c sx_create; libs/macro/environment objects"),("static loggers are the only process state","libs/utils/logger.c")],
 ["status, output bytes, diagnostics of every call"])
p("P06","Compilations in different threads do not influence each other",
 "When several threads of one process compile or preprocess different programs at the same time, each call gives the status, output and diagnostics it gives alone, under every interleaving of the threads.",
 ["schedules","programs"],
 "Every set of two to four concurrent calls on disjoint files, every thread interleaving down to single basic blocks.",
 "No test runs two compilations in one process, let alone chooses how they interleave.",
 ["libs/compiler","libs/macro","libs/utils"],
 [("no mutable state shared between calls","no writable statics outside libs/utils/logger.c")],
 ["status, output bytes, diagnostics of every call"])
p("P07","Every call gives back the memory and files it took",
 "When a call into the compiler or the preprocessor returns, with success or failure, it has closed every file it opened and freed every block it allocated (a text returned to the caller, and the caller's own workspace, excepted). This includes calls that fail because of bad programs, I/O errors or a refused allocation.",
 ["fault_sequences","programs","histories"],
 "Every program, entry point and sequence of injected I/O errors and refused allocations that the call survives.",
 "Tests never look at what is still allocated or open at the end, and the process exits right after the call.",
 ["libs/compiler/compiler.c","libs/compiler/syntax.c","libs/macro/macro.c","libs/macro/linker.c","libs/macro/parser.c","libs/macro/computer.c","libs/utils"],
 [("clear functions of every container and stage","*_clear in libs/utils, libs/macro, libs/compiler")],
 ["live heap blocks and open streams after each call"])
p("P08","A call changes nothing but its output, and only complete code is executable",
 "Whatever happens during a call (success, bad program, I/O error, refused memory, the process being killed), the sources, headers and all other existing files keep their content and mode; a call that returns leaves no new file other than its output. A newly created output file has an executable bit only if it holds the complete output of a successful compilation; a successful virtual-machine compilation makes its output executable.",
 ["crash_points","fault_sequences","programs"],
 "Every program and entry point, every kill point (any basic block, any system operation), every fault sequence.",
 "Tests do not kill the compiler and do not compare the directory before and after.",
 ["libs/compiler/compiler.c","libs/utils/uniio.c","libs/macro/linker.c"],
 [("mode changed only after success","libs/compiler/compiler.c make_executable")],
 ["the simulated file system after the call or the kill"])
p("P09","Repeating an interrupted call gives the complete result",
 "After a call was killed at any instant or failed because of an I/O error, repeating the same call on whatever files were left behind gives the same status, output and diagnostics as if the interrupted one had never happened.",
 ["crash_points","fault_sequences","programs"],
 "Every program and entry point, every kill point and fault sequence in the first call, with or without an older output file.",
 "No test interrupts a compilation and runs it again on the remains.",
 ["libs/compiler/compiler.c","libs/macro/macro.c","libs/utils/uniio.c"],
 [("output truncated and rewritten as a whole","libs/utils/uniio.c out_set_file"),("no state kept between calls outside the output","libs/compiler/compiler.c")],
 ["status, output bytes, diagnostics of the repeated call"])
p("P10","No failure is silent, and broken diagnostics never change the result",
 "Every call that reports failure has delivered at least one error message, to the host's loggers if they are installed and to the error stream otherwise; an injected fault never adds error messages to a call that then reports success. A failing or closed error stream changes neither the status nor the output of a call.",
 ["fault_sequences","programs","configurations"],
 "Every program, entry point, logger configuration and every sequence of faults on inputs, output and the error stream.",
 "Tests compare the status of healthy runs only; they never check that a message accompanies a failure caused by the environment, nor run with a broken error stream.",
 ["libs/utils/logger.c","libs/compiler/errors.c","libs/compiler/reporter.c","libs/macro/error.c","libs/compiler/compiler.c"],
 [("every failing return path emits a message","libs/compiler/compiler.c, libs/macro/macro.c"),("loggers ignore their own write errors","libs/utils/logger.c default loggers")],
 ["messages delivered to installed loggers or written to the error stream; status"])
p("P11","Containers keep their content through any history and any refused growth",
 "Every vector, stack, string list, map, hash, tree, node vector, macro storage and workspace behaves like a simple reference model for every history of operations with arguments in range or out of it. An operation that reports success has been applied, one that reports failure has left the content as it was, and when the growth of a container is refused the operation reports failure and the rest of the history goes on as if it had not been tried. Clearing gives back all memory. (A refused change of a macro's replacement may leave it with none.)",
 ["histories","fault_sequences","inputs"],
 "Every history of operations on every container, every starting size, and every sequence of refused allocations.",
 "The unit tests run a few short scripts per container, with plenty of memory and mostly valid arguments; wrong links, sizes and answers show after particular sequences, collisions and refusals only.",
 ["libs/utils/vector.c","libs/utils/stack.h","libs/utils/strings.c","libs/utils/map.c","libs/utils/hash.c","libs/utils/tree.c","libs/utils/node_vector.h","libs/macro/storage.c","libs/utils/workspace.c"],
 [("memory is reserved before links and sizes are changed","libs/utils/tree.c node_add_child, node_insert; libs/utils/hash.c hash_add"),("a part-stored string is forgotten","libs/utils/strings.c strings_cancel")],
 ["return value of every operation","content of the container after it","live heap blocks at the end"])
p("P12","Damaged sources end in a clean result, never in a crash or a hang",
 "A source or header damaged by its storage (cut short, blocks lost, zeroed, repeated or replaced by other data, bits flipped) makes the call end in bounded work with a status: it never crashes, touches memory it does not own, grows without bound or runs forever. Only a preprocessor loop that the damage made endless is excepted.",
 ["fault_sequences","inputs","programs"],
 "Every source text of the test suite or the generator with every sequence of storage damage, all targets and entry points.",
 "Tests contain a fixed set of wrong programs; truncation and corruption at arbitrary bytes is not sampled, and no memory checker watches them.",
 ["libs/compiler/lexer.c","libs/compiler/parser.c","libs/compiler/builder.c","libs/macro/parser.c","libs/utils/uniscanner.c","libs/compiler/codegen.c","libs/compiler/llvmgen.c","libs/compiler/mipsgen.c"],
 [("end of file ends every scanning loop","libs/compiler/lexer.c, parser.c; libs/macro/parser.c"),("bounds of tables and buffers checked","libs/utils, libs/compiler")],
 ["how the call ends, under a step budget and a memory checker"])
p("P13","All the ways in give the same result",
 "For the same sources, include directories and macro definitions, the command line, compiling a workspace (by target flag or by target call, fresh or used before) and the two-step way (preprocess to a file, then compile that file without the preprocessor) all succeed or all fail with the same messages, and produce the same code byte for byte. The preprocessor's text is the same whether it is returned as a string, written by macro_to_file or auto_macro_to_file, or written with -E. This holds over leftover files of earlier runs, after failed attempts, and however the reads and writes are split.",
 ["histories","fault_sequences","configurations","programs"],
 "Every program (the two-step way: without flags that only the compiler looks at), every order and combination of entry points in one process, every leftover file and failed earlier attempt.",
 "Each test goes one way in once, in a fresh process on a clean directory; the ways are never compared with each other.",
 ["libs/compiler/compiler.c","libs/macro/macro.c","src/main.c","libs/utils/uniio.c"],
 [("one compile_from_io behind every way","libs/compiler/compiler.c compile_from_ws, no_macro_compile_to_*"),("one macro_form_io behind string and file","libs/macro/macro.c")],
 ["status of every call","bytes of every output, returned text"])
p("P14","A stream is the same text whatever stands behind it",
 "Scanning gives the same characters, names, numbers and positions from a file as from a buffer with the same text, for every history of scanning, stepping back, repositioning, swapping and reopening; printing gives the same text in a file, in a growing buffer and through a host's function. A read or write that failed never passes for the end of the text: the text is right all the same, or closing the stream reports failure. A buffer whose growth is refused reports failure for that print and keeps what it holds.",
 ["histories","fault_sequences","inputs"],
 "Every history of operations on a stream over valid UTF-8 text, every buffer size and splitting of reads and writes, every sequence of failed reads, writes, seeks, closes and refused allocations.",
 "The tests read whole small files in one transfer, front to back, on a healthy disk; boundaries inside a character, stepping back over a refilled buffer and failures in mid-text are not sampled.",
 ["libs/utils/uniio.c","libs/utils/uniscanner.c","libs/utils/uniprinter.c","libs/utils/utf8.c"],
 [("position kept beside the C stream","libs/utils/uniio.c scan_file_arg, in_set_position"),("stream errors collected at close","libs/utils/uniio.c in_close_file, out_close_file")],
 ["characters, counts and positions returned","content of the file or buffer","status of the close"])
p("P15","The result does not depend on where the program lies or how its files are named",
 "Moving a program with its headers to another directory, naming its files from the root or from the working directory, adding '.', 'x/..' or doubled slashes to the paths of sources, include directories and #include lines, and files that do not belong to it lying beside it change neither the success of the compilation nor the generated code.",
 ["configurations","programs","environments"],
 "Every program, directory name and depth within the length limit of an argument, and every spelling of its paths that names each file consistently from the root or from the working directory.",
 "Tests always name programs by one absolute path of one length without detours; positions inside the preprocessed text shift with the length of the path.",
 ["libs/utils/workspace.c","libs/macro/linker.c","libs/utils/locator.c","libs/compiler"],
 [("paths are normalised before they are compared","libs/utils/workspace.c ws_unix_path"),("headers are searched from the including file, then the -I directories","libs/macro/linker.c")],
 ["status","output bytes of the copy against the original"])
def na(id,title,st,why,files):
    p(id,title,st,["programs","inputs"],"Every program.","The tests sample programs; see MANIFEST.json not_applicable for why this technique does not decide it.",files,[("(not claimed)",files[0])],["output of one call"])
na("P20","Generated code means what the source program means",
 "For every valid program, the virtual-machine code produced by the compiler behaves as the language definition says.",
 "", ["libs/compiler/codegen.c","libs/compiler/builder.c","docs/Language.md"])
na("P21","The three targets agree",
 "For every valid program that all targets support, the virtual-machine, LLVM and MIPS outputs have the same observable behaviour.",
 "", ["libs/compiler/codegen.c","libs/compiler/llvmgen.c","libs/compiler/mipsgen.c"])
na("P22","Exactly the programs of the language are accepted",
 "Every program that the language definition allows compiles, and every program that it forbids is rejected with a message at the offending place.",
 "", ["libs/compiler/parser.c","libs/compiler/builder.c","libs/compiler/lexer.c"])
na("P23","Macro expansion follows the preprocessor's definition",
 "For every source text, directives and macro calls are expanded as the preprocessor's definition says, and positions in messages point to the original text.",
 "", ["libs/macro/parser.c","libs/macro/computer.c","libs/utils/locator.c"])
import os
with open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))),"properties.jsonl"),"w") as f:
    for d in sorted(P,key=lambda d:d["id"]): f.write(json.dumps(d,ensure_ascii=False)+"\n")
