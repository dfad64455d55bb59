NOT_APPLICABLE = []
NOTES = "Every check builds from /repo's working tree (content-hashed cache under /verif/build, ignored by git). Replay: python3 check.py <ID> quick --replay replays/<file>."
PROPS = [
 {"id": "C01",
  "title": "Pipelined, speculating CPU computes what sequential execution computes",
  "statement": "For every T86 program and every number of ALUs, reservation-station entries, RAM gates, registers and memory cells, running the program until HALT leaves the registers, float registers, flags, SP, BP, IP and memory, and produces the output, that executing its instructions one at a time in program order (as the ISA document describes them) gives. Register renaming, speculation past jumps, store-to-load forwarding and RAM latency are never observable, and a terminating program halts.",
  "quantifier": {"over": ["programs", "inputs", "configurations"], "text": "all programs whose executed instructions are specified by the ISA document, all initial data and input, all CPU sizes"},
  "why_tests_cant": "Hazards between in-flight instructions depend on the combination of program, operand values and CPU sizes; the tests run a few fixed programs on the default sizes.",
  "anchors": {"files": ["src/t86/cpu.cpp", "src/t86/cpu/reservation_station.cpp", "src/t86/cpu/register_allocation_table.cpp", "src/t86/cpu/memory_writes_manager.cpp", "src/t86/ram.cpp", "src/t86/instruction.cpp", "src/t86/cpu/branch_predictors/naive_branch_predictor.cpp"],
   "mechanism": [{"name": "register renaming and unrolling", "where": "src/t86/cpu/register_allocation_table.cpp, Cpu::unrollSpeculation"}, {"name": "store buffer", "where": "src/t86/cpu/memory_writes_manager.cpp"}, {"name": "in-order retirement", "where": "ReservationStation::executeAndRetire"}],
   "observe_at": ["Cpu::getRegister/getFloatRegister/getMemory after halted()", "std::cout"]},
  "_technique": "property-based differential testing of generated programs against an independent sequential ISA model",
  "_note": "Exploration: generated programs of up to 60 instructions on random CPU sizes. Trusts the reference model (lib/t86model.h). Unspecified operations (shift counts outside 1..63, NaN, out-of-range NRW, GETCHAR at end of input) are not executed."},
 {"id": "C02",
  "title": "Every instruction's result, flags and jump decisions follow the ISA",
  "statement": "For every instruction, operand form and 64-bit or floating-point operand values, the destination receives the mathematically prescribed result (wrapped to 64 bits) and the sign, zero, carry and overflow flags describe it; instructions that do not set flags leave them alone. Every conditional jump is taken exactly when its documented condition holds for those flags.",
  "quantifier": {"over": ["inputs", "configurations"], "text": "all operand values including boundary values, all operand forms, all prior flags, all 16 conditional jumps"},
  "why_tests_cant": "The value space is 2^128 per instruction and errors live at overflow, sign and carry boundaries that example tests do not sample.",
  "anchors": {"files": ["src/t86/cpu/alu.cpp", "src/t86/cpu/alu.h", "src/t86/instruction.cpp", "src/t86/instruction.h", "src/t86/instructions/operand.cpp"],
   "mechanism": [{"name": "ALU result and flag computation", "where": "src/t86/cpu/alu.cpp"}, {"name": "jump conditions", "where": "Alu::Flags users in src/t86/instruction.h"}],
   "observe_at": ["Cpu::getRegister/getFloatRegister/getMemory after halted()"]},
  "_technique": "property-based testing of single instructions over boundary-biased operands against an independent ISA model",
  "_note": "Exploration over boundary-biased random operands. Shift counts 1..63; NaN results compared only for being NaN; NRW inside the 64-bit range."},
 {"id": "C03",
  "title": "Execution errors are precise and never caused by speculation",
  "statement": "The machine reports an execution error exactly when the program really executes an instruction that accesses memory outside the RAM, names a register the machine does not have, or divides by zero (or overflows a signed division). At the error every earlier instruction has taken full effect, the faulting and later ones none, and the error is located at the faulting instruction; no program or speculated instruction crashes the machine.",
  "quantifier": {"over": ["programs", "inputs", "configurations"], "text": "all programs, including code that is only fetched speculatively, all CPU sizes"},
  "why_tests_cant": "Whether a wrong-path or in-flight instruction surfaces an error depends on timing and CPU sizes; tests have a handful of fixed faulting programs.",
  "anchors": {"files": ["src/t86/cpu/reservation_station.cpp", "src/t86/cpu.cpp", "src/t86/ram.cpp", "src/t86/os.cpp", "src/t86/cpu/alu.cpp"],
   "mechanism": [{"name": "deferred faults", "where": "ReservationStation::Entry::retire, Entry::readMemory"}, {"name": "run loop", "where": "OS::Run"}],
   "observe_at": ["exception from Cpu::tick", "return value of OS::Run", "CpuError debug event"]},
  "_technique": "property-based differential testing with injected faulting code against an independent ISA model",
  "_note": "Exploration: faults planted both in executed and in only-speculated code; state compared at the error."},
 {"id": "C04",
  "title": "The assembler accepts exactly the documented language, rejects the rest cleanly",
  "statement": "For every text, the executable reader either produces the program the text denotes - every instruction with its documented operands, every data number and string - or reports a parse error; a text that is not a valid executable (unknown instruction, operand form the instruction does not have, missing operand, number that does not fit, malformed string or bracket expression) is never accepted, a valid one is never refused, and no text crashes, hangs or silently truncates it.",
  "quantifier": {"over": ["inputs"], "text": "all byte strings: all instruction and operand-form combinations, mutations of valid executables, token soup and arbitrary bytes"},
  "why_tests_cant": "The language of instructions times operand forms, numbers and malformed variants is far larger than the listed test programs, and wrong acceptance is only visible on inputs nobody wrote.",
  "anchors": {"files": ["src/t86-parser/parser.cpp", "src/common/parsing.cpp", "src/common/parsing.h"],
   "mechanism": [{"name": "operand grammar", "where": "Parser::Operand, Parser::Memory"}, {"name": "lexer", "where": "Lexer::getNext, Lexer::ParseNumber, Lexer::ParseString"}],
   "observe_at": ["Parser::Parse result or ParserError"]},
  "_technique": "grammar-based generation and mutation fuzzing against an independent reader of the documented format",
  "_note": "Exploration: about a million texts per quick run, judged by lib/refasm.h. Points the documents leave open (registers such as RBP, LEA [R * i], non-ASCII bytes, lexical garbage in skipped sections, no text section) are only checked for not crashing."},
 {"id": "C05",
  "title": "Program text shown by the debugger assembles back to the same program",
  "statement": "Every instruction the debugger shows for a loaded program, in whatever operand form, is the instruction that was assembled, in valid assembly syntax: assembling the whole listing, or writing any of it back, yields a program with the same instructions and the same behaviour.",
  "quantifier": {"over": ["programs", "inputs"], "text": "all instructions in all operand forms with all immediates, floats included, and whole programs of them"},
  "why_tests_cant": "The round trip has to hold for each of the several hundred instruction/operand forms and for every value of their immediates.",
  "anchors": {"files": ["src/t86/instruction.h", "src/t86/instruction.cpp", "src/t86/instructions/operand.cpp", "src/t86/debug.cpp", "src/t86-parser/parser.cpp"],
   "mechanism": [{"name": "instruction printing", "where": "Instruction::toString, Operand::toString"}, {"name": "text commands", "where": "Debug::Work PEEKTEXT, POKETEXT"}],
   "observe_at": ["Native::ReadText", "Native::WriteText"]},
  "_technique": "round-trip property testing: assemble, show, reassemble, write back, run, against an independent reader and the ISA model",
  "_note": "Exploration over generated programs; each shown instruction is also read by the independent reader (lib/refasm.h) and compared with what was generated."},
 {"id": "C06",
  "title": "The layout of an executable does not change its meaning",
  "statement": "Whitespace, comments, optional addresses before instructions, the order and splitting of the text and data sections, and unrelated sections (debugging information, source code) around them never change which instructions and data an executable denotes. The data are loaded at memory address 0 onwards in order, strings being terminated by a zero, and the rest of the memory is zero.",
  "quantifier": {"over": ["inputs"], "text": "all layouts of all executables, including very long runs of whitespace and comments"},
  "why_tests_cant": "Layout variants are unbounded and combine; the test programs all use one tidy layout.",
  "anchors": {"files": ["src/t86-parser/parser.cpp", "src/common/parsing.cpp", "src/common/parsing.h", "src/t86/cpu.cpp", "src/t86/ram.cpp"],
   "mechanism": [{"name": "whitespace and comments", "where": "Lexer::getNext"}, {"name": "sections", "where": "Parser::Section, Parser::Data, Parser::Text"}],
   "observe_at": ["Parser::Parse result", "Cpu::getMemory after start"]},
  "_technique": "metamorphic property testing: the same program in two generated layouts must denote the same thing",
  "_note": "Exploration. Unrelated sections contain no stray dot; .debug_source is the last section as documented."},
 {"id": "C07",
  "title": "A debugged program behaves exactly as an undebugged one",
  "statement": "However a program is run under the debugger - through any history of setting, disabling, enabling, removing and hitting breakpoints and watchpoints, single steps, continues and inspections that write nothing - it computes the same registers, memory and output and ends the same way (finished or execution error) as it does when run alone. At every stop the debugger shows exactly the state sequential execution has at that point, and shows the program's own instructions rather than the breakpoints planted in them.",
  "quantifier": {"over": ["programs", "histories", "configurations"], "text": "all programs, all histories of non-modifying debugger commands, all CPU sizes"},
  "why_tests_cant": "Every command boundary interacts with in-flight speculative instructions; the tests replay a few scripted sessions on a few programs.",
  "anchors": {"files": ["src/debugger/Native.cpp", "src/debugger/T86Process.cpp", "src/t86/debug.cpp", "src/t86/cpu.cpp", "src/t86/os.cpp"],
   "mechanism": [{"name": "stop and resume of the pipeline", "where": "Cpu::unrollSpeculation, Cpu::tick, OS::Run"}, {"name": "breakpoint instruction patching", "where": "Native::CreateSoftwareBreakpoint, Native::StepOverBreakpoint"}],
   "observe_at": ["Native::GetRegisters/GetFloatRegisters/ReadMemory/ReadText", "debug events", "std::cout"]},
  "_technique": "model-based (stateful) property testing of debugger command histories against a reference debugger on the sequential ISA model",
  "_note": "Exploration: generated programs and histories of up to 30 commands over the in-process transport, everything shown compared after every stop. The program contains no BKPT of its own."},
 {"id": "C08",
  "title": "A single step executes exactly one instruction",
  "statement": "A single step taken at any stop executes exactly the one instruction at the instruction pointer - also when a breakpoint is on it, when it is a jump, call, return, when it is the last one, or when it faults - and reports what happened: a step, a watchpoint that it triggered, the end of the program, or an execution error. Afterwards execution can be continued freely: no later continue stops because of an earlier step.",
  "quantifier": {"over": ["programs", "histories", "configurations"], "text": "all programs, all positions of a step in a history of steps, continues, breakpoints and watchpoints"},
  "why_tests_cant": "The effect of a step depends on what is in flight, on where breakpoints are and on previous stops; tests step through a few fixed programs.",
  "anchors": {"files": ["src/debugger/Native.cpp", "src/t86/debug.cpp", "src/t86/cpu.cpp"],
   "mechanism": [{"name": "trap flag", "where": "Cpu::setTrapFlag, Cpu::unsetTrapFlag, Debug::Work"}, {"name": "stepping off a breakpoint", "where": "Native::StepOverBreakpoint"}],
   "observe_at": ["Native::PerformSingleStep", "Native::GetRegisters"]},
  "_technique": "model-based (stateful) property testing of debugger command histories against a reference debugger on the sequential ISA model",
  "_note": "As C07 with a step-heavy command mix."},
 {"id": "C09",
  "title": "Execution stops at every enabled breakpoint reached and only there",
  "statement": "A running program stops before executing an instruction with an enabled breakpoint, every time it reaches one, reports that address, and never stops for a disabled or removed breakpoint; continuing from a breakpoint executes the instruction under it. Setting, removing, enabling, disabling and replacing breakpoints in any order keeps the list of breakpoints accurate, refuses duplicates, unknown and out-of-text addresses, and never changes the program's instructions.",
  "quantifier": {"over": ["programs", "histories", "configurations"], "text": "all programs, all histories of breakpoint commands interleaved with execution"},
  "why_tests_cant": "The interplay of breakpoint state changes with the current position and speculation has unboundedly many histories; tests script a few.",
  "anchors": {"files": ["src/debugger/Native.cpp", "src/debugger/Native.h", "src/t86/debug.cpp"],
   "mechanism": [{"name": "breakpoint table", "where": "Native::SetBreakpoint, UnsetBreakpoint, EnableSoftwareBreakpoint, DisableSoftwareBreakpoint, SetAllBreakpoints"}, {"name": "continuing from a breakpoint", "where": "Native::ContinueExecution"}],
   "observe_at": ["Native::WaitForDebugEvent", "Native::GetBreakpoints", "Native::ReadText"]},
  "_technique": "model-based (stateful) property testing of debugger command histories against a reference debugger on the sequential ISA model",
  "_note": "As C07 with a breakpoint-heavy command mix. One open finding (text shown at a disabled breakpoint carried over a rerun), pinned by an existing test."},
 {"id": "C10",
  "title": "Every write to a watched cell stops the program right after it, no other does",
  "statement": "With up to four watchpoints set, the program stops immediately after each instruction that writes a watched memory cell - by MOV, PUSH, CALL or any other instruction, whether or not the value changes - and reports that address; writes to other cells, reads, speculated writes that never happen and removed watchpoints never stop it. A fifth or duplicate watchpoint and the removal of an unknown one are refused without effect, and removed watchpoints' slots can be used again.",
  "quantifier": {"over": ["programs", "histories", "configurations"], "text": "all programs, all histories of watchpoint commands interleaved with execution"},
  "why_tests_cant": "It depends on which writes retire when, and on the history of slots in use; tests have a couple of scripted watchpoints.",
  "anchors": {"files": ["src/debugger/Native.cpp", "src/debugger/Arch.h", "src/t86/cpu.cpp", "src/t86/debug.cpp"],
   "mechanism": [{"name": "debug registers", "where": "Arch::SetDebugRegister, Arch::ActivateDebugRegister, Arch::GetResponsibleRegister"}, {"name": "write check", "where": "Cpu::checkWrite"}],
   "observe_at": ["Native::WaitForDebugEvent", "Native::GetWatchpoints"]},
  "_technique": "model-based (stateful) property testing of debugger command histories against a reference debugger on the sequential ISA model",
  "_note": "As C07 with a watchpoint-heavy command mix on cells the program writes."},
 {"id": "C11",
  "title": "Step over and step out run calls to completion, recursion included",
  "statement": "Stepping over a call executes the whole call - nested and recursive calls included - and stops right after it in the same activation; stepping over anything else is a single step, and stepping out runs until the current function has returned to its caller. A breakpoint, watchpoint, execution error or end of program met on the way stops there and is reported as such, and neither command leaves a breakpoint behind or changes an existing one.",
  "quantifier": {"over": ["programs", "histories", "configurations"], "text": "all programs of functions with the documented frame convention, all histories mixing these commands with breakpoints and watchpoints"},
  "why_tests_cant": "The outcome depends on recursion depth, on breakpoints on the return address or in the callee and their state; tests step over a few calls.",
  "anchors": {"files": ["src/debugger/Native.cpp", "src/debugger/Arch.h"],
   "mechanism": [{"name": "temporary breakpoint on the return address", "where": "Native::PerformStepOver"}, {"name": "run until return", "where": "Native::PerformStepOut"}],
   "observe_at": ["Native::PerformStepOver/PerformStepOut", "Native::GetBreakpoints", "Native::GetRegisters"]},
  "_technique": "model-based (stateful) property testing of debugger command histories against a reference debugger on the sequential ISA model",
  "_note": "Generated call graphs with frames and recursion. Arrival on an enabled breakpoint may be reported as a step or a hit; a user breakpoint on the return address met deeper in the recursion is left unspecified."},
 {"id": "C12",
  "title": "What the debugger writes is what it reads back and what the program uses",
  "statement": "A register, float register, memory cell, instruction or instruction pointer written through the debugger reads back as written, changes nothing else, and is what the program uses from then on, even if an access to it was already in flight when the program stopped. Writes outside the memory or text, to unknown registers or of malformed instructions are refused without any effect.",
  "quantifier": {"over": ["programs", "inputs", "histories", "configurations"], "text": "all programs, all histories mixing writes with execution, breakpoints and reads, all values"},
  "why_tests_cant": "Stale values hide in the pipeline, in forwarding and under breakpoints only for particular positions of the write in the history.",
  "anchors": {"files": ["src/debugger/Native.cpp", "src/debugger/T86Process.cpp", "src/t86/debug.cpp", "src/t86/cpu.cpp", "src/t86/ram.cpp"],
   "mechanism": [{"name": "write commands", "where": "Debug::Work (POKE*), Cpu::setMemory, Cpu::setRegisterDebug, Cpu::setText"}, {"name": "text under breakpoints", "where": "Native::WriteText, Native::ReadText"}],
   "observe_at": ["Native::SetRegister/SetFloatRegister/SetMemory/WriteText and the matching reads"]},
  "_technique": "model-based (stateful) property testing of debugger command histories against a reference debugger on the sequential ISA model",
  "_note": "As C07 with a write-heavy command mix; values are boundary biased; NaN is not written."},
 {"id": "C13",
  "title": "Source-level stepping and line mapping agree with the debugging information",
  "statement": "With a line mapping loaded, a source step (into or over) executes machine steps until execution is at an address some line maps to - stepping over runs calls to completion - and stops earlier only at a breakpoint, watchpoint, execution error or the end of the program, which it reports. Translating a line or a function name to an address, an address to its line, and listing source lines gives exactly what the debugging information says, and anything not in it is refused.",
  "quantifier": {"over": ["programs", "inputs", "histories"], "text": "all programs, all line mappings (partial, shared and unordered ones included), all histories mixing source steps with other commands"},
  "why_tests_cant": "The outcome depends on how the mapping, calls, breakpoints and the stop position combine; the tests step through a few compiler outputs with complete mappings.",
  "anchors": {"files": ["src/debugger/Source/Source.cpp", "src/debugger/Source/LineMapping.cpp", "src/debugger/Source/SourceFile.h", "src/debugger/Source/Parser.cpp", "src/debugger/Native.cpp"],
   "mechanism": [{"name": "source step", "where": "Source::StepIn, Source::StepOver"}, {"name": "line mapping", "where": "LineMapping, Source::AddrToLine, Source::GetAddressFromString"}],
   "observe_at": ["Source::StepIn/StepOver", "Source::AddrToLine/LineToAddr/GetAddressFromString/GetLinesRange"]},
  "_technique": "model-based (stateful) property testing: generated debug info and source-step histories against a reference debugger on the sequential ISA model",
  "_note": "As C07 with generated line mappings in the documented text form and mostly source-level steps. An enabled breakpoint on an intermediate instruction ends the step there."},
 {"id": "C14",
  "title": "Names resolve to the function, scope and location in force at the position",
  "statement": "At every instruction pointer the debugger finds the function that contains it and exactly the variables whose scopes contain it, an inner declaration hiding an outer one of the same name. Each variable's location program is evaluated on the current registers and memory to the address or register it denotes; a malformed, undecidable or faulting location, an unknown name or one that is out of scope is refused and changes nothing.",
  "quantifier": {"over": ["inputs", "configurations"], "text": "all trees of functions, scopes and variables, all location programs, all positions and machine states"},
  "why_tests_cant": "Scope trees, overlapping names, location programs and positions combine freely; the tests hold a few hand-written trees.",
  "anchors": {"files": ["src/debugger/Source/Source.cpp", "src/debugger/Source/Expression.h", "src/debugger/Source/ExpressionInterpreter.cpp", "src/debugger/Source/LocExpr.h", "src/debugger/Source/Die.h"],
   "mechanism": [{"name": "scope lookup", "where": "Source::GetActiveVariables, Source::GetVariableDie, Source::GetFunctionNameByAddress"}, {"name": "location interpreter", "where": "expr::ExpressionInterpreter"}],
   "observe_at": ["Source::GetScopedVariables/GetVariableLocation/GetFunctionNameByAddress/GetFunctionAddrByName"]},
  "_technique": "property-based testing of generated scope trees and location programs against a reference interpreter",
  "_note": "Exploration against the reference in lib/exprref.h; the debug information is passed as text through the real parser, the machine state is set through the debugger."},
 {"id": "C15",
  "title": "Source-level expressions evaluate and assign as in the source language",
  "statement": "Evaluating an expression over variables, literals, earlier results and the documented operators gives the value and type the source language gives it on the current registers and memory - precedence, associativity, integer division, comparisons, pointer arithmetic, array, member and dereference access included. An assignment changes exactly the cells or register of its target to the converted value; an invalid expression, unknown name or type error is refused, and evaluating, refused or not, changes nothing else and never crashes.",
  "quantifier": {"over": ["inputs", "configurations"], "text": "all expressions over all generated types and variables, well-formed, ill-typed and malformed, all machine states"},
  "why_tests_cant": "Expressions combine operators, types and storage without bound; tests list some dozens.",
  "anchors": {"files": ["src/debugger/Source/Expression.cpp", "src/debugger/Source/ExpressionParser.cpp", "src/debugger/Source/Expression.h", "src/debugger/Source/Type.h", "src/debugger/Source/Source.cpp"],
   "mechanism": [{"name": "expression grammar", "where": "ExpressionParser"}, {"name": "evaluation", "where": "ExpressionEvaluator"}],
   "observe_at": ["Source::EvaluateExpression", "registers and memory of the debuggee"]},
  "_technique": "grammar-based property testing against a reference evaluator, with a whole-state frame check",
  "_note": "Exploration against lib/exprref.h. Shift counts 0..63; pointer differences of one-cell types; errors in the unevaluated side of && and ||, assignment to $n and char minus char are left unspecified."},
 {"id": "C16",
  "title": "Debug-info sections denote what they say; bad ones are rejected cleanly",
  "statement": "For every text of the .debug_line, .debug_info and .debug_source sections, the debugger either builds the line mapping, the tree of entries with their attributes and locations, the types and the source lines the text denotes, or reports a parse error; a text that is not valid is never accepted and none crashes or hangs the debugger. Types are shown, sized and laid out as described; missing or dangling type descriptions are reported when used.",
  "quantifier": {"over": ["inputs"], "text": "all generated debugging information, its layouts, its mutations and token soup"},
  "why_tests_cant": "The grammar of entries, attributes and locations and the space of malformed variants is unbounded; tests parse a few compiler outputs.",
  "anchors": {"files": ["src/debugger/Source/Parser.cpp", "src/debugger/Source/Die.h", "src/debugger/Source/Source.cpp", "src/debugger/Source/Type.h", "src/common/parsing.cpp"],
   "mechanism": [{"name": "debug section parser", "where": "dbg::Parser"}, {"name": "type reconstruction", "where": "Source::ReconstructTypeInformation"}],
   "observe_at": ["dbg::Parser::Parse", "Source::GetType/TypeToString/GetTypeSize"]},
  "_technique": "grammar-based generation, layout metamorphism and mutation fuzzing against an independent reader and an independent account of the types",
  "_note": "Exploration. Entries that are bare words (undocumented, ignored by the parser) are only checked for acceptance."},
 {"id": "C17",
  "title": "The transport delivers every message whole, once, in order, or reports failure",
  "statement": "For every sequence of messages of any content and length, and however the operating system splits or delays the bytes, each end of a debugging connection - over TCP or between threads - receives exactly the sent messages in order. A closed, refused, truncated or malformed connection is reported as such: no message is invented, lost silently, merged or cut, and neither end hangs or crashes.",
  "quantifier": {"over": ["inputs", "schedules", "histories"], "text": "all message sequences, all fragmentations and interleavings of the two directions, disconnection at any byte"},
  "why_tests_cant": "Fragmentation and the moment of disconnection are chosen by the system; the tests exchange a few short messages on a quiet loopback.",
  "anchors": {"files": ["src/common/TCP.h", "src/common/threads_messenger.h", "src/common/messenger.h", "src/debugger/T86Process.cpp", "src/debugger/Native.cpp"],
   "mechanism": [{"name": "length-prefixed framing", "where": "TCP::Send/Receive"}, {"name": "blocking queues", "where": "ThreadQueue"}],
   "observe_at": ["Messenger::Send/Receive", "Native::Initialize"]},
  "_technique": "property-based testing with a fault-injecting peer: generated message histories, fragmentations and disconnections",
  "_note": "Real sockets on the loopback; the peer is scripted at byte level. Schedules are those the generated delays and thread timing produce."},
{"id": "C18",
 "title": "The debugger's command line shows the true state and does what its commands say",
 "statement": "Over any command history - breakpoints, watchpoints, steps, continue, finish, disassemble, assemble, registers, memory, source, frame, print, run, attach, with abbreviations - dbg-cli prints exactly what the source-level debugger's state is, changes exactly what the command names, refuses bad commands with a message without changing anything, and never crashes or hangs.",
 "quantifier": {"over": ["programs", "inputs", "histories", "configurations"], "text": "all executables with and without debug sections, all command scripts of valid and invalid commands, all machine sizes given to run"},
 "why_tests_cant": "The CLI tests are a handful of fixed transcripts; wrong output, crashes and lost state show up in other orders, addresses, abbreviations and after refused commands.",
 "anchors": {"files": ["src/dbg-cli/CLI.h", "src/dbg-cli/main.cpp", "src/debugger/Native.cpp", "src/debugger/Source/Source.cpp"],
  "mechanism": [{"name": "command dispatch and handlers", "where": "Cli::HandleCommand and Cli::Handle*"}, {"name": "breakpoints carried over runs", "where": "Native::SetBreakpoints, Cli::HandleRun"}],
  "observe_at": ["stdout and stderr of the dbg-cli process", "exit status"]},
 "_technique": "model-based (stateful) property testing of the real dbg-cli process: generated scripts, whole transcript predicted by a reference debugger",
 "_note": "One process per script. Steps over calls are checked on programs whose functions keep frames and until the user rewrites code, stack or pointers. Several blanks inside strings, tabs between words and GETCHAR programs are not generated; refusals are compared as 'some message', not word by word."},
{"id": "C19",
 "title": "t86-cli runs an executable as written and refuses bad invocations and files",
 "statement": "`t86-cli FILE` with any accepted register counts and memory size prints exactly the output sequential execution of FILE gives - up to the faulting instruction if the program errs - and exits 0 after HALT. It refuses unknown options, bad option values, unreadable or malformed files and data larger than the memory with a message and a non-zero status, executing nothing. With --debug it waits for a debugger on its port and then behaves the same.",
 "quantifier": {"over": ["programs", "inputs", "configurations"], "text": "all executables, option combinations, standard inputs and damaged files"},
 "why_tests_cant": "Tests run t86-cli on a few samples with default options; option handling, sizes, bad files and failing programs are not covered.",
 "anchors": {"files": ["src/t86-cli/main.cpp", "src/t86/os.cpp", "src/t86-parser/parser.cpp"],
  "mechanism": [{"name": "options", "where": "main, utils CLI argument parsing"}, {"name": "execution and result", "where": "start_vm, OS::Run"}],
  "observe_at": ["stdout, stderr and exit status of the t86-cli process"]},
 "_technique": "property-based testing of the real t86-cli process with generated executables, options and damaged files against the sequential ISA model and the reference assembler",
 "_note": "One process per case; exit statuses are compared as zero/non-zero; the status after a program error is not claimed. Enormous --memory-size values (more than the host has) are not generated. --debug uses the fixed port 9110 under a lock."},
{"id": "C20",
  "title": "The debugging interface answers every request with the machine's true state",
  "statement": "A stopped VM answers every request of the documented debugging protocol - reads, pokes, reason, single step, continue, terminate - exactly once and in order, with the true architectural state or by effecting the change, reports the true reason of each stop, and answers unknown, malformed or out-of-range requests with an error, unchanged and still debuggable.",
  "quantifier": {"over": ["programs", "inputs", "histories", "configurations"], "text": "all programs and machine sizes, all sequences of well-formed and malformed requests at all stops"},
  "why_tests_cant": "Tests talk to the VM through the debugger's own well-formed requests in a few positions; other clients and orders are never tried.",
  "anchors": {"files": ["src/t86/debug.cpp", "src/t86/debug.h", "src/t86/os.cpp", "src/t86/cpu.cpp"],
   "mechanism": [{"name": "request loop", "where": "Debug::Work, Debug::OpenConnection"}, {"name": "stop reasons", "where": "OS::Run, Debug::DebugReason handling"}],
   "observe_at": ["replies on the debugging connection"]},
  "_technique": "model-based (stateful) property testing of raw protocol histories against a reference VM on the sequential ISA model",
  "_note": "Raw requests over the in-process messenger. REGCOUNT and DATASIZE (which report defaults, as an existing test expects) are not compared; lenient spellings the parser tolerates (POKEREGS X0, text after a POKETEXT instruction) are not generated."},
 {"id": "C21",
  "title": "Programs built and machines configured through the library are as asked for",
  "statement": "A program built with ProgramBuilder - instruction constructors, operands written with the register operators, labels, patched jumps, data - behaves as that sequence of instructions and data; labels name the instructions they were returned for; DBG and BREAK handlers see exactly the state at their point, once per execution, and are dropped in release builds (DBG). Cpu objects have the sizes configured by the documented options or given to the constructor, otherwise the documented defaults. The statistics count the ticks and the instructions really executed.",
  "quantifier": {"over": ["programs", "inputs", "configurations"], "text": "all programs expressible with the constructors, all spellings of an operand, all orders of adding and patching, all configurations"},
  "why_tests_cant": "The tests assemble text files only; no test builds a program with labels, handlers or configured sizes, and precise handler state depends on what is in flight.",
  "anchors": {"files": ["src/t86/program/programbuilder.h", "src/t86/program/helpers.cpp", "src/t86/cpu/register.cpp", "src/t86/instruction.h", "src/t86/cpu.cpp", "src/common/config.h", "src/t86/utils/stats_logger.cpp"],
   "mechanism": [{"name": "builder, labels, patching", "where": "ProgramBuilder::add/patch/addData"}, {"name": "configured sizes", "where": "Cpu::Config, Cpu constructors"}, {"name": "statistics", "where": "StatsLogger"}],
   "observe_at": ["Label values", "Cpu state in handlers and after halted()", "StatsLogger::processBasicStats/processDetailedStats"]},
  "_technique": "property-based differential testing of programs built through the library API against the sequential ISA model, with random spellings, handlers and configurations",
  "_note": "Exploration. Restrictions of C01; MOD and memory writes by handlers are not generated; averages in the statistics are not compared, only the counts."},
]
