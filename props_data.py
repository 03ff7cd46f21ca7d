# ---------------------------------------------------------------- front end
prop("C01", "Source operators lower to the operation the language defines",
     "Every unary, binary and comparison operator of the source language is compiled to the operation the language defines for it: integer operands use "
     "integer arithmetic, unsigned operands use the unsigned division, remainder, right shift and comparison, floating-point operands use floating-point "
     "arithmetic and comparison, and left and right operands keep their order. Combinations the language does not define are rejected with an error instead of "
     "being compiled to something else.",
     ["programs"], "for every operator and every operand type and signedness",
     "The suites contain fixed programs; an operator/type pair that no program exercises in a distinguishing way (unsigned shift, NaN comparison) can be wrong in every one of them.",
     ["cmmc/Frontend/EmitIR.cpp", "cmmc/Frontend/AST.hpp"], [("operator to instruction tables", "EmitContext::makeBinary / getBinaryOp / getCompareOp")],
     technique="conditional constant propagation over the operator tables (LLVM IR) compared with the language's table",
     note="Decides the operator-to-instruction mapping and operand order; the value of an instruction is C07/C16.")
prop("C02", "Control statements compile to the control flow the language defines",
     "if, while, do-while, for, switch, break, continue, return, the conditional operator and short-circuit && and || transfer control exactly as the language "
     "defines: which parts run, in which order, under which condition value, and where control goes afterwards, including empty bodies, fall-through between "
     "switch labels, a switch without default, and continue in each kind of loop.",
     ["programs"], "for every nesting of control statements",
     "Tests sample programs; unusual shapes (switch without default, continue in do-while, fall-through into default) are not in the suites.",
     ["cmmc/Frontend/EmitIR.cpp"], [("statement emission", "IfElseExpr::emit, WhileExpr::emit, DoWhileExpr::emit, ForExpr::emit, SwitchExpr::emit, CaseExpr::emit, ...")],
     technique="abstract interpretation of each statement's emission code to the control-flow graph it builds, compared with a reference graph",
     note="Decides the shape of the emitted graph for each statement in isolation; composition is by construction of the emitter (one current block).")
prop("C03", "Implicit and explicit conversions follow source signedness and width",
     "Converting a value to another type widens with sign extension when the source is signed and with zero extension when it is unsigned, narrows by "
     "truncation, converts between integer and floating point according to the signedness of the integer side, and converts a number to a truth value by comparing with zero.",
     ["programs"], "for every pair of source and destination type and qualifier",
     "Only the type pairs and values in the test programs are covered; wrong signedness shows only for negative or large values.",
     ["cmmc/Frontend/EmitIR.cpp"], [("conversion selection", "EmitContext::convertTo, calcImplicitTypeConversion")],
     technique="conditional constant propagation over the conversion code (LLVM IR) against the conversion table",
     note="Decides which conversion instruction is chosen per type pair and signedness.")
prop("C04", "Operator precedence, associativity and spelling follow the language",
     "In both accepted languages every operator has the precedence and associativity of C, each spelling denotes its own operator, statements nest as in C (an else belongs to the nearest if), the operands reach the operator in source order, and integer constants have the type C gives them.",
     ["programs", "inputs"], "for every pair of adjacent operators in every expression",
     "Expressions in the suites exercise few operator pairs, mostly with values that do not distinguish the groupings.",
     ["cmmc/Frontend/ParserSysY.yy", "cmmc/Frontend/ParserSpl.yy", "cmmc/Frontend/ScannerSysY.ll", "cmmc/Frontend/ScannerSpl.ll"],
     [("grammar", "LALR automaton bison builds"), ("scanner rules", "flex rules")],
     technique="simulation of the LALR automaton bison reports, with the trees its actions build, over token sequences, compared with a parser of C's grammar; evaluation of the flex rules; abstract interpretation of the literal actions",
     note="Exhaustive over pairs of operators and statement forms, triples across levels; assumes bison's XML report describes the parser it generates.")
prop("C05", "The compiler's exit status tells whether compilation succeeded",
     "When the compiler hits a syntax error, a semantic error, an unsupported input, an unreadable input file or an unwritable output file, it terminates with a non-zero exit status; "
     "it reports success only after the requested output has been produced.",
     ["inputs", "fault_sequences"], "for every erroneous input and I/O failure",
     "The suites feed valid programs and a few erroneous ones and never make output fail.",
     ["cmmc/Driver/CMMCDriver.cpp", "cmmc/Support/Diagnostics.cpp", "cmmc/Frontend/Driver.cpp"], [("fatal reporting", "DiagnosticsContext::reportFatal"), ("driver", "main/runIRPipeline")],
     technique="path exploration of the driver, the parsing functions and the error reporters over every outcome of what they call; typestate of the output streams; error productions of the grammars",
     note="Decides the driver, parse and reporting functions, the recording of lexical, syntax and semantic errors, the grammar's error productions and the opening and closing of files; not whether every wrong program is diagnosed.")
# ---------------------------------------------------------------- optimiser
prop("C06", "Algebraic simplifications keep the value of what they replace",
     "Whenever the peephole simplifier rewrites an expression (arithmetic, logic, comparison, selection or conversion, of any operand types, with any constants and on targets with or without the richer operations), "
     "the expression it builds has the value the original has for every value of the operands for which the original is defined, including results at the wrapping boundary, and floating-point "
     "expressions keep signed zeros, infinities and NaNs except where the fused multiply-add is deliberately formed.",
     ["inputs", "programs"], "for every rewriting rule, every constant and every operand value",
     "A rule is reached by few programs, with ordinary constants; minimum and maximum integers, shift amounts that add up beyond the width and NaNs are not in the suites.",
     ["cmmc/Transforms/Combine/ArithmeticReduce.cpp", "cmmc/Transforms/Combine/CombineFma.cpp"], [("rewriting rules", "ArithmeticReduce::runOnBlock, CombineFma::run")],
     technique="abstract interpretation of the rewriting function's IR, specialised per instruction-tree shape refined by demand; rewritten and original expression compared as terms at boundary valuations",
     note="Trees up to the bound on shapes per root (420 quick, 4000 thorough); constants symbolic per path with boundary values; term comparison at boundary valuations, not for all values.")
prop("C07", "Constant folding yields exactly the value the operation has",
     "When the optimiser replaces an operation on constant operands by a constant, that constant equals the result the operation has when executed, with the operation's type, "
     "for every integer and floating-point operation, comparison and conversion, and folding never crashes the compiler (division by zero or overflow in a division on the host).",
     ["inputs", "programs"], "for every foldable operation and all constant operands",
     "Folds are reached through whole programs with ordinary values; boundary operands (minimum integers, NaN, signed zero) do not occur.",
     ["cmmc/Transforms/Combine/ConstantPropagation.cpp"], [("fold callback", "ConstantPropagation::runOnBlock"), ("constants", "ConstantInteger, ConstantFloatingPoint, ConstantStrongEqual")],
     technique="conditional constant propagation per opcode; extracted result terms compared with the operation's definition at boundary valuations; the accessors and equality of constants interpreted over constants of every type",
     note="All foldable opcodes, extracted from the IR; term comparison at boundary valuations (29 integers, 15 floats squared), not for all values.")
prop("C08", "Optimisations that change the program say so",
     "Whenever an optimisation pass changes the program it reports that it did, so that cached analyses are recomputed and the result is re-verified before the next pass relies on them; no path "
     "through any pass changes the program and reports 'unchanged'.",
     ["programs", "histories"], "for every pass, every input program and every path through the pass",
     "A missed report only matters when a later pass reads the stale analysis; the suites run a fixed pipeline over fixed programs.",
     ["cmmc/Transforms/", "cmmc/IR/", "cmmc/Analysis/"], [("modified flag", "TransformPass::run results"), ("invalidation", "PassManager::run")],
     state=[("modified", "what run() returns", "each transform")],
     technique="path-sensitive dataflow (mutation effects versus returned flag) over the IR of every transform pass",
     note="Reports only definite mutation-then-false paths; data-dependent flags are left undecided and counted.",
     na="Whether a path of a pass changes the program and reports otherwise depends on data the pass computes (worklists, flags gathered across loops and callbacks); a static rule over mutation calls and the returned flag would raise alarms on passes that undo or never reach their changes, and no sound one was found. What the managers do with the reports is claimed as C26.")
prop("C09", "Instruction classification never hides an effect",
     "An instruction that writes memory, transfers control, calls a function with effects or may trap is never classified as freely removable, duplicable or speculatable, and the category predicates "
     "(terminator, memory, integer, floating-point, compare, conversion) agree with the instruction's kind for every instruction kind.",
     ["programs"], "for every instruction kind and every classifier",
     "A wrong entry shows only when an optimisation meets that instruction in a removable position.",
     ["cmmc/Transforms/Util/BlockUtil.cpp", "cmmc/IR/Instruction.cpp", "cmmc/IR/Instruction.hpp"], [("classifiers", "isNoSideEffectExpr, isMovableExpr, Instruction::isTerminator, canbeOperand, ...")],
     technique="conditional constant propagation: decision table of every classifier over the whole opcode enumeration against the instruction-set definition",
     note="Complete over the finite opcode enumeration.")
prop("C10", "Swapping or negating a comparison preserves its meaning",
     "Swapping the operands of a comparison together with its condition, and negating a condition, give for every pair of operands (including unordered floating-point operands) the same, respectively the "
     "opposite, truth value as before, in the optimiser and in every target's branch and condition rewriting.",
     ["inputs", "programs"], "for every condition and all operand pairs",
     "Unordered operands and unsigned boundary values are not in the suites, and most conditions are never swapped or negated by them.",
     ["cmmc/IR/Instruction.hpp", "cmmc/IR/Instruction.cpp", "cmmc/Target/"], [("tables", "getReversedOp, getInvertedOp, target branch inversion")],
     technique="conditional constant propagation: complete tables of the condition-rewriting functions against the conditions' truth sets over the orderings {<,=,>,unordered}",
     note="Complete: conditions are finite and depend only on the ordering of the operands.")
prop("C11", "Copies of an instruction behave like the original",
     "Cloning an instruction yields an instruction with the same operation, type, operands and every attribute that affects its behaviour, and two instructions are treated as interchangeable only if they agree on all of them.",
     ["programs"], "for every instruction kind and attribute",
     "A dropped attribute shows only if the copy is used where the attribute matters (inlined allocas, vector/scalar types, compare conditions).",
     ["cmmc/IR/Instruction.cpp", "cmmc/IR/Instruction.hpp"], [("clone", "*Inst::clone"), ("isEqual", "*Inst::isEqual")],
     technique="field-propagation analysis on LLVM IR: every field of each instruction class reaches the clone and the equality result",
     note="Covers all instruction classes; decides propagation and comparison of fields, not the meaning of equality under commutation.")
prop("C12", "Every pass a pipeline names exists and every registered pass is well-formed",
     "Every optimisation named by the compiler's pipelines is available under exactly that name, names are unique, and starting a compilation at any optimisation level for any target never fails for a missing pass.",
     ["configurations"], "for every optimisation level, target and host configuration",
     "Only the configurations the test driver uses are started.",
     ["cmmc/Transforms/TransformPass.cpp", "cmmc/Transforms/"], [("registry", "PassManager::get, CMMC_TRANSFORM_PASS")],
     technique="constant-string dataflow: names requested by pipelines versus names registered and returned by name()",
     note="Complete over the pass classes compiled into the build.")
# ---------------------------------------------------------------- interpreter
prop("C16", "The built-in interpreter executes each operation as defined",
     "Running a program in the built-in interpreter computes, for each arithmetic, logical, comparison, conversion and selection operation, the result the operation defines on its operands, reports "
     "division by zero as a simulation failure, and never crashes the host.",
     ["inputs", "programs"], "for every operation and all operand values",
     "The suites run ordinary programs; boundary operands (minimum integers divided by -1, unsigned operands, NaN) do not occur.",
     ["cmmc/ExecutionEngine/Interpreter.cpp"], [("opcode switch", "Interpreter::execute")],
     technique="conditional constant propagation of the interpreter loop per opcode; extracted result terms compared with the operation's definition at boundary valuations",
     note="All arithmetic, compare, cast and select opcodes; boundary valuations, not all values.")
prop("C17", "The interpreter rejects illegal memory accesses and enforces its limits",
     "During interpretation every access outside a live allocation, every exceeded time, memory or recursion limit and every division by zero ends the simulation with the matching failure instead of touching host memory or continuing.",
     ["inputs", "programs", "histories"], "for every simulated access and every limit",
     "Tests only run well-behaved programs within limits.",
     ["cmmc/ExecutionEngine/Interpreter.cpp"], [("bounds check", "MemoryContext load/store paths"), ("limits", "Interpreter::execute")],
     technique="dominance (must-check-before-use) analysis: every raw memory access and every step of the loop is dominated by the check that guards it",
     note="Decides presence and polarity of the guards on every path, not the accuracy of the bookkeeping they consult.",
     na="The guards consult an allocation map built during the simulation; that every access is inside a live allocation depends on those runtime contents. The scalar semantics of the interpreter is claimed through the constant folder it shares (C01, C07).")
# ---------------------------------------------------------------- back end
prop("C18", "Lowering an IR instruction to generic machine code keeps its meaning",
     "Lowering each IR instruction to generic machine instructions keeps its meaning for every operand value, on every target: arithmetic, comparisons, conversions, selects, loads and stores compute the same value on the same operands "
     "and type; address computations (element pointers over nested arrays, pointer additions) give base plus the scaled indices; a branch transfers control to the same successor and gives every phi of the successor the value "
     "it had on that edge (all phis change at once, also when they permute each other); a switch reaches the case block of the value and otherwise the default block; materialised constants have the value asked for.",
     ["programs"], "for every instruction, operand type, constant, phi pattern and switch shape",
     "Target code of few operations is executed in the suites, and not with distinguishing operands; cyclic phi copies and sparse switches are rare.",
     ["cmmc/CodeGen/Lowering.cpp", "cmmc/Support/Graph.cpp", "cmmc/Target/*/*ISelInfo.cpp"], [("lowering", "lower(...) overloads, emitBranch, lowerInst of each target, lowerIndirectJump, materializeFPConstant")],
     technique="abstract interpretation of the lowering functions per IR instruction (operands unknown; types, constants and phi patterns enumerated); meaning of the emitted generic instructions compared with the IR instruction",
     note="Phi patterns: all with up to 3 phis, selected ones (thorough: all) with 4. Switches: 11 label/range shapes. Calls and returns are C21's.")
prop("C19", "Machine instruction descriptions match the instruction set",
     "For every machine instruction of every supported target the description says truthfully which operands it reads and writes and whether it branches, calls, returns, loads, stores or has side effects, and the assembly "
     "text prints the mnemonic of that instruction with its operands in the instruction set's order; every register, immediate, condition, register list and symbol part prints as the assembler spells it; "
     "each opcode is answered with its own description, and reading or redirecting a branch reads or writes its printed target.",
     ["programs", "configurations"], "for every target and every instruction in its table",
     "The suites do not execute target code offline and use a small part of the tables.",
     ["cmmc/Target/RISCV/RISCV.yml", "cmmc/Target/MIPS/MIPS.yml", "cmmc/Target/ARM/ARM.yml", "cmmc/Target/Template/"], [("instruction tables", "<target>.yml and the generator")],
     technique="residual program of the generated description classes and printers (roles, flags, printed sequence, operand texts, opcode lookup, branch access) compared with an independent instruction-set table",
     note="Oracle written from the ISA manuals for the instructions present in the tables.")
prop("C20", "Immediates accepted by a target fit its encodings",
     "The verifier of a target accepts a machine instruction with an immediate operand only if the instruction's encoding can hold that immediate, and does not refuse immediates the encoding holds (a form reserved for non-zero or wide constants apart), so no emitted instruction has an out-of-range or silently truncated immediate.",
     ["inputs", "programs"], "for every immediate value and every immediate predicate of every target",
     "Values at the edges of the encodings do not occur in the suites.",
     ["cmmc/Target/RISCV/", "cmmc/Target/MIPS/", "cmmc/Target/ARM/"], [("predicates", "isOperandImm12, isSignedImm<N>, ..."), ("verifiers", "<Target>InstInfo*::verify, generated from <target>.yml")],
     technique="specialisation and abstract interpretation of every generated instruction verifier per immediate value, compared with the encodings' ranges",
     note="Immediates from a grid of some 600 values per operand including every encoding's edges; instructions outside the ISA models are undecided.")
prop("C21", "Calls preserve the registers the ABI says are preserved",
     "Each target's sets of callee-saved, argument, return and allocatable registers agree with its ABI: no register that a callee may overwrite is treated as preserved, reserved registers are never allocated, and the stack is kept aligned as required.",
     ["programs", "configurations"], "for every register of every target",
     "A wrong entry matters only for programs with enough live values across calls.",
     ["cmmc/Target/RISCV/", "cmmc/Target/MIPS/", "cmmc/Target/ARM/"], [("register info", "*FrameInfo::isCallerSaved/isCalleeSaved, *RegisterInfo::getAllocationList")],
     technique="conditional constant propagation: complete decision tables over the physical registers against the ABI's tables",
     note="Complete over the finite register sets.")
prop("C22", "Reversing a machine branch takes exactly the other cases",
     "When block placement or lowering reverses a conditional machine branch, the new branch is taken exactly when the old one was not, for every branch instruction of every target, and its probability is complemented.",
     ["programs"], "for every conditional branch instruction of every target",
     "Which branches get reversed depends on layout; few are in the suites and target code is not executed offline.",
     ["cmmc/Target/RISCV/", "cmmc/Target/MIPS/", "cmmc/Target/ARM/"], [("inversion", "*InstInfo::inverseBranch / getInvertedBranch")],
     technique="conditional constant propagation: complete inversion tables against the branch conditions' truth sets",
     note="Complete over the finite set of branch opcodes.")
prop("C23", "Emitted global data has the size and contents of its initialiser",
     "The data emitted for an initialised global variable has exactly the bytes of its initialiser in the target's byte order, with omitted trailing elements zero, whatever the element type and nesting.",
     ["programs"], "for every initialiser shape and element type",
     "Only 32-bit initialisers occur in the suites.",
     ["cmmc/CodeGen/Lowering.cpp", "cmmc/CodeGen/MIR.cpp"], [("expansion", "lowerToMachineModule expand"), ("printing", "MIRDataStorage::dump")],
     technique="conditional constant propagation of the initialiser expansion per element kind",
     note="Decides bytes emitted per scalar kind and the printing of each storage unit.",
     na="The bytes are produced by recursion over a runtime tree of constants; the generic lambda that expands it is not specialised by the analysis built here, and a check of the printing alone would not decide the property.")
# ---------------------------------------------------------------- instruction selection
for pid, tgt, d in (("C28", "RISC-V", "RISCV"), ("C29", "MIPS", "MIPS"), ("C30", "ARM", "ARM")):
    prop(pid, "%s instruction selection keeps the meaning of what it replaces" % tgt,
         "Whatever sequence of %s instructions the selector puts in place of a generic instruction, or of a generic instruction together with the definitions of its operands that it folds in, "
         "computes the same result, performs the same memory accesses and branches in the same cases for every operand value for which the replaced code has a meaning, and every instruction "
         "it emits can be encoded (immediates in range, operands of the right kind). A definition that may have other uses is not removed." % tgt,
         ["programs"], "for every generic instruction, operand kind, immediate value and register content, and every pair of instructions the selector fuses",
         "No %s machine is available to the suites, which compare text with stored snapshots or run a few programs; a pattern with a wrong guard or a wrong constant shows only for particular immediates, operand orders or values." % tgt,
         ["cmmc/Target/%s/" % d, "cmmc/CodeGen/ISelInfo.cpp"], [("selection", "%sISelInfo::matchAndSelect and the patterns in %s.yml" % (d, d))],
         technique="abstract interpretation of the selector specialised per instruction tree; emitted instructions compared with the ISA's semantics on a value grid",
         note="Complete over opcodes, operand kinds and fused trees up to the explored depth; immediates and register contents are taken from boundary grids; pre- and post-register-allocation expansion of pseudo instructions is not included.")
# ---------------------------------------------------------------- cross-cutting
prop("C25", "The same input always compiles to the same output",
     "Compiling the same source with the same options yields the same output on every run: no clock, random source, environment or thread timing influences the generated program.",
     ["schedules", "histories"], "for every pair of runs on the same input",
     "Tests run each program once and compare behaviour, not text.",
     ["cmmc/"], [("sources of nondeterminism", "clock, random, thread and environment calls")],
     technique="call-graph reachability: calls to nondeterministic sources against an allow-list of reporting-only uses",
     note="Decides explicit sources only; iteration order over pointer-keyed containers is not covered.",
     na="Iteration order over containers keyed by pointers and the wall-clock deadline of the pass iteration decide the output in ways that a source-level list of clocks and random sources does not settle.")
prop("C26", "Analyses never serve results from before a change",
     "After a pass reports a change, every cached analysis of the changed function or module is discarded before anything else runs, code that a pass left ill-formed is not passed on, a pass pipeline reports a change if and only if one of its passes did and runs its passes in order without leaving out one that has not run since the last change, and a cached analysis is the one asked for, of the function asked for.",
     ["histories", "programs"], "for every sequence of passes",
     "Stale results only matter for particular pass sequences on particular programs.",
     ["cmmc/Transforms/TransformPass.cpp", "cmmc/Analysis/AnalysisPass.cpp"], [("invalidation", "PassManager::run, IterationPassWrapper::run, FunctionPassWrapper::run"), ("cache", "AnalysisPassManager")],
     technique="path exploration of the pass managers over every outcome of their passes (typestate of the analyses); container operations of the cache",
     note="Decides the pass managers and the cache, given truthful pass results (C08); up to three passes, two functions, three rounds.")
prop("C27", "The runtime linked into compiled programs does what the optimiser assumes",
     "The runtime helpers that optimised programs call keep their contract: a parallel loop executes every iteration of its range exactly once, whatever the range and the number of workers, hands each worker its task before signalling it, and returns only after all of them have completed; no worker runs a task it was not signalled for or sleeps through a signal; a memoised call is answered only with a result computed for the same arguments; the sum of an arithmetic progression modulo a number and the atomic reductions compute that value.",
     ["schedules", "inputs", "histories"], "for every range, number of workers, schedule, sequence of nested memoised calls and operand values",
     "Tests never run the runtime (no target execution offline) and could not cover schedules or nested histories.",
     ["cmmc/Runtime/cmmc_sysy_rt.cpp"], [("parallel loops", "cmmcParallelFor, cmmcWorker, Futex"), ("memoisation", "cmmcCacheLookup"), ("arithmetic", "cmmcAddRec3SRem, cmmcReduceAddI32, cmmcReduceAddF32")],
     technique="abstract interpretation of the runtime's entry points: semaphore steps of every trace against an acquire/release protocol (typestate), ranges handed out against the range asked for, nested memo histories against the table",
     note="Schedules as the outcomes of compare-and-exchange; ranges and histories from a bounded grid; the memo table is used by one thread.")
prop("C31", "Integer ranges computed for values contain every value they can have",
     "Range arithmetic is sound: when two operands lie in their integer ranges, the result of every integer operation, union, intersection, minimum or maximum lies in the range computed for it, normalising a range loses no value, and every question a range answers (sign, constant value, known low bits, disjointness) is true of all its values.",
     ["inputs"], "for every pair of operand ranges and every value inside them",
     "Unit tests look at a handful of ranges; a range that is off by one value only matters for a program that reaches that value after a branch was removed on its account.",
     ["cmmc/Analysis/IntegerRange.cpp"], [("transfer functions", "IntegerRange::operator+ .. smin"), ("normalisation", "IntegerRange::sync, setSignedRange, setUnsignedRange, setKnownBits"), ("queries", "isNonNegative, inferConstant, inferSuffix, intersectWith")],
     technique="abstract interpretation of the transfer functions over boundary ranges; results compared with the operation's definition on the corner values of the operand ranges",
     note="Complete over the operations; ranges and the values inside them are taken from boundary grids. How the analysis uses the arithmetic on a program (contexts, loops) is N04.")
prop("C32", "Simplifications that rely on value ranges keep the value of what they replace",
     "When the optimiser removes a comparison, a remainder, an absolute value, a minimum or maximum, or turns an operation into another one, because of what it knows about the ranges of the operands (comparison with a value outside the range, remainder of a value below the divisor, unsigned remainder instead of the signed one, sums of remainders merged under one remainder, two bound checks merged into one unsigned comparison), the new expression has the value of the old one for all operands within those ranges.",
     ["inputs"], "for every expression, every sound range of its operands and every operand value inside them",
     "Tests sample a few constants; these rewrites only go wrong at the ends of a range, for negative dividends or when a sum leaves the range.",
     ["cmmc/Transforms/Combine/RangeAwareArithReduce.cpp", "cmmc/Transforms/Combine/ModuloOpt.cpp"], [("range-guarded reducer", "RangeAwareArithReduce::runOnBlock"), ("remainders", "ModuloOpt::mergeSum, ModuloOpt::srem2select")],
     technique="abstract interpretation of the reducers over instruction trees refined by what they ask, with one of a set of ranges behind every question to the range analysis; the rewritten expression is compared with the original for operands inside the ranges",
     note="Trees up to a bounded size, ranges from a grid of 25; loop-based remainder rewriting (foldAddRec2SRem, foldAddRec3SRem) is not looked at. That the ranges themselves are sound is C31.")
prop("C33", "Legalising machine instructions keeps what they compute",
     "When a back end rewrites an instruction it cannot emit as it stands - a select, conditional operation, maximum or minimum marked for legalisation, a wide constant, a copy or constant left after register allocation, an operand that names a stack object, a stack pointer adjustment, a move pair, a branch with a delay slot - the instructions it leaves compute the same result, store the same values at the same addresses and continue at the same place, every immediate in them can be encoded, no other register changes (the reserved scratch register apart), a value spilled to the stack comes back unchanged, and every instruction selection may leave for this step is accepted.",
     ["inputs"], "for every instruction legalised, every immediate and stack offset, and all operand values",
     "Snapshot tests pin a few expansions and never run them; boundary offsets, wide constants and aliased operands do not occur.",
     ["cmmc/Target/RISCV/RISCVISelInfo.cpp", "cmmc/Target/MIPS/MIPSISelInfo.cpp", "cmmc/Target/ARM/ARMISelInfo.cpp"],
     [("before allocation", "preRALegalizeInst"), ("after allocation", "postLegalizeInst, postLegalizeInstSeq"), ("stack operands", "legalizeInstWithStackOperand, adjustReg")],
     technique="abstract interpretation of the legalisation functions on one instruction at a time together with its instruction and block lists; the resulting code is compared with the instruction through an ISA-manual model on corner values",
     note="Immediates from a grid of 300 values, 28 stack offsets, corner values of registers, destination distinct from the sources; refusing (a reported error) is allowed for single operands, not for every form of an instruction.")
# ---------------------------------------------------------------- not applicable
NAW = ["programs", "inputs"]
prop("N01", "Optimised programs behave like the unoptimised ones",
     "For every valid program the optimised code produces the same output and exit value as the unoptimised code.", NAW, "for every program and input",
     "Tests sample programs.", ["cmmc/Transforms/"], [("all transforms", "cmmc/Transforms")],
     na="Whole-program semantic equivalence quantifies over runtime values and whole rewrites; no sound static argument in reach. The structural clauses are claimed separately (C07-C11, C26).")
prop("N02", "Register allocation never clobbers a live value",
     "After register allocation and spilling every use reads the value its definition produced.", NAW, "for every function and target", "Tests do not execute target code offline.",
     ["cmmc/CodeGen/"], [("allocators", "GraphColoringRegisterAllocation, FastRegisterAllocation")],
     na="Correctness of the allocation is a property of interference computed on runtime data structures; the code's shape does not decide it. Its static inputs (operand flags, ABI sets) are C19 and C21.")
prop("N03", "Instruction scheduling respects dependences",
     "Scheduling and peephole rewriting keep every data, memory and control dependence.", NAW, "for every block", "Tests do not execute target code offline.",
     ["cmmc/CodeGen/Scheduling.cpp"], [("scheduler", "preRASchedule/postRASchedule")],
     na="Depends on the dependence graph built from runtime data; only the operand and side-effect flags it consumes are statically decidable (C19).")
prop("N04", "Alias, dependence and program-level range facts are sound",
     "Every fact the analyses report about a program (ranges in a context, no-alias, loop dependences, trip counts) holds in every execution.", NAW, "for every program", "Unit tests sample ranges.",
     ["cmmc/Analysis/"], [("analyses", "IntegerRangeAnalysis, AliasAnalysis, SCEVAnalysis, PointerAddressSpaceAnalysis")],
     na="Facts about whole programs and their executions (loops, contexts, memory); no finite enumeration of the code decides them. The range arithmetic they rest on is claimed as C31.")
prop("N05", "Compilation terminates in bounded time and memory",
     "Every compilation terminates within bounded time and memory.", ["programs"], "for every program", "Tests have time limits only for their programs.",
     ["cmmc/"], [("fix-point drivers", "PassManager, IterationPassWrapper")],
     na="Termination of the fix-point drivers depends on each transform making progress on runtime data; not decidable from shape.")
prop("N06", "Loop parallelisation only parallelises independent iterations",
     "A loop is executed in parallel only if its iterations are independent.", NAW, "for every loop", "Race symptoms are schedule-dependent.",
     ["cmmc/Transforms/Loop/"], [("legality", "LoopParallel*")],
     na="Legality rests on the soundness of dependence analysis (N04).")
prop("N07", "Memoised functions return what they would have computed",
     "Caching the results of pure recursive functions never changes a program's output.", NAW, "for every call history", "Hash collisions are not sampled.",
     ["cmmc/Runtime/", "cmmc/Transforms/"], [("cache", "cmmcCacheLookup")],
     na="Correctness depends on key packing and hash collisions over runtime values.")
prop("N08", "Parsing accepts exactly the language and preserves the program's structure",
     "Exactly the programs of the language are accepted.", ["inputs"], "for every source text", "Tests sample programs.",
     ["cmmc/Frontend/"], [("grammar", "Parser*.yy")],
     na="There is no formal reference grammar to compare with; language equivalence is undecidable. The operator part is C04.")
prop("N09", "Optimisation never makes programs slower",
     "Higher optimisation levels give faster programs.", ["programs"], "for every program", "Timing.", ["cmmc/Transforms/"], [("cost models", "transforms")],
     na="A timing property.")
