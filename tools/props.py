PBT = "property-based testing"


def P(id, title, statement, over, qtext, why, files, mech, technique, note, state=None, observe=None, na=""):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state:
        a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe:
        a["observe_at"] = observe
    return dict(id=id, title=title, statement=statement, quantifier={"over": over, "text": qtext}, why_tests_cant=why, anchors=a,
                technique=technique, level_note=note, na=na)


PROPS = [
    P("C01", "The bounded cache is an exact LRU map for every operation history",
      "For every capacity (including one), key/value/hash type and every sequence of lookups, inserts, overwrites, get-or-inserts "
      "(including factories that throw) and clears, the cache returns exactly the last value stored for a key, or nothing if the key is not "
      "held. It never holds more than its capacity; adding a new key to a full cache removes exactly the key whose last lookup hit or "
      "insertion is oldest, and overwriting a held key changes its value only. A factory runs once on a miss and never on a hit, and if it throws, "
      "the cache is unchanged.",
      ["histories", "configurations"],
      "all operation sequences over all capacities >= 1, key, value and hash types (also colliding hashes)",
      "The unit tests drive 7 fixed sequences of at most 5 operations with capacities 2 and 32; recency order after mixed histories, wrap-around, "
      "colliding hashes and capacity one are never reached.",
      ["cpp/common/lru_cache.h"],
      [("doubly linked recency queue", "LruCache::Touch / GetNewHead"), ("index kept in step with the queue", "LruCache::InsertOrAssign"),
       ("re-initialisation", "LruCache::Clear")],
      PBT + ": model-based stateful testing against a recency-list model, with shrinking, under ASan/UBSan",
      "Random histories of up to 400 operations over 8 instantiations; every result, the final content and the eviction order are compared with "
      "the model. Trusts the model; no claim beyond the generated histories.",
      observe=["results of each operation", "final content", "eviction order"]),
    P("C02", "The bounded cache is linearizable and race-free under concurrent use",
      "When any number of threads use one cache concurrently, every completed history is equivalent to some sequential order of the "
      "operations that respects real time (a get-or-insert being a lookup followed, on a miss, by an insert). No operation ever returns "
      "a value of another key or a torn value, there are no data races, and afterwards the cache still behaves as a bounded LRU cache.",
      ["schedules", "histories"],
      "all interleavings of all concurrent operation sequences on a shared cache",
      "The existing tests are single-threaded.",
      ["cpp/common/lru_cache.h"],
      [("one mutex held by every operation, results copied before it is released", "LruCache::Get / InsertOrAssign / Clear")],
      PBT + ": generated concurrent histories with injected yields, exhaustive linearizability search, ThreadSanitizer",
      "Schedules are sampled (OS scheduling plus yields injected inside hashing, comparison and copying), not enumerated; ThreadSanitizer's "
      "happens-before analysis reports missing synchronisation even when the sampled schedule was benign.",
      observe=["invocation/response histories", "ThreadSanitizer reports"]),
    P("C03", "Content hashing depends on all of the content and on nothing else",
      "The hash of a fixed-width byte string is a function of its bytes only: equal contents hash equally wherever and however aligned they "
      "are stored. Every byte of the content, its position, and (for folds) the length and the seed contribute to the hash, also for widths that are not a "
      "multiple of the word size; hashing a range equals folding its elements one by one and may be split at any point.",
      ["inputs"], "all byte strings of all widths, all splits of a sequence, all seeds",
      "There is a benchmark only; no test compares hashes.",
      ["cpp/common/hash_utils.h"],
      [("word-wise then byte-wise consumption", "HashBytes::operator()"), ("order-dependent combination", "CombineHash / HashRange")],
      PBT + ": metamorphic relations (same content, bit flip, byte swap, split) and collision statistics over generated content",
      "Collisions are only excluded statistically on the generated content; a chance collision of the 64-bit hash has negligible probability.",
      observe=["hash values"]),
    P("C04", "The C++ opcode catalogue and the valid jump targets are exact",
      "Each of the 256 byte values is either exactly one named instruction of the EVM (up to Cancun) or unused, and its classification "
      "(used, call-like, host-served) and name match the instruction it denotes. For every code, a position is a valid jump target if and only if "
      "it holds the jump-destination byte and is not part of a push instruction's immediate data, including data truncated by the end of the code.",
      ["inputs", "programs"], "all byte values; all byte codes of any length",
      "No stable test touches this translation unit; the upstream tests jump in a few hand-written codes.",
      ["cpp/vm/evmzero/opcodes.cc", "cpp/vm/evmzero/opcodes.h", "cpp/vm/evmzero/opcodes.inc"],
      [("linear scan skipping immediates", "CalculateValidJumpTargets"), ("X-macro catalogue", "opcodes.inc")],
      PBT + ": generated codes against a definition-level oracle; byte values against an independent catalogue",
      "The 256 byte values are covered completely (probability of a miss < 1e-11); codes are sampled up to 600 bytes, rich in nested and truncated pushes.",
      observe=["target map", "classification functions"]),
    P("C05", "The Go opcode catalogue is exact and self-consistent",
      "Each byte value is printed by the name of the instruction it denotes (up to Cancun), or as op(0xNN) if it denotes none, and distinct bytes print "
      "differently. An instruction is valid iff it is named and is not the designated invalid instruction, its width is one plus its immediate data, "
      "stepping through any code by widths visits exactly the instruction starts, and the list of non-push instructions is complete and private to each caller.",
      ["inputs", "programs"], "all byte values, all byte codes, all uses of the returned list",
      "The tests compare the printer and the validity table with each other and match names against a pattern: a wrong name, constant, or width passes.",
      ["go/tosca/vm/opcodes.go"],
      [("name switch", "OpCode.String"), ("validity table", "IsValid / initValidOpCodes"), ("width", "OpCode.Width"), ("listing", "ValidOpCodesNoPush")],
      PBT + ": byte values and generated codes against an independent catalogue",
      "All byte values and most byte pairs are covered; codes are sampled.",
      observe=["String, IsValid, Width, ValidOpCodesNoPush and the constants"]),
    P("C06", "Coverage dumps report exactly what was executed",
      "In an instrumented build, triggering the dump at the end of an application writes, for every instrumented library loaded by then (linked or loaded at run "
      "time), execution counts equal to the calls made; repeated dumps change nothing and several runs accumulate. The reported "
      "instrumentation status always equals that of the build, and in a plain build the dump writes nothing.",
      ["histories", "configurations"], "all sequences of calls, library loads, status queries and dumps, in instrumented and plain builds, over several processes",
      "The one test checks that at least one data file appears in an instrumented build; counts, run-time loading, repetition, and plain builds are not looked at.",
      ["cpp/common/coverage/collect_coverage.c", "go/lib/cpp/coverage.go"],
      [("explicit gcov dump", "DumpCoverageData"), ("build flag query", "IsCoverageEnabled"), ("Go bridge", "DumpCppCoverageData")],
      PBT + ": generated call/load/dump scripts in driver processes; gcov's counts against the script",
      "Uses the installed GCC and gcov; dumps in the middle of an application's life are outside the documented use and not generated (only repetitions of the final dump are).",
      observe=["gcov JSON of the dumped data"]),
    P("T01", "Currency amounts follow 256-bit unsigned arithmetic",
      "Addition, subtraction and scaling of amounts are exact modulo 2^256, comparison is numeric, and decimal printing and the conversions to and from "
      "other integer types are exact for all values. Building an amount from up to four 64-bit words places them most significant first, and no conversion shares "
      "memory with the amount.",
      ["inputs"], "all pairs of 256-bit amounts, all scale factors and word tuples",
      "Tests use a handful of hand-picked amounts; carry and borrow propagation across all limbs is only sampled. They do not run in this sandbox's stable suite.",
      ["go/tosca/types.go"], [("limb-wise carry chain", "Add / Sub"), ("big-endian layout", "NewValue / getInternalUint64")],
      PBT + ": differential against arbitrary-precision arithmetic, algebraic laws",
      "The uint256 dependency is absent offline and replaced by a shim (trusted); limb patterns are generated explicitly.",
      observe=["results of the arithmetic and conversion functions"]),
    P("T02", "Text and JSON encodings of the public types round-trip and reject garbage",
      "Every address, amount, revision and call kind decodes from its own encoding to the same value; distinct values have distinct encodings. Arbitrary text is accepted exactly if it is a "
      "0x-prefixed hexadecimal string of the right length (or a known name), and a rejected text leaves the target untouched.",
      ["inputs"], "all values of the types, all texts",
      "Tests cover a few examples; they do not run in this sandbox's stable suite.",
      ["go/tosca/types.go", "go/tosca/revisions.go"], [("hex codec", "bytesToText / textToBytes"), ("enumeration codecs", "CallKind / Revision (Un)MarshalJSON")],
      PBT + ": round-trip and accept/reject oracle over generated and mutated texts",
      "Sampled values and texts; enumerations are covered completely.", observe=["encodings, decoded values, errors"]),
    P("T03", "Storage-change classification and word counts are exact",
      "For all original, current and new values of a storage slot, the change is classified by the published table (added, deleted, modified, restored, ... or "
      "assigned when the value does not change or no other row applies). The number of 32-byte words of a size is exact for all 64-bit sizes.",
      ["inputs"], "all value triples, all 64-bit sizes",
      "Tests use one representative per row; values differing in a single byte or bit and huge sizes are not covered. They do not run in this sandbox's stable suite.",
      ["go/tosca/utils.go", "go/tosca/world_state.go"], [("case analysis", "GetStorageStatus"), ("overflow-safe rounding", "SizeInWords")],
      PBT + ": generated triples against the table over symbolic patterns; arbitrary-precision rounding",
      "All 15 equality patterns are covered many times; concrete values are sampled.", observe=["classification, word count"]),
    P("T04", "Registries are case-insensitive, exclusive, and detached from their listings",
      "For every history of registrations and look-ups, a name (in any letter case) yields exactly the implementation registered first under it, a second or empty registration is refused "
      "without effect, and a request with an unknown name or too many configurations is an error. A listing is a complete snapshot whose editing affects nobody, and of "
      "concurrent registrations of one name exactly one succeeds.",
      ["histories", "schedules"], "all histories of registry operations, concurrent registrations of one name",
      "Tests register one or two fixed names; they do not run in this sandbox's stable suite.",
      ["go/tosca/interpreter_registry.go", "go/tosca/processor_registry.go"], [("lower-cased keys under a lock", "RegisterInterpreterFactory / GetInterpreterFactory"), ("cloned listing", "GetAllRegistered*")],
      PBT + ": stateful model-based testing against a map",
      "Histories of up to 25 operations over 5 names; concurrent registrations are sampled.", observe=["results and errors of registry operations"]),

    # ------------------------------------------------------------- interpreters
    P("V01", "Interpreters compute 256-bit arithmetic, comparisons and shifts exactly",
      "On all three interpreters (lfvm, also with super-instructions, evmzero, and evmrs), every arithmetic, comparison, bitwise and shift instruction yields, for all operands, the result defined by the EVM on 256-bit words: modulo 2^256, two's "
      "complement for the signed forms, zero for division or modulus by zero, full-width intermediate results for the three-operand forms, and sign fill or zero for oversized shifts and indices.",
      ["inputs", "programs"], "all operand values of all instructions of the group in all revisions",
      "The tests use a few hand-picked operands per instruction (and are outside the stable suite here); carries, limb boundaries and sign corner cases are not enumerable.",
      ["go/interpreter/lfvm/instructions.go", "go/interpreter/lfvm/super_instructions.go", "cpp/vm/evmzero/interpreter.cc", "cpp/vm/evmzero/uint256.h"],
      [("one function per instruction", "instructions.go / Impl<OpCode::*>"), ("word library", "uint256.h")],
      PBT + ": differential against an arbitrary-precision reference EVM over generated operands",
      "Sampled operands biased to boundaries. The external word libraries (uint256 of Go, intx of C++) are absent offline and replaced by shims checked against big integers, so their own code is not covered.",
      observe=["return data of programs that return their stack"]),
    P("V02", "Interpreters charge exactly the specified gas at every point",
      "For every program and every amount of gas, an execution ends with precisely the remaining gas and refund that the EVM of the selected revision specifies: it succeeds with exactly the gas it needs and fails, consuming everything and without any later effect, "
      "with one unit less. Gas is never created, costs never wrap around for any operand or amount up to the largest representable one.",
      ["programs", "inputs", "configurations"], "all programs, all revisions, all gas amounts",
      "Tests assert costs of single instructions for fixed operands; boundary amounts in the middle of arbitrary programs are out of reach.",
      ["go/interpreter/lfvm/gas.go", "go/interpreter/lfvm/interpreter.go", "go/interpreter/lfvm/memory.go", "cpp/vm/evmzero/interpreter.cc", "cpp/vm/evmzero/memory.h"],
      [("static and dynamic costs", "gas.go / OpInfo"), ("memory expansion", "Memory::GetMemoryExpansionCost"), ("63/64 rule and stipends", "call helpers")],
      PBT + ": differential against a reference EVM, gas chosen at boundaries derived from the reference's trace",
      "Programs and boundaries are sampled; the reference (written from the specification) is trusted.", observe=["success, gas left, refund, effects"]),
    P("V03", "Memory, copy and hash instructions see exactly the specified bytes",
      "Every memory byte read, returned, hashed, logged or passed to a call equals the byte the EVM's write history defines (zero if never written), copies between overlapping, out-of-range or empty ranges behave as if through a buffer with zero fill, and the "
      "reported memory size is the touched range rounded up to 32 bytes. Hashes equal Keccak-256 of the range whatever was hashed before; ranges too large to pay for fail.",
      ["programs", "inputs"], "all sequences of memory instructions with all offsets and sizes up to 2^256-1",
      "Tests cover single instructions with fixed small offsets.",
      ["go/interpreter/lfvm/memory.go", "go/interpreter/lfvm/instructions.go", "go/interpreter/lfvm/hash_cache.go", "cpp/vm/evmzero/memory.cc", "cpp/vm/evmzero/memory.h", "cpp/vm/evmzero/sha3_cache.h"],
      [("expansion", "Memory.expandMemory / Memory::Grow"), ("hash caches", "sha3HashCache / Sha3Cache")],
      PBT + ": differential against a reference EVM over memory-heavy programs", "Sampled programs; Keccak of the C++ side is linked from the shim (trusted), of lfvm from the repository.",
      observe=["return data, logs, call inputs, gas"]),
    P("V04", "Control flow reaches exactly the valid jump destinations",
      "A taken jump succeeds exactly if the full 256-bit destination is the position of a jump-destination instruction outside push data, continues there, and otherwise fails. Pushed immediates are exact (zero-extended at the end of the code), running off the end stops, "
      "and the program counter reports the position in the original code, for every code up to the maximum init-code size.",
      ["programs"], "all codes up to 49,152 bytes and all destinations",
      "Tests jump in short hand-written codes; translated code layouts, far targets, fused jump sequences and destinations beyond 64 bits are rarely hit.",
      ["go/interpreter/lfvm/converter.go", "go/interpreter/lfvm/instructions.go", "go/interpreter/lfvm/super_instructions.go", "cpp/vm/evmzero/interpreter.cc", "cpp/vm/evmzero/opcodes.cc"],
      [("translation preserving positions", "convert / parseInstruction"), ("jump validation", "checkJumpDest / CheckJumpDest")],
      PBT + ": differential against a reference EVM over generated jump structures and large codes",
      "Sampled; codes above 64K (which no revision admits on chain) differ on lfvm by documented design and are recorded as a known finding.", observe=["outcome, gas, return data"]),
    P("V05", "Stack instructions and stack limits are exact",
      "Pushes, duplications, swaps and pops (also when several are fused into one) leave exactly the specified stack. An instruction that would need more elements than present, or leave more than 1024, fails without effect, and one that just fits succeeds.",
      ["programs", "configurations"], "all instructions at all stack heights in all revisions",
      "Tests probe the limits for single instructions with uniform contents, partly by tables copied from the implementation.",
      ["go/interpreter/lfvm/stack.go", "go/interpreter/lfvm/stack_usage.go", "go/interpreter/lfvm/super_instructions.go", "cpp/vm/evmzero/stack.h", "cpp/vm/evmzero/interpreter.cc"],
      [("precomputed usage", "computeStackUsage / OpInfo"), ("fused instructions", "super_instructions.go")],
      PBT + ": differential against a reference EVM at and around the bounds", "All instructions at all offsets within 2 of either bound are covered repeatedly; other heights sampled.", observe=["outcome, return data"]),
    P("V06", "Persistent and transient storage access, gas and refunds follow the revision",
      "For all original, current and new values, warm or cold, loads return the current value, stores perform exactly the requested update once and nothing when they fail, and the charged gas, the sentry and the refund changes equal those of the selected revision "
      "(Istanbul through Cancun). Transient storage exists from Cancun on only and is neither refunded nor persisted.",
      ["programs", "configurations"], "all value patterns, access histories and revisions",
      "Tests enumerate single stores; histories of several accesses with warm-up and gas boundaries are sampled thinly.",
      ["go/interpreter/lfvm/instructions.go", "go/interpreter/lfvm/gas.go", "cpp/vm/evmzero/interpreter.cc", "go/interpreter/evmc/host_context.go"],
      [("storage gas table", "getDynamicCostsForSstore / Impl<SSTORE>"), ("warm/cold accounting", "AccessStorage")],
      PBT + ": differential against a reference EVM with a recording world", "Sampled histories; every equality pattern of (original, current, new) occurs many times.", observe=["world accesses, gas, refund"]),
    P("V07", "Logs are emitted exactly as specified",
      "Each executed log instruction emits exactly one record with the executing account, its topics in order and exactly the addressed memory bytes, in program order; none is emitted in static mode or by an instruction that fails, and its gas depends on size and topics as specified.",
      ["programs"], "all sequences of log instructions", "Tests emit single logs of fixed content.",
      ["go/interpreter/lfvm/instructions.go", "cpp/vm/evmzero/interpreter.cc", "go/interpreter/evmc/host_context.go"],
      [("log emission", "opLog / LogImpl"), ("bridge to the host", "EmitLog")],
      PBT + ": differential against a reference EVM with a recording world", "Sampled.", observe=["recorded logs, gas"]),
    P("V08", "Calls, creations and self-destructs pass the specified parameters and results",
      "Every call and creation hands the host the specified kind, sender, recipient, code address, input bytes, value, gas (63/64 rule, stipend, surcharges) and salt, and uses the answer as specified: success flag or address, returned bytes (also truncated), returned gas, refund. "
      "It is skipped where the specification says so (depth, balance, code size), and self-destruct names the right beneficiary once.",
      ["programs", "inputs"], "all parameters and all answers of the host", "Tests use mocks with a single fixed call and answer.",
      ["go/interpreter/lfvm/instructions.go", "cpp/vm/evmzero/interpreter.cc", "go/interpreter/evmc/host_context.go", "go/interpreter/evmc/evmc_interpreter.go"],
      [("call family", "genericCall / CallImpl"), ("creation", "genericCreate / CreateImpl"), ("bridge to the host", "host_context.go Call")],
      PBT + ": differential against a reference EVM with a recording, scripted world", "Sampled; answers include hostile lengths, gas and refunds.", observe=["recorded calls, return data buffer, memory, gas"]),
    P("V09", "Whole call trees behave like the reference EVM",
      "When every frame of a call tree (calls, delegations, static calls, creations, recursion up to the depth limit) is executed by the interpreter, the final world, the outermost result and all recorded effects equal those of the reference EVM: reverted frames leave no trace, "
      "return data buffers are per frame, and frames do not influence each other except through the world and their results.",
      ["programs", "histories"], "all call trees", "No test runs generated multi-contract transactions; the fixed examples use one contract.",
      ["go/interpreter/lfvm/interpreter.go", "go/interpreter/lfvm/stack.go", "cpp/vm/evmzero/evmzero.cc", "go/interpreter/evmc/host_context.go"],
      [("pooled stacks, memories", "NewStack / ReturnStack"), ("re-entrant execution through the host", "Run -> Call -> Run")],
      PBT + ": differential over generated contract systems executed recursively", "Sampled trees.", observe=["final world, result, events"]),
    P("V10", "A static execution changes nothing",
      "In a static context no storage or transient storage write, log, creation, self-destruct or value-carrying call ever reaches the host, whatever code runs, the attempt fails the frame with all its gas, and all nested calls are static too; calls without value stay possible.",
      ["programs"], "all programs executed in static mode", "Tests try each writing instruction once.",
      ["go/interpreter/lfvm/interpreter.go", "go/interpreter/lfvm/instructions.go", "cpp/vm/evmzero/interpreter.cc", "go/interpreter/evmc/host_context.go"],
      [("static flag checks", "isWriteInstruction / is_static_call"), ("propagation", "genericCall")],
      PBT + ": invariant over the recorded effects plus differential against a reference EVM", "Sampled.", observe=["recorded effects, outcome"]),
    P("V11", "Revisions gate instructions and rules exactly",
      "In each supported revision (Istanbul to Cancun) exactly the instructions introduced so far are executable, with the costs and rules of that revision, all other bytes fail the frame; a newer revision is refused with an unsupported-revision error naming it, without any effect.",
      ["configurations", "programs"], "all byte values in all revisions, all unknown revisions", "Tests probe the first revision before each introduction.",
      ["go/interpreter/lfvm/lfvm.go", "go/interpreter/lfvm/interpreter.go", "go/interpreter/evmc/evmc_interpreter.go", "cpp/vm/evmzero/interpreter.cc"],
      [("introduction checks", "introduced_in / revision guards"), ("upper bound", "newestSupportedRevision")],
      PBT + ": all byte values x revisions on generated stacks against a reference EVM", "All 256 x 6 combinations are covered many times.", observe=["outcome, gas, error"]),
    P("V12", "Environment instructions report the given transaction, block and state",
      "Instructions that read the environment (addresses, value, input, code, gas price, block fields, block hashes of the last 256 blocks only, balances, foreign code, blob data, return data) yield exactly the values provided by the caller or the world, with zero fill beyond the end, and failing only "
      "for reads beyond the return data.",
      ["inputs", "programs"], "all environments and all arguments", "Tests use one mocked environment per instruction.",
      ["go/interpreter/lfvm/instructions.go", "go/interpreter/evmc/host_context.go", "go/interpreter/evmc/evmc_interpreter.go", "cpp/vm/evmzero/interpreter.cc"],
      [("bridge of the parameters", "GetTxContext / Run"), ("readers", "instructions.go / Impl<OpCode::*>")],
      PBT + ": differential against a reference EVM over generated environments", "Sampled.", observe=["return data, recorded accesses"]),
    P("V13", "Any code in any environment ends with a well-formed result",
      "Whatever the code (also random bytes), input, gas and environment, execution terminates without an interpreter error or crash, and reports a success flag, output, remaining gas between zero and the provided gas, and refund as the EVM of the selected revision defines them; on a failure no gas, refund or output remains, on a revert gas and output do.",
      ["programs", "inputs"], "all byte strings as code", "The repository's fuzz tests need dependencies absent here and run only for seeds in CI.",
      ["go/interpreter/lfvm/interpreter.go", "go/interpreter/lfvm/converter.go", "cpp/vm/evmzero/interpreter.cc", "cpp/vm/evmzero/evmzero.cc", "go/interpreter/evmc/evmc_interpreter.go"],
      [("result construction", "generateResult / ToEvmcStatusCode")],
      PBT + ": random and structured code fuzzing with a differential oracle, assertions enabled in the C++ build", "Sampled.", observe=["result, error, panics, aborts"]),
    P("V14", "Results depend neither on configuration, caches, history nor concurrency",
      "Running the same code in the same environment yields the same result and effects on every configuration of an interpreter (super-instructions, hash and code caches, logging, statistics, profiling), whether or not a code hash is given, whatever ran before on the instance, and when many goroutines share the instance; results "
      "handed out earlier never change, and there are no data races.",
      ["configurations", "histories", "schedules"], "all run histories on all configurations, all interleavings of shared use",
      "Tests run configurations separately on fixed codes; no test shares an instance between goroutines with differing codes.",
      ["go/interpreter/lfvm/converter.go", "go/interpreter/lfvm/hash_cache.go", "go/interpreter/lfvm/stack.go", "cpp/vm/evmzero/evmzero.cc", "cpp/vm/evmzero/sha3_cache.h", "cpp/common/lru_cache.h"],
      [("code cache keyed by code hash", "Converter.Convert / contract_info_cache_"), ("hash caches", "sha3HashCache / Sha3Cache"), ("pooled stacks", "NewStack / ReturnStack")],
      PBT + ": metamorphic relation over configurations and run histories, concurrent histories under the race detector",
      "Histories and schedules are sampled; the race detector watches Go code only (the C++ cache itself is covered by C02). Profiling configurations are excluded from concurrent use.", observe=["results and effects, race reports"]),
    P("V15", "Logs, profiles and statistics report exactly what was executed",
      "The logging configurations print one line per executed instruction with its name, the gas left and the top of the stack before it; profiling and statistics count each executed instruction exactly once, accumulate over runs, start from zero after a reset, and observing never changes results. "
      "(On evmzero and evmrs a taken jump and its destination count as one step; lfvm's internal filler instructions are not EVM instructions.)",
      ["programs", "histories"], "all programs, all sequences of runs, resets and dumps", "Tests check that something is printed for one example.",
      ["go/interpreter/lfvm/instruction_logger.go", "go/interpreter/lfvm/instruction_statistics.go", "cpp/vm/evmzero/logger.h", "cpp/vm/evmzero/profiler.h", "go/interpreter/evmzero/evmzero.go"],
      [("observers", "Logger / Profiler / loggingRunner / statisticRunner")],
      PBT + ": generated runs compared with the step trace of the reference EVM", "Times are not checked beyond sanity.", observe=["printed logs and tables"]),
    P("V16", "The C++ interpreter is free of memory errors and data races",
      "For every code, input, gas, revision, configuration and history of runs, evmzero reads and writes only memory it owns, frees what it allocated exactly once, and never computes with undefined results (overflowing signed arithmetic, oversized shifts, indices out of bounds). "
      "Any number of threads running any programs on the same or different instances (other than those that profile) never race.",
      ["programs", "schedules"], "all programs, environments, configurations, numbers of threads and schedules", "Tests run single instructions in one thread, and without sanitizers in the usual build.",
      ["cpp/vm/evmzero/interpreter.cc", "cpp/vm/evmzero/interpreter.h", "cpp/vm/evmzero/evmzero.cc", "cpp/vm/evmzero/memory.h", "cpp/vm/evmzero/stack.h", "cpp/vm/evmzero/stack.cc", "cpp/vm/evmzero/sha3_cache.h", "cpp/common/lru_cache.h"],
      [("interpreter", "RunInterpreter"), ("vm", "VM::Execute"), ("stack", "Stack::Data::Get"), ("cache", "LruCache")],
      PBT + ": generated programs run under AddressSanitizer, UndefinedBehaviorSanitizer and ThreadSanitizer, and compared with the reference EVM", "Sampled programs and schedules; memory that was never initialized is not monitored.", observe=["sanitizer reports", "results"]),
    P("V17", "The building blocks of the C++ interpreter behave like plain ones",
      "For every history of operations, evmzero's memory behaves like a byte array that grows by whole words and keeps zeros in new parts, its stacks like independent lists although they share pooled storage (of which no more is retained than was in use at once), and its hash cache like the hash function. "
      "Conversions of 256-bit numbers are exact, and profiles count each observed instruction and outermost run once, also when merged, reset and printed.",
      ["histories", "inputs", "schedules"], "all histories of operations, keys and call trees", "Tests check single operations.",
      ["cpp/vm/evmzero/memory.h", "cpp/vm/evmzero/memory.cc", "cpp/vm/evmzero/stack.h", "cpp/vm/evmzero/stack.cc", "cpp/vm/evmzero/sha3_cache.h", "cpp/vm/evmzero/uint256.h", "cpp/vm/evmzero/profiler.h"],
      [("memory", "Memory"), ("stack", "Stack"), ("hash cache", "Sha3Cache::Hash"), ("profiles", "Profile, Profiler")],
      PBT + ": stateful model-based histories against plain models, under AddressSanitizer", "Sampled histories; measured times are checked for consistency of merging only."),
    P("S01", "CT 256-bit integers compute exactly and convert losslessly",
      "Every operation of the conformance-testing 256-bit integer (arithmetic, signed variants, shifts, comparisons, bit access, sign extension, modular arithmetic) equals mathematics modulo 2^256 with the EVM's conventions for zero divisors and signs. "
      "Conversions to and from bytes, text, big integers and the interpreters' amounts are lossless and reject what they cannot represent, and range sampling stays within its bounds and can reach all of them.",
      ["inputs"], "all 256-bit operands", "Tests check a few operands per operation.",
      ["go/ct/common/u256.go"], [("256-bit arithmetic", "U256 methods"), ("sampling", "RandU256Between")],
      PBT + ": differential against arbitrary-precision arithmetic", "Sampled operands; trusts the stand-in for the uint256 dependency, which is absent here."),
    P("S02", "CT state containers behave like plain maps, lists and byte arrays",
      "For every history of operations the conformance-testing containers (memory, stack, storage, transient storage, accounts, logs, call journal, code, self-destruct set) hold what a plain model holds: reads return the last write, unset entries read as zero, memory grows in words. "
      "Clones are equal and independent of their original, equality and difference reports agree with the observable content, and reuse of pooled objects leaks nothing.",
      ["histories"], "all operation histories", "Tests drive each container with single fixed operations.",
      ["go/ct/st/memory.go", "go/ct/st/stack.go", "go/ct/st/storage.go", "go/ct/st/accounts.go", "go/ct/st/transient_storage.go", "go/ct/st/code.go", "go/ct/st/call_journal.go", "go/ct/st/logs.go", "go/ct/common/immutable_hash_array.go", "go/ct/common/bytes.go"],
      [("copy-on-write and pooling", "Clone / NewStackWithSize / Release")],
      PBT + ": model-based stateful testing", "Random histories."),
    P("S03", "Copies of CT states are equal to their origin and independent of it",
      "For every state and every history of edits, specification steps, clones and releases, a clone is equal to its origin when made, and afterwards a change of one never shows in the other, in any part of the state. "
      "Releasing a state recycles its parts without affecting any other live state, and new states never show content of released ones.",
      ["histories"], "all histories over several live copies", "Tests clone one fixed state and change single fields.",
      ["go/ct/st/state.go", "go/ct/st/stack.go", "go/ct/st/accounts.go", "go/ct/st/storage.go", "go/ct/st/logs.go", "go/ct/st/call_journal.go", "go/ct/st/transaction_context.go", "go/ct/st/transient_storage.go", "go/ct/st/memory.go"],
      [("clone and release", "State.Clone / State.Release"), ("stack pool", "stackPool")],
      PBT + ": model-based stateful testing over several copies", "Random histories of up to 14 operations on up to four copies."),
    P("S04", "Equality and difference reports of CT states agree with their content",
      "Two running states are equal exactly if all observable parts and the internal execution state agree, positions beyond the code being equal; two ended ones if the observable parts and the result agree; failed states are always equal. "
      "Equality is reflexive and symmetric; unequal states always have a non-empty difference report covering each differing part, states with equal content have an empty one; comparing or printing changes nothing.",
      ["inputs"], "all pairs of states", "Tests change one field at a time to one fixed value.",
      ["go/ct/st/state.go", "go/ct/st/accounts.go", "go/ct/st/storage.go", "go/ct/st/logs.go", "go/ct/st/call_journal.go", "go/ct/st/block_context.go", "go/ct/st/call_context.go", "go/ct/st/transaction_context.go", "go/ct/common/immutable_hash_array.go"],
      [("equality", "State.Eq"), ("report", "State.Diff")],
      PBT + ": model-based, pairs of states related by edits", "Sampled pairs."),
    P("S05", "CT states survive export to and import from JSON",
      "Importing an exported state yields a state with the same content in every part, whatever its status, revision and sizes; exporting changes nothing, replaces an older file, and refuses an invalid status. "
      "The imported state is independent of the exported one; missing, truncated and unknown-field files are refused with an error, and no damaged file crashes the import.",
      ["inputs", "faults"], "all states; damaged files", "Tests export one fixed state.",
      ["go/ct/st/serialization.go", "go/ct/common/bytes.go", "go/ct/common/u256.go", "go/ct/common/immutable_hash_array.go", "go/tosca/revisions.go"],
      [("serialization", "ExportStateJSON / ImportStateJSON")],
      PBT + ": round trips and mutated files", "Sampled states; damage is one mutation per file."),
    P("S06", "Single-step targets execute exactly the requested instructions",
      "For every well-formed state, stepping the lfvm, evmzero or evmrs conformance-testing target by n instructions yields exactly the state the EVM defines after these instructions: status, program counter, gas, refund, stack, memory, storage, transient storage, accounts, logs, journals, return data. "
      "Ended states come back unchanged, and a revision above the newest supported one is refused with an error naming it.",
      ["inputs", "programs"], "all states and step counts", "The tests step a handful of hand-made states; the generated ones of the repository need dependencies absent here.",
      ["go/interpreter/lfvm/ct.go", "go/interpreter/evmzero/ct.go", "go/interpreter/evmc/evmc_steppable_interpreter.go", "go/ct/utils/adapter.go", "cpp/vm/evmzero/evmzero.cc"],
      [("state conversion", "convertCtStackToLfvmStack / StepN / genPcMap"), ("step interface", "steppable EVMC extension")],
      PBT + ": differential against a reference EVM over complete generated states", "Sampled states; lfvm may count its internal jump over padding as a step."),
    P("S07", "The conformance specification is complete and agrees with the EVM",
      "For every running state at an instruction of a known revision at least one rule applies, and every rule that applies turns the state into exactly the state the EVM defines after that instruction, so applicable rules never contradict each other. "
      "Ended states and positions inside immediate data have only rules without effect, an unknown revision fails, and looking up or checking rules changes nothing.",
      ["inputs"], "all states", "Tests sample states whose instruction and operands rarely match, and compare rules only with each other.",
      ["go/ct/spc/specification.go", "go/ct/spc/specification_map.go", "go/ct/rlz/conditions.go", "go/ct/rlz/expressions.go"],
      [("rules", "getAllRules"), ("lookup", "GetRulesFor")],
      PBT + ": differential against a reference EVM over complete generated states", "Sampled states; storage configurations that no transaction produces (cold but changed slots) are outside."),
    P("S08", "Conditions of the specification language mean what they say",
      "For every state and every condition (status, gas, program counter, operation, stack size, parameters, constants, balances, storage configuration, warmth, emptiness, blob hashes, block range, revisions, transient storage, conjunctions) checking tells whether the state has the stated property. "
      "Reading parameters below the stack, or operations inside immediate data, is an error, never an answer, and checking changes nothing.",
      ["inputs"], "all states and conditions", "Tests check each condition on one state that has the property and one that does not.",
      ["go/ct/rlz/conditions.go", "go/ct/rlz/expressions.go"], [("conditions", "Condition.Check"), ("expressions", "Expression.Eval")],
      PBT + ": differential against a plain model of states and conditions", "Sampled states and conditions."),
    P("S09", "Generated states satisfy the constraints they were generated from",
      "For every set of constraints on a CT state, generation either reports it unsatisfiable or gives a well-formed state satisfying every constraint, and constraints on different aspects of a state are never reported unsatisfiable. "
      "The same constraints and seed always give the same state; clones and restored generators are equal and independent.",
      ["inputs", "histories"], "all constraint sets and seeds", "Tests give each generator one or two constraints and one seed.",
      ["go/ct/gen/state.go", "go/ct/gen/variable.go", "go/ct/rlz/conditions.go", "go/ct/rlz/expressions.go"], [("state", "StateGenerator.Generate"), ("conditions", "Condition.Restrict"), ("expressions", "Expression.Restrict")],
      PBT + ": generated constraint sets, checked by the conditions and an independent well-formedness predicate", "Sampled constraint sets and seeds."),
    P("S10", "Test cases of CT rules cover the boundaries of their conditions",
      "For every rule, the enumerated test cases include every satisfiable combination of the values at and next to the boundaries of its conditions, each with the full cross product of the samples of its parameters. "
      "They are the same for the same seed, no more than announced, end when the consumer aborts, and errors are reported; every rule of the specification is satisfied by the states generated for it, and rules that apply to one state agree.",
      ["inputs"], "all rules and seeds", "Tests enumerate a few hand-written rules and count the cases.",
      ["go/ct/rlz/rules.go", "go/ct/rlz/test_value.go", "go/ct/rlz/domains.go", "go/ct/rlz/conditions.go", "go/ct/spc/specification.go"],
      [("rules", "Rule.EnumerateTestCases"), ("test_value", "enumerateTestCases"), ("domains", "Domain.Samples")],
      PBT + ": generated rules, coverage of independently derived boundary combinations", "Sampled rules and seeds."),
    P("S11", "Parallel enumeration processes each test state exactly once",
      "For every list of rules, seed and number of jobs, ForEachState passes the operation exactly the states which a sequential enumeration gives (in full mode, otherwise those which satisfy their rule), none shared with another operation. "
      "It ends soon after an operation aborts, reports errors of an enumeration, and its final progress report is the number of states processed.",
      ["schedules", "inputs"], "all rule lists, job numbers and schedules", "Tests use one rule and check counts.",
      ["go/ct/spc/enumeration.go", "go/ct/st/state.go"], [("enumeration", "ForEachState")],
      PBT + ": random parallel runs against a sequential enumeration, also under the race detector", "Sampled schedules: those the Go scheduler produces."),
    P("S12", "The conformance testing tool reports exactly the deviations",
      "The tool's run command reports an issue for, and exports, exactly those states of the selected rules' test cases in which the tested implementation deviates from the specification, reports an error, or crashes (up to the given maximum of errors; unsupported revisions are only counted), and exits with 0 if and only if there is none. "
      "Running exported states again as regressions shows the same deviations, random probing finds deviating, missing and contradicting rules, and test reports every contradiction of rules. "
      "Lists, statistics and generator information name each selected rule with its exact number of cases, for every filter, seed, and number of jobs.",
      ["inputs", "schedules", "faults"], "all rule selections, seeds, job numbers, and deviations of an implementation", "Tests cover the collection of statistics only.",
      ["go/ct/driver", "go/ct/driver/cli", "go/ct/spc/enumeration.go"], [("run", "doRun, runTest"), ("issues", "IssuesCollector"), ("regressions", "doRegressionTests"), ("test", "doTest")],
      PBT + ": the tool is run on generated rule selections and an implementation with generated deviations, which the harness predicts", "Sampled selections of small rules; the command line library is a stand-in."),
    P("P01", "Transactions are admitted and charged correctly",
      "The floria processor refuses, without any effect, a transaction whose nonce is not the sender's, whose sender has code or an exhausted nonce, or whose full gas costs (not modulo 2^256) exceed the sender's balance, or whose init code is too large. "
      "Every other transaction increments the sender's nonce by one (if it affords its intrinsic gas) and costs exactly the gas used times the price: at least the intrinsic gas, a tenth of what is left (unless internal), less refunds of at most half (London: a fifth) of the gas used on success. "
      "No other balance changes by fees, and with an access list the sender, recipient, precompiled contracts and listed entries are warm.",
      ["inputs", "histories"], "all transactions, chains and outcomes of their execution", "Tests mock single helper functions.",
      ["go/processor/floria/processor.go"], [("admission", "nonceCheck, eoaCheck, buyGas"), ("settling", "calculateGasLeft, refundGas")],
      PBT + ": histories of transactions against a model of the processor with a scripted interpreter", "Against stand-ins of go-ethereum's packages."),
    P("P02", "Unsuccessful calls leave no trace",
      "When a call or contract creation processed by floria is not successful (a revert, failure or interpreter error, refused code, a failing precompiled contract or state contract), all its effects, including transferred value, storage, logs, and new accounts, are undone, while those of the calls around it are kept. "
      "Only the creator's nonce and the warmth of the created address survive a failed creation.",
      ["inputs", "histories", "faults"], "all trees of calls and all ways in which they end", "Tests use a mocked state and a single call.",
      ["go/processor/floria/run_context.go"], [("rollback", "runContext.Call")],
      PBT + ": call trees with injected failures against a model", "Against stand-ins of go-ethereum's packages."),
    P("P03", "Contracts are created at the right place, by the rules",
      "A creation by floria increments the creator's nonce, fails if that is exhausted or the address (by sender and nonce, or by salt and init code) is occupied by a nonce or code, runs the init code with empty call data in an account with nonce one, and deploys what it returns for 200 gas per byte. "
      "Code that is too large, starts with 0xEF (London+), or cannot be paid is refused, consuming all gas. The created address is reported and is warm (Berlin+).",
      ["inputs", "histories"], "all creations, by transactions and by contracts", "Tests check the address computation only.",
      ["go/processor/floria/run_context.go"], [("creation", "runContext.Call, createAddress")],
      PBT + ": histories of creations with collisions and boundary code sizes and gas against a model", "Against stand-ins of go-ethereum's packages."),
    P("P04", "Nested calls run the right code in the right context",
      "For every kind of call, floria starts the interpreter with the code (and its hash) of the right account, the right recipient, sender, value, input, gas, depth and block and transaction parameters; static contexts are inherited; value moves from sender to recipient only for calls that transfer value. "
      "Precompiled contracts of the revision, also those selected by the code address, take the place of code and charge their price; calls of missing accounts succeed without running; chains of calls end at depth 1024.",
      ["inputs", "histories"], "all call trees, kinds and revisions", "Tests use a mocked state and a single call.",
      ["go/processor/floria/run_context.go", "go/processor/floria/precompiled.go"], [("calls", "runContext.Call, handlePrecompiledContract")],
      PBT + ": call trees against a model, comparing every start of the interpreter", "Against stand-ins of go-ethereum's packages."),
    P("P05", "The state contract serves only the network's driver, exactly",
      "Floria's state contract does nothing for callers other than the driver, in static contexts, and on malformed input, and otherwise sets the balance, copies or swaps code, sets the storage slot, or increments the nonce (by 1 to 255) as asked, for exactly its price. "
      "It refuses to change balance and nonce of the transaction's origin.",
      ["inputs", "histories"], "all callers, inputs and amounts of gas", "Tests check one input per method.",
      ["go/processor/floria/state_contract.go"], [("state contract", "handleStateContract")],
      PBT + ": calls of the state contract within transactions against a model", "Against stand-ins of go-ethereum's packages."),
    P("P06", "Transactions on real interpreters match the reference end to end",
      "For every history of transactions on contracts that call and create each other, floria on lfvm, on evmzero and on evmrs produces the receipts and the chain state which a reference processor on a reference interpreter produces.",
      ["inputs", "histories"], "all programs, chains and transactions", "No test executes a transaction on an interpreter without go-ethereum's state.",
      ["go/processor/floria", "go/interpreter/lfvm", "go/interpreter/evmzero", "go/interpreter/evmrs"], [("end to end", "processor.Run")],
      PBT + ": differential test of whole transactions", "Against stand-ins of go-ethereum's packages and of EVMC's Go binding."),
]

RUST = {
    "V01": ["interpreter.rs", "types/amount.rs"], "V02": ["interpreter.rs", "utils/gas.rs", "types/memory.rs"], "V03": ["interpreter.rs", "types/memory.rs", "types/hash_cache.rs"],
    "V04": ["interpreter.rs", "types/code_reader.rs", "types/code_analysis.rs", "types/op_fn_data.rs", "types/pc_map.rs"], "V05": ["interpreter.rs", "types/stack.rs"],
    "V06": ["interpreter.rs", "utils/gas.rs"], "V07": ["interpreter.rs", "types/execution_context.rs"], "V08": ["interpreter.rs", "utils/helpers.rs", "types/execution_context.rs"],
    "V09": ["interpreter.rs", "types/stack.rs", "types/memory.rs"], "V10": ["interpreter.rs", "utils/helpers.rs"], "V11": ["interpreter.rs", "utils/helpers.rs", "evmc.rs"],
    "V12": ["interpreter.rs", "types/tx_context.rs", "types/execution_context.rs"], "V13": ["interpreter.rs", "ffi/evmc_vm.rs", "types/status_code.rs"],
    "V14": ["types/cache.rs", "types/hash_cache.rs", "types/code_analysis.rs", "types/stack.rs", "types/memory.rs"], "V15": ["types/observer.rs", "evmc.rs"],
    "S06": ["ffi/steppable_evmc_vm.rs", "evmc.rs", "interpreter.rs"], "P06": ["ffi/evmc_vm.rs"],
}
for p in PROPS:
    if p["id"] in RUST:
        p["anchors"]["files"] = p["anchors"]["files"] + ["rust/src/" + f for f in RUST[p["id"]]]
        p["level_note"] += " evmrs is built with stand-ins for its absent crates, with its default features and, but for V15, S06 and P06, also with its performance features."
