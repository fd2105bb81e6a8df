"""Which generated-input checks decide which property, and with how many cases."""


def C(exe, check, quick, thorough, **kw):
    kw.setdefault("name", check)
    return dict(exe=exe, check=check, quick=quick, thorough=thorough, **kw)


ALL = ("r", "rp", "ri", "rj")


def VM(check, quick, thorough, zquick=None, lnames=None, znames=None, rs=("r", "rp"), **kw):
    """A check of the interpreters: on lfvm, on evmzero, and on builds of evmrs (its default features, and others; see builders.py)."""
    res = [C("vml", check, quick, thorough, name=check + "/lfvm", **kw), C("vmz", check, zquick or quick, thorough, name=check + "/evmzero", **kw)]
    for c, names in zip(res, (lnames, znames)):
        if names:
            c["env"] = {"VM_NAMES": names}
    for k, x in enumerate(rs):
        res.append(C("vm" + x, check, quick if k == 0 else max(1, quick // 2), thorough if k == 0 else max(1, thorough // 2),
                     name=check + "/evmrs" + {"r": "", "rp": "-performance", "ri": "-inline", "rj": "-jumptable"}[x], **kw))
    return res


PROPERTIES = {
    "C01": dict(
        rule="A case is a random operation sequence (lookup, insert-or-assign, get-or-insert, get-or-insert with a throwing factory, "
             "clear) against one of several capacities/key/value/hash instantiations, compared after every operation with a "
             "recency-list model; non-trivial: at least one eviction and one hit.",
        assumptions=["overwriting an existing key does not refresh its recency (the current, undocumented behaviour)"],
        components=[C("lru", "lru-model", 60000, 3000000)]),
    "C02": dict(
        rule="A case is a set of 2-6 per-thread operation sequences with yields injected from inside key hashing, key comparison, "
             "value copies and factories; short histories are checked for linearizability by exhaustive search, long ones for "
             "necessary conditions and for a consistent cache after quiescence, all under ThreadSanitizer; non-trivial: at least "
             "two operations of different threads overlapped.",
        assumptions=["schedules are sampled by the operating system plus injected yields, not enumerated"],
        components=[C("lru_threads", "lru-threads-short", 30000, 1500000, concurrent=True),
                    C("lru_threads", "lru-threads-long", 2500, 120000, concurrent=True)]),
    "C03": dict(
        rule="A case hashes generated byte strings of a generated width (1..67 bytes) and relates the results: equal content in "
             "different objects, surroundings and alignments; every single-bit flip and byte swap; splitting folds; "
             "2000-key structured families; non-trivial: fully random content or a non-empty fold or a key family.",
        components=[C("common", "hashing", 800000, 8000000), C("common", "hash-families", 8000, 60000)]),
    "C04": dict(
        rule="A case is either one byte value classified against an independent catalogue of the instruction set, or a generated "
             "code (rich in truncated and nested push immediates containing jump-destination bytes) whose valid jump targets are "
             "compared with an oracle derived from the definition; non-trivial: any byte value, or a code containing the "
             "jump-destination byte both as an instruction and as immediate data.",
        components=[C("common", "opcode-byte", 8000, 8000), C("common", "jump-targets", 2000000, 6000000)]),
    "C05": dict(
        rule="A case is a pair of byte values checked against an independent catalogue (name, validity, width, listing, constant), "
             "or a random code walked by instruction width and compared with a byte-by-byte scan; non-trivial: any byte pair, or a "
             "code with immediate data.",
        components=[C("tosca", "go-opcodes", 4000000, 20000000), C("tosca", "go-code-walk", 3000000, 60000000)]),
    "C06": dict(
        rule="A case is a script of calls into two instrumented (or plain) libraries, one linked and one loaded at run time, over 1-3 "
             "processes ending with or without a dump; the execution counts gcov reports are compared with the calls made; "
             "non-trivial: at least one call and one dump.",
        assumptions=["GCC/gcov of this sandbox", "the dump is triggered at the end of the application, as documented"],
        components=[C("cov", "coverage-dump", 5000, 20000)]),
    "T01": dict(
        rule="A case is a pair of 256-bit amounts (biased to limb, carry and sign boundaries), a 64-bit scale factor and 0-4 "
             "construction words, compared with arbitrary-precision arithmetic and algebraic laws; every case is non-trivial.",
        components=[C("tosca", "value-arith", 4000000, 20000000)]),
    "T02": dict(
        rule="A case encodes and decodes an amount, address, revision or call kind, or decodes arbitrary (near-valid) text; compared "
             "with an independent codec; non-trivial: every decoded or encoded value.",
        components=[C("tosca", "encodings", 6000000, 20000000)]),
    "T03": dict(
        rule="A case is a triple (original, current, new) drawn from a pool with near-equal values and classified against the "
             "published status table, or a byte size rounded to words with arbitrary precision; every case is non-trivial.",
        components=[C("tosca", "storage-status", 3000000, 10000000), C("tosca", "size-in-words", 2000000, 10000000)]),
    "T04": dict(
        rule="A case is a history of registrations, look-ups, creations and listings under random letter case, incl. concurrent "
             "registrations of one name, against a map model; non-trivial: a duplicate registration was attempted.",
        components=[C("tosca", "registry", 6000, 24000), C("tosca", "proc-registry", 6000, 24000)]),
    "V01": dict(
        rule="A case is a program of 1-6 arithmetic, comparison, bit or shift instructions (every opcode of the group equally often) on operands biased to "
             "limb, sign, carry and size boundaries, whose whole stack is returned and compared with arbitrary-precision arithmetic, in every revision; every case is non-trivial.",
        components=VM("vm-arith", 180000, 20000000, 250000)),
    "V02": dict(
        rule="A case is a generated program with ample gas, exactly the gas the reference consumes, one less, or an amount placed at, just above or just below the cost "
             "of one of its steps or of a threshold (stipends, sentries, 63/64); outcome, remaining gas, refund and effects are compared with the reference; non-trivial: a boundary amount and more than 3 steps.",
        components=VM("vm-gas", 130000, 20000000)),
    "V03": dict(
        rule="A case is a program emphasising memory reads, writes, copies (overlapping, empty, out of range, huge offsets), hashing and the accounted size; "
             "non-trivial: at least 2 memory-touching instructions executed.",
        components=VM("vm-memory", 140000, 20000000)),
    "V04": dict(
        rule="A case is a program rich in computed, conditional and fused jumps, jump-destination bytes in push data, truncated pushes and loops (vm-flow), or a code of up to "
             "70,000 bytes with far targets (vm-large); non-trivial: a jump was executed, respectively code beyond offset 5000 was reached.",
        components=VM("vm-flow", 120000, 15000000, rs=ALL) + VM("vm-large", 16000, 1500000)),
    "V05": dict(
        rule="A case is a program of pushes, duplications, swaps and pops incl. the sequences that super-instructions fuse (vm-stack-ops), or one instruction executed with the stack within "
             "two elements of its lower or upper bound (vm-stack-limits); non-trivial: 3 stack operations, respectively every case.",
        components=VM("vm-stack-ops", 130000, 15000000, rs=ALL) + VM("vm-stack-limits", 70000, 8000000)),
    "V06": dict(
        rule="A case is a program of loads and stores on slots whose original, current and new values are generated over all equality patterns, warm and cold, in all revisions, static or not; "
             "the recorded accesses, the refund and the gas are compared with the reference; non-trivial: at least 2 storage or log instructions executed.",
        components=VM("vm-storage", 150000, 20000000)),
    "V07": dict(
        rule="A case is a program emitting logs with 0-4 topics from overlapping, empty and growing memory ranges; the recorded logs are compared; non-trivial: a log instruction executed.",
        components=VM("vm-logs", 140000, 15000000)),
    "V08": dict(
        rule="A case is a program of calls, creations and self-destructs towards warm, cold, empty, rich and poor accounts with generated gas limits, values, argument and result windows, answered by scripted "
             "results of any length, gas and refund, incl. hosts that change the world during the call; non-trivial: at least one call reached the host.",
        components=VM("vm-calls", 150000, 20000000)),
    "V09": dict(
        rule="A case is a tree of generated contracts in one world, where every frame is executed by the interpreter under test (or by the reference), incl. recursion down to depth 1024, rollback and gas starvation; "
             "non-trivial: at least one nested frame ran.",
        components=VM("vm-nested", 26000, 3000000)),
    "V10": dict(
        rule="A case is a program (or call tree) with attempts to write executed in static mode; no effect may be recorded, every nested call must be static, and the outcome equals the reference; "
             "non-trivial: an instruction that may write was reached.",
        components=VM("vm-static", 130000, 15000000)),
    "V11": dict(
        rule="A case executes one byte value as an instruction in one of the 6 revisions on a generated stack, or any program in a revision newer than Cancun; non-trivial: every case.",
        components=VM("vm-revisions", 130000, 12000000)),
    "V12": dict(
        rule="A case is a program reading the transaction, block, account, code, input and return-data environment with in-range, boundary and huge arguments; non-trivial: at least 2 environment instructions executed.",
        components=VM("vm-env", 160000, 20000000)),
    "V13": dict(
        rule="A case is an unstructured or mutated code (vm-robust) or a program of all kinds of instructions (vm-mixed) in a generated environment, compared with the reference; non-trivial: more than 2 (10) steps executed.",
        components=VM("vm-robust", 200000, 20000000) + VM("vm-mixed", 60000, 10000000, rs=ALL)),
    "V14": dict(
        rule="A case is a schedule of repeated runs of 2-5 programs (also one code under several environments, with or without its hash) on every configuration of the interpreter (vm-variants), or on 2-6 goroutines sharing an instance "
             "(vm-parallel; on lfvm also under the Go race detector). Churn cases hash, respectively run, more different contents than the caches hold, on one or several goroutines, and revisit earlier ones; non-trivial: every case.",
        assumptions=["a code hash passed along with a code is the hash of that code", "the profiling configurations are not meant for concurrent use"],
        components=VM("vm-variants", 9000, 900000,
                      lnames="lfvm,lfvm-si,lfvm-no-sha-cache,lfvm-no-code-cache,lfvm-si-no-sha-cache,lfvm-stats,lfvm-logging",
                      znames="evmzero,evmzero-no-analysis-cache,evmzero-no-sha3-cache,evmzero-profiling,evmzero-profiling-external", rs=ALL)
        + [C("vmlr", "vm-parallel", 1200, 60000, name="vm-parallel/lfvm-race", concurrent=True,
             env={"VM_NAMES": "lfvm,lfvm-si,lfvm-no-sha-cache,lfvm-no-code-cache,lfvm-stats"}),
           C("vmz", "vm-parallel", 4000, 400000, name="vm-parallel/evmzero", concurrent=True,
             env={"VM_NAMES": "evmzero,evmzero-no-analysis-cache,evmzero-no-sha3-cache"}),
           C("vml", "vm-hash-churn", 24, 2400, name="vm-hash-churn/lfvm", concurrent=True, env={"VM_NAMES": "lfvm"}),
           C("vmz", "vm-hash-churn", 32, 3200, name="vm-hash-churn/evmzero", concurrent=True, env={"VM_NAMES": "evmzero"}),
           C("vmlr", "vm-hash-idle", 16, 800, name="vm-hash-idle/lfvm-race", concurrent=True, env={"VM_NAMES": "lfvm"}),
           C("vmlr", "vm-hash-churn", 8, 800, name="vm-hash-churn/lfvm-race", concurrent=True, env={"VM_NAMES": "lfvm"})]
        + [C("vmrp", "vm-parallel", 4000, 400000, name="vm-parallel/evmrs-performance", concurrent=True, env={"VM_NAMES": "evmrs"}),
           C("vmri", "vm-parallel", 4000, 400000, name="vm-parallel/evmrs-inline", concurrent=True, env={"VM_NAMES": "evmrs"}),
           C("vmrp", "vm-hash-churn", 32, 3200, name="vm-hash-churn/evmrs-performance", concurrent=True, env={"VM_NAMES": "evmrs"}),
           C("vmri", "vm-hash-churn", 32, 3200, name="vm-hash-churn/evmrs-inline", concurrent=True, env={"VM_NAMES": "evmrs"})]
        + VM("vm-code-churn", 24, 2400, lnames="lfvm", znames="evmzero", rs=("rp",))),
    "V15": dict(
        rule="A case is 1-4 runs of generated programs on an observing configuration, with resets in between; the log lines, instruction counts and statistics are compared with the steps of the reference; "
             "non-trivial: more than 20 steps.",
        components=VM("vm-observe", 16000, 1500000, lnames="lfvm-logging,lfvm-no-sha-cache-logging,lfvm-stats",
                      znames="evmzero-logging,evmzero-profiling,evmzero-profiling-external", rs=())
        + [C("vmr", "vm-observe", 16000, 1500000, name="vm-observe/evmrs", env={"VM_NAMES": "evmrs-logging"})]),
    "V16": dict(
        rule="A case is a generated program run on evmzero with AddressSanitizer and parts of UndefinedBehaviorSanitizer (in all its configurations for vm-variants), and compared with the reference as in the property the family belongs to; "
             "or one of 2-6 goroutines running 2-5 programs on shared instances of evmzero under ThreadSanitizer; non-trivial: as for that family.",
        assumptions=["pointers that are formed but not used, and null pointers given along with the length zero, are not errors", "the profiling configurations are not meant for concurrent use"],
        components=[C("vmza", "vm-mixed", 36000, 2500000), C("vmza", "vm-memory", 40000, 2500000), C("vmza", "vm-calls", 40000, 2500000), C("vmza", "vm-robust", 60000, 3000000),
                    C("vmza", "vm-stack-limits", 5000, 500000), C("vmza", "vm-flow", 5000, 500000), C("vmza", "vm-large", 2000, 200000), C("vmza", "vm-nested", 2500, 200000),
                    C("vmza", "vm-variants", 240, 30000, env={"VM_NAMES": "evmzero,evmzero-no-analysis-cache,evmzero-no-sha3-cache,evmzero-profiling,evmzero-profiling-external,evmzero-logging"}),
                    C("vmzt", "vm-parallel", 6000, 800000, name="vm-parallel/race", concurrent=True, env={"VM_NAMES": "evmzero,evmzero-no-analysis-cache,evmzero-no-sha3-cache"})]),
    "V17": dict(
        rule="A case is a history of operations on up to four memories or five stacks (created, filled, copied, assigned, dropped), compared with plain byte arrays and lists after every operation; threads that use stacks at once and again; "
             "keys looked up repeatedly in hash caches, one of which survives the cases; a 256-bit number in all its representations; or profiles of generated call trees, merged, reset and printed; "
             "all under AddressSanitizer; non-trivial: more than one operation had an effect, a key was repeated, respectively a profile was recorded.",
        components=[C("parts", "memory-model", 500000, 8000000), C("parts", "stack-model", 400000, 8000000), C("parts", "stack-pool", 20000, 300000, concurrent=True), C("parts", "hash-cache", 60000, 1000000),
                    C("parts", "conversions", 200000, 20000000), C("parts", "profiles", 50000, 1000000)]),
    "S01": dict(
        rule="A case is a group of 256-bit operands biased to limb, sign and carry boundaries (and a random source for ranges) given to every operation of the type, compared with arbitrary-precision arithmetic; "
             "or a text/byte encoding decoded and encoded; every case is non-trivial.",
        components=[C("ctl", "ct-u256-arith", 1500000, 20000000), C("ctl", "ct-u256-codec", 400000, 20000000), C("ctl", "ct-u256-range", 400000, 10000000)]),
    "S02": dict(
        rule="A case is a history of operations on one of the state containers (memory, stack, storage, transient storage, accounts, logs, journals, immutable hashes, self-destruct sets), including clones changed independently, "
             "or a code inspected byte by byte, or the helper functions on generated arguments, compared with plain models; non-trivial: at least 3 operations of the container.",
        components=[C("ctl", "ct-containers", 240000, 12000000), C("ctl", "ct-code", 400000, 8000000), C("ctl", "ct-helpers", 80000, 8000000),
                    C("ctl", "ct-code-hash", 2000, 50000)]),
    "S03": dict(
        rule="A case is a history of up to 14 edits, clones, releases and specification steps on up to four copies of a generated state, each compared with its own model after every operation; non-trivial: at least one clone and one edit.",
        components=[C("ctl", "ct-clones", 40000, 4000000)]),
    "S04": dict(
        rule="A case is a pair of generated states that differ by up to three edits (of any part of the state, down to single bits, including edits without effect) and their equality and difference reports in both directions; every case is non-trivial.",
        components=[C("ctl", "ct-eq", 120000, 10000000)]),
    "S05": dict(
        rule="A case is a generated state, also ended or of unknown revision, written to a file in a scratch folder, read, compared with the model, edited and written again, and a truncated, mutated, renamed-field or missing file; every case is non-trivial.",
        components=[C("ctl", "ct-json", 10000, 1000000)]),
    "S06": dict(
        rule="A case is a complete state (any instruction at any position, typed operands, memory, storage with originals and warmth, accounts, journals, context, gas at or around what the instruction needs) stepped 1-12 times by the target and "
             "by the reference EVM and compared field by field; or an ended state or one of an unknown revision, which must come back unchanged; non-trivial: every case.",
        assumptions=["dirty storage slots are warm, memory sizes are multiples of 32, the program counter points to code: other states do not occur"],
        components=[C("ctl", "ct-step", 160000, 16000000, name="ct-step/lfvm"), C("ctz", "ct-step", 160000, 16000000, name="ct-step/evmzero"),
                    C("ctr", "ct-step", 160000, 16000000, name="ct-step/evmrs"), C("ctr", "ct-own-states", 60000, 8000000, name="ct-own-states/evmrs"),
                    C("ctr", "ct-ended", 30000, 1000000, name="ct-ended/evmrs"),
                    C("ctl", "ct-own-states", 60000, 8000000, name="ct-own-states/lfvm"), C("ctz", "ct-own-states", 60000, 8000000, name="ct-own-states/evmzero"),
                    C("ctl", "ct-ended", 30000, 1000000, name="ct-ended/lfvm"), C("ctz", "ct-ended", 30000, 1000000, name="ct-ended/evmzero")]),
    "S07": dict(
        rule="A case is a complete state as above (also ended, of unknown revision, or pointing into immediate data); the rules found for it are applied to clones of it and compared field by field with the reference EVM's step; "
             "non-trivial: every case.",
        assumptions=["dirty storage slots are warm", "the remaining limits of S06"],
        components=[C("ctl", "ct-spec", 260000, 12000000), C("ctl", "ct-own-states", 60000, 8000000)]),
    "S08": dict(
        rule="A case is a generated state and 1-6 conditions of the specification language (of every kind, with constants at or next to the state's values, nested conjunctions, parameters below the stack, positions in immediate data) "
             "evaluated on it and on a plain model; non-trivial: every case.",
        components=[C("ctl", "ct-conditions", 200000, 12000000)]),
    "S09": dict(
        rule="A case is a generator with 1-12 random constraints around a witness state (direct or through conditions), its clones and restored copies, and the states it gives for several seeds, "
             "or a history of cloning, restoring, restricting and using up to a dozen generators, each compared with a new one given the same constraints; "
             "non-trivial: at least one state was generated (for a history: and a generator copied).",
        assumptions=["the solver for several code variables is documented to be incomplete: such combinations may be reported unsatisfiable"],
        components=[C("ctl", "ct-generators", 110000, 12000000), C("ctl", "ct-generator-forks", 120000, 8000000)]),
    "S10": dict(
        rule="A case is a rule with 1-3 generated conditions and up to four parameters, enumerated several times, or a rule of the specification with a state generated for it; non-trivial: every case.",
        assumptions=["address warmth and storage configurations are probed from the side of the condition only, by design", "states pointing into immediate data are documented to be out of scope of the specification"],
        components=[C("ctl", "ct-rules", 8000, 1200000), C("ctl", "ct-spec-rules", 60000, 4000000)]),
    "S11": dict(
        rule="A case is a list of up to seven generated rules enumerated by 1-16 jobs in parallel; non-trivial: every case.",
        components=[C("ctl", "ct-foreach", 10000, 1200000, concurrent=True), C("ctlr", "ct-foreach", 1200, 100000, name="ct-foreach/race", concurrent=True)]),
    "S12": dict(
        rule="A case runs one command of the conformance testing tool on a generated selection of rules (possibly with contradicting copies), filter, seed and number of jobs, with an implementation that deviates "
             "(wrong results, errors, unsupported revisions, crashes) in states chosen by their hash; non-trivial: at least one state is tested.",
        assumptions=["the command line library is a stand-in with the same flag syntax"],
        components=[C("drv", "tool-run", 450, 60000, concurrent=True), C("drv", "tool-regressions", 250, 20000), C("drv", "tool-probe", 130, 10000), C("drv", "tool-spec", 400, 40000),
                    C("drvr", "tool-run", 60, 6000, name="tool-run/race", concurrent=True)]),
    "P01": dict(
        rule="A case is a history of one to four transactions against a generated chain, run by the floria processor with a scripted interpreter (which modifies the state, makes nested calls, succeeds, reverts, fails, or reports an error, and records what it is told) and by a model of the processor; here with nonces, balances, gas limits, prices and values around the limits of admission; non-trivial: every history.",
        components=[C("flo", "tx-fees", 40000, 3000000)]),
    "P02": dict(
        rule="A case is a history of one to four transactions against a generated chain, run by the floria processor with a scripted interpreter (which modifies the state, makes nested calls, succeeds, reverts, fails, or reports an error, and records what it is told) and by a model of the processor; here with many failing frames, precompiled contracts and creations; non-trivial: at least one call ran code or a built-in contract.",
        components=[C("flo", "tx-traces", 40000, 3000000)]),
    "P03": dict(
        rule="A case is a history of one to four transactions against a generated chain, run by the floria processor with a scripted interpreter (which modifies the state, makes nested calls, succeeds, reverts, fails, or reports an error, and records what it is told) and by a model of the processor; here with many contract creations, occupied addresses, exhausted nonces, and deployed code around the limits; non-trivial: at least one call ran code.",
        components=[C("flo", "tx-creates", 40000, 3000000)]),
    "P04": dict(
        rule="A case is a history of one to four transactions against a generated chain, run by the floria processor with a scripted interpreter (which modifies the state, makes nested calls, succeeds, reverts, fails, or reports an error, and records what it is told) and by a model of the processor; here with many nested calls of all kinds, precompiled contracts and call chains to the depth limit; non-trivial: at least one call ran code or a built-in contract.",
        assumptions=["the precompiled contracts themselves are stand-ins with the original's addresses and gas schedules"],
        components=[C("flo", "tx-calls", 30000, 2500000)]),
    "P05": dict(
        rule="A case is a history of one to four transactions against a generated chain, run by the floria processor with a scripted interpreter (which modifies the state, makes nested calls, succeeds, reverts, fails, or reports an error, and records what it is told) and by a model of the processor; here with calls of the state contract from the driver and others, with valid and malformed input; non-trivial: at least one call ran code or a built-in contract.",
        components=[C("flo", "tx-driver", 40000, 3000000)]),
    "P06": dict(
        rule="A case is a history of one to three transactions on generated programs that call each other, run by floria on lfvm, evmzero and evmrs, and by the model of the processor on the reference interpreter; non-trivial: a program ran.",
        components=[C("flo", "tx-end-to-end", 30000, 2000000, name="tx-end-to-end/lfvm"), C("floz", "tx-end-to-end", 15000, 1500000, name="tx-end-to-end/evmzero"),
                    C("flor", "tx-end-to-end", 15000, 1500000, name="tx-end-to-end/evmrs")]),
}
