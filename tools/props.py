def P(id, title, statement, over, text, why, files, mech, technique, level_note, level="exploration", state=None, observe=None, hook=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe: a["observe_at"] = observe
    a["hook_needed"] = hook
    return dict(id=id, title=title, statement=statement, quantifier={"over": over, "text": text}, why_tests_cant=why,
                anchors=a, technique=technique, level=level, level_note=level_note)
PROPS = [
P("M01", "A Merkle-Patricia trie is a map with a canonical root, for any history",
  "After any history of insertions, updates, deletions, forks, iterations and hashings by clients that share tries, each trie answers lookups and iterates exactly as the map of its own history, and its root is the Ethereum root of that map. A trie restored from a complete checkpoint equals the one written, and a torn checkpoint is never accepted as another trie. What one client does never changes another client's trie.",
  ["histories", "schedules", "crash_points", "fault_sequences"],
  "every interleaving of operations of up to six clients, every key set without prefix pairs, every crash or torn checkpoint write",
  "The tests insert, delete and hash fixed or once-random tries with one owner; they reach few of the split, merge and collapse shapes after each other, and no sharing, interleaving or restart.",
  ["mpt_trie/src/partial_trie.rs", "mpt_trie/src/trie_ops.rs", "mpt_trie/src/trie_hashing.rs", "mpt_trie/src/nibbles.rs"],
  [("insert, delete, get, iteration", "mpt_trie/src/trie_ops.rs"), ("cached node hashes", "mpt_trie/src/partial_trie.rs"), ("RLP node encoding", "mpt_trie/src/trie_hashing.rs")],
  "deterministic simulation: seeded interleaved clients, forks, crashes and torn checkpoints against a reference trie",
  "Seeded search over histories of up to 120 operations; every root and lookup is compared with an independent trie. Assumes keys of which none is a prefix of another, as in Ethereum."),
P("M02", "A pruned trie keeps its root and answers rightly or refuses unchanged",
  "Cutting a trie down to a set of keys keeps its root, and keeps those keys readable, provably absent, insertable and updatable. Any operation on the pruned trie either gives exactly the root and value the full trie would give, or is refused with an error that leaves the trie unchanged; keys that were asked for are never refused, except deletions that would leave only a pruned sibling. Shipping, cutting again, or rebuilding from its items gives the same root.",
  ["histories", "inputs", "schedules", "crash_points"],
  "every base trie, every requested key set, every later history of operations by several holders with crashes and restarts",
  "The tests cut random tries and compare roots and present keys once; they never go on to mutate the pruned trie or exercise the refusals.",
  ["mpt_trie/src/trie_subsets.rs", "mpt_trie/src/trie_ops.rs", "mpt_trie/src/partial_trie.rs"],
  [("marking of needed nodes", "mpt_trie/src/trie_subsets.rs"), ("refusal at hash nodes", "mpt_trie/src/trie_ops.rs"), ("collapse into extension or refusal", "mpt_trie/src/trie_ops.rs collapse_ext_node_if_needed")],
  "deterministic simulation: workers holding pruned tries, shipped and restarted, against a full reference trie",
  "Seeded search; successes must equal the full reference trie, refusals must be justified by the pruned set and leave no change."),
P("M03", "A trie built from delivered proofs is a view of the claimed trie only",
  "A trie assembled for a claimed root from per-key proofs has exactly that root, whatever proofs were lost, damaged, duplicated, reordered or taken from another block. Every lookup in it gives the true value or nothing, and the true answer for every key whose whole proof arrived. With the proofs of the touched keys before and after a block, the block's changes can be replayed on it and give the next root.",
  ["fault_sequences", "inputs", "schedules"],
  "every trie, block of changes, and every delivery order, loss, duplication, corruption and mix-up of proofs",
  "The tests build from complete, well-formed proofs of a few keys; no loss, damage, mix-up, or replay of a block's deletions on the result.",
  ["mpt_trie/src/builder.rs", "mpt_trie/src/trie_ops.rs", "zero/src/rpc/native/state.rs"],
  [("nodes stored under their own hash", "mpt_trie/src/builder.rs insert_proof"), ("short-node variants for deletions", "mpt_trie/src/builder.rs insert_short_node_variants")],
  "deterministic simulation: proof messages lost, damaged, duplicated, reordered and mixed between blocks, against a reference trie",
  "Seeded search; values of at least 32 bytes and 32-byte keys, as in state tries."),
P("M04", "The sparse Merkle tree is a map with a canonical root over a crashing store",
  "After any history of writes and deletions the root is the canonical Poseidon root of the current map, and lookups give the written value or zero. Every committed root stays fully readable whatever prefix of later node writes reached the store before a crash, and a lost write is never read as another value. Pruned serialisations and partial trees keep the root, answer for the kept keys, and follow updates to the right root.",
  ["histories", "crash_points", "fault_sequences", "inputs"],
  "every history of up to 70 operations on keys sharing any bit prefix, every crash prefix and every single lost write",
  "The tests set and delete a few keys and compare roots between two of its own runs or with recorded constants; absent lookups, crashes, lost nodes and partial trees are not reached.",
  ["smt_trie/src/smt.rs", "smt_trie/src/bits.rs", "smt_trie/src/db.rs", "smt_trie/src/utils.rs"],
  [("content-addressed node writes", "smt_trie/src/smt.rs set"), ("collapse on deletion", "smt_trie/src/smt.rs set"), ("pruned serialisation", "smt_trie/src/smt.rs serialize_and_prune")],
  "deterministic simulation: node store behind the Db trait with crash prefixes and lost writes, against a reference tree",
  "Seeded search; the Poseidon permutation itself is trusted."),
P("E01", "Every valid block becomes batches that chain and that any worker can execute",
  "For every pre-state and every block valid under Ethereum's rules, the decoder turns a correct witness and trace, in either witness format and for any batch size, into batches whose state, transaction and receipt roots and gas and transaction counters chain from the block's first state to its last, exactly as a reference EVM computes them. Every batch, pruned tries and all, executes to its claimed results on any worker, in any order, repeatedly, and after being stored and read back. Failed calls, creations and transactions leave no trace but the fee and the nonce.",
  ["inputs", "histories", "schedules", "crash_points"],
  "every pre-state, program, transaction type, gas limit down to the exact point of exhaustion, withdrawal, batch size, witness format, and schedule and restart of workers",
  "The tests replay a few recorded mainnet and hand-made blocks; they cannot reach most combinations of opcode, failure, refund, warm access, creation and deletion, nor of what the decoder must keep in a pruned trie, and never reorder or restart batches.",
  ["trace_decoder/src/core.rs", "trace_decoder/src/wire.rs", "trace_decoder/src/type1.rs", "trace_decoder/src/observer.rs", "evm_arithmetization/src/generation/prover_input.rs", "evm_arithmetization/src/cpu/kernel/interpreter.rs", "evm_arithmetization/src/cpu/kernel/asm", "evm_arithmetization/src/witness/operation.rs"],
  [("block to batches: tries pruned and updated per batch", "trace_decoder/src/core.rs start, middle"), ("the EVM in kernel assembly", "evm_arithmetization/src/cpu/kernel/asm"), ("nondeterministic advice for the kernel", "evm_arithmetization/src/generation/prover_input.rs"), ("final checks of roots and gas", "evm_arithmetization/src/cpu/kernel/asm/main.asm")],
  "deterministic simulation: simulated node, decoder and workers with out-of-order, repeated and restarted batches, against a reference EVM and trie",
  "Seeded search over random blocks of structured programs; the reference EVM is written from the yellow paper and the EIPs up to Cancun. Transactions stay below 1.5 million gas."),
P("E02", "Cutting a batch into segments changes nothing, however and wherever it is cut",
  "For every valid batch and every segment length, the cut batch is accepted exactly when the whole is, and makes the same claims in every segment. Each segment can be turned into traces on its own, by any worker, in any order, again, or from a copy stored before a restart, always with the same result within its length. The first begins at the kernel's start, each ends in exactly the registers and memory the next begins with, and the last and only the last ends in the halt.",
  ["inputs", "schedules", "crash_points"],
  "every batch, every segment length from 2^9 to 2^17 cycles, and so every instruction at which a cut can fall, every order of workers and restart",
  "The tests cut a handful of batches at one or two fixed lengths, so that the cut falls on few instructions and in few states of the prover-input machinery (pending big-number results, jump destination tables, heaps); the memory of neighbours is compared in none.",
  ["evm_arithmetization/src/generation/segments.rs", "evm_arithmetization/src/generation/mod.rs", "evm_arithmetization/src/generation/state.rs", "evm_arithmetization/src/witness/memory.rs", "evm_arithmetization/src/memory/memory_stark.rs", "evm_arithmetization/src/memory_continuation"],
  [("cutting of the run, state carried over", "generation/segments.rs SegmentDataIterator, generation/state.rs run_cpu"), ("memory before and after a segment", "generation/mod.rs generate_traces, witness/traces.rs, memory/memory_stark.rs")],
  "deterministic simulation: workers generating segments out of order, repeatedly and from stored copies, at seeded cuts",
  "Seeded search; real interpreter, witness generation and trace tables; the memory tables that proofs commit to are compared cell by cell, the proofs themselves are not made."),
P("E04", "A transaction that Ethereum refuses has no effect, whoever proves the batch",
  "When whoever assembles a batch puts into it a transaction that Ethereum refuses (wrong or used nonce, replayed, unaffordable at its maximal fee, overflowing amounts, wrong chain, fee below the base fee, too little or too much gas, more gas than its block has left, oversized init code, bad blobs, a sender with code, a bad or forged signature, wrong fields or type), and adopts as claims whatever gas and roots the kernel then computes, the batch is refused or leaves the state and the gas it would leave without that transaction.",
  ["inputs", "fault_sequences", "histories"],
  "every batch, every position in it and every invalid transaction",
  "The tests parse a few signed transactions and run valid blocks; none puts an invalid transaction in a batch, and which checks fire depends on balances, fees and the gas used before.",
  ["evm_arithmetization/src/cpu/kernel/asm/core/process_txn.asm", "evm_arithmetization/src/cpu/kernel/asm/core/intrinsic_gas.asm", "evm_arithmetization/src/cpu/kernel/asm/transactions", "evm_arithmetization/src/cpu/kernel/asm/rlp", "evm_arithmetization/src/cpu/kernel/asm/curve/secp256k1"],
  [("validity checks", "asm/core/process_txn.asm process_normalized_txn, compute_fees"), ("blob transactions", "asm/transactions/type_3.asm check_blob_txn"), ("decoding and signatures", "asm/transactions/*.asm, asm/curve/secp256k1/ecrecover.asm")],
  "deterministic simulation: a hostile aggregator inserts invalid transactions at seeded points of a batch and adapts its claims",
  "Seeded search; malleable encodings of valid transactions are out of scope (rlp/decode.asm says so). The kernel may include a refused transaction as a failed one without gas.",
  hook="cfg verif_hooks: the claims are adapted in the kernel's memory"),
P("E05", "A lying prover cannot have another result accepted than the EVM's",
  "Whatever a prover answers where the kernel asks for advice (access-list and linked-list positions, jump destinations, code, hints for arithmetic and curves, fees, the initial tries and lists in memory), and whatever final gas and roots it then claims, either it is refused or its claims are the true ones: the gas, the transaction, receipt and state roots of executing the batch by Ethereum's rules.",
  ["inputs", "fault_sequences", "histories"],
  "every valid batch, every single or double deviation from the honest prover's advice or initial memory, with the claims adapted to what the kernel then computes",
  "The tests only ever run the honest prover, so that a check dropped from the kernel (a missing bound, comparison or uniqueness test) changes nothing they can see.",
  ["evm_arithmetization/src/cpu/kernel/asm", "evm_arithmetization/src/generation/prover_input.rs", "evm_arithmetization/src/generation/linked_list.rs", "evm_arithmetization/src/generation/segments.rs"],
  [("advice requested by the kernel", "PROVER_INPUT in evm_arithmetization/src/cpu/kernel/asm"), ("checks on access and linked lists", "asm/core/access_lists.asm, asm/mpt/linked_list"), ("checks of jump destinations", "asm/core/jumpdest_analysis.asm"), ("checks of loaded code and tries", "asm/memory, asm/mpt"), ("final comparison with the claims", "asm/main.asm perform_final_checks")],
  "deterministic simulation: a Byzantine prover lies at seeded points of the kernel's dialogue and adapts its claims",
  "Seeded search over deviations, run in the real interpreter; that the constraints enforce what the interpreter does is E06. Two known findings are reported (KZG result trusted, JUMPDEST denial).",
  hook="cfg verif_hooks: the prover's advice and initial memory pass through a hook"),
P("E06", "The constraint system accepts what the machine does, and nothing else",
  "The tables that the honest prover fills in for a segment satisfy every constraint, every lookup within a table and every lookup between tables, the verifier's and the recursive circuit's share of the public values included; and no single row can be forged: with its constraints kept, the answers it gets from other tables kept, and the questions it is asked kept, what it asks, answers and hands to the next row is determined. An opcode decodes to one kind of operation, a segment starts at the kernel's entry, padding asks nothing, and no public value can be changed unnoticed.",
  ["inputs", "fault_sequences"],
  "every segment of every valid batch, every row of its tables but Keccak's, every change of a row and its successor",
  "The tests evaluate the constraints on the honest prover's rows or on random values; a constraint that is missing or too weak leaves them all satisfied. Only a prover that looks for another row that is accepted can tell.",
  ["evm_arithmetization/src/cpu", "evm_arithmetization/src/arithmetic", "evm_arithmetization/src/byte_packing", "evm_arithmetization/src/keccak_sponge", "evm_arithmetization/src/logic.rs", "evm_arithmetization/src/memory", "evm_arithmetization/src/memory_continuation", "evm_arithmetization/src/all_stark.rs", "evm_arithmetization/src/verifier.rs", "evm_arithmetization/src/recursive_verifier.rs"],
  [("constraints of the CPU's rows", "evm_arithmetization/src/cpu/*.rs eval_packed*"), ("constraints of the other tables", "eval_packed_generic in arithmetic, byte_packing, keccak_sponge, logic.rs, memory, memory_continuation"), ("lookups between tables", "evm_arithmetization/src/all_stark.rs, ctl_* in each table"), ("public values in the memory lookup", "evm_arithmetization/src/verifier.rs and recursive_verifier.rs get_memory_extra_looking_sum")],
  "deterministic simulation: Byzantine provers forge seeded rows, solving the constraints' derivatives for changes that everyone else accepts",
  "Seeded search over rows, flips of flags and linear changes; Keccak's own table, FRI and the recursion are trusted. Two known findings are reported (kernel PUSH values unbound, zeros of preinitialised segments droppable).",
  hook="cfg verif_hooks: the constraints, lookups and column names are handed out"),
]
NOT_APPLICABLE = []
HOOKS = {"guard": "verif_hooks (rustc --cfg verif_hooks)", "enable": "RUSTFLAGS='--cfg verif_hooks', set by /verif/sim/env.sh", "source_commits": ["239b245", "0af6590", "988f25b", "99fe9b0"]}
NOTES = "One binary per subsystem; every check is `run.sh ID`, which rebuilds from /repo's working tree. `run.sh replay FILE` replays a violation."
