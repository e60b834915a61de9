#!/usr/bin/env python3
"""Source of /verif/properties.jsonl (run to regenerate)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, state=None, observe=None, hook=None):
    assert len(title) <= 80, (id, len(title))
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe: a["observe_at"] = observe
    a["hook_needed"] = hook
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a})

SYS = "crates/logicaffeine_system/src/"
CMP = "crates/logicaffeine_compile/src/"
RT = "crates/logicaffeine_runtime/src/"
DAT = "crates/logicaffeine_data/src/crdt/"
CLI = "apps/logicaffeine_cli/src/"
LSP = "crates/logicaffeine_lsp/src/"

# ---------------------------------------------------------------- storage
p("S01", "An acknowledged change to persistent state survives any crash",
  "Once a change to a journalled persistent value has been acknowledged, every later mount of that journal shows it, no matter at which instant and how many times the process or the machine crashed in between. A change that was never acknowledged is either wholly present or wholly absent after recovery, and recovery itself always succeeds when the only damage is what a crash can cause.",
  ["crash_points", "histories", "fault_sequences", "schedules"],
  "Every sequence of mutations, reads, remounts and compactions by one or more concurrent tasks, a crash at every storage call (including during a previous recovery), with unsynced data lost, torn or reordered as the file system allows, and with failing, short and out-of-space writes.",
  "The journal tests mount, mutate and remount on a healthy disk and truncate one file by hand; none crashes between two storage calls, appends after a torn tail, or loses unsynced data.",
  [SYS+"storage/mod.rs", SYS+"fs/mod.rs"],
  [("append-before-acknowledge", SYS+"storage/mod.rs: Persistent::mutate"), ("length+checksum framed entries, torn tail ignored", SYS+"storage/mod.rs: replay_journal"), ("sync on append", SYS+"fs/mod.rs: NativeVfs::append")],
  [("journal", "append-only record of deltas and snapshots", SYS+"storage/mod.rs")], ["mount()/get() result after restart"])
p("S02", "Compaction never loses, changes or resurrects persistent state",
  "Compacting a journal, by hand or automatically, at any moment and concurrently with changes to the same value, leaves the value that a later mount recovers exactly what it would have been without compaction. This also holds when the compaction fails or the machine crashes in the middle of it.",
  ["schedules", "crash_points", "fault_sequences"],
  "Every interleaving of concurrent mutations and compactions of one value, every crash point inside a compaction, every failing storage call inside it.",
  "The tests compact once, alone, without a fault; the interleaving of a mutation with the snapshot write is never produced.",
  [SYS+"storage/mod.rs", SYS+"distributed.rs", SYS+"fs/mod.rs"],
  [("snapshot then atomic replace", SYS+"storage/mod.rs: Persistent::compact"), ("automatic compaction threshold", SYS+"distributed.rs: maybe_compact/do_compact")],
  None, ["mount()/get() after compaction", "journal entry count"])
p("S03", "A damaged journal is refused or recovered to a past state, never misread",
  "When bytes of a journal are flipped, overwritten, cut off or extended by a faulty disk, mounting it either reports an error or yields a state the value really had at some moment of its history. It never yields a state that never existed, never panics, and never needs memory out of proportion to the file.",
  ["inputs", "fault_sequences", "histories"],
  "Every journal a history of changes can leave behind and every sequence of bit flips, sector overwrites, truncations and stray trailing bytes applied to it before or between mounts.",
  "One test flips one byte of one file; the space of damage times history is not covered.",
  [SYS+"storage/mod.rs", SYS+"distributed.rs"],
  [("per-entry checksum", SYS+"storage/mod.rs: JournalHeader"), ("per-entry checksum", SYS+"distributed.rs: replay_journal")], None, ["result of mount()"])
p("S04", "Replacing a file is atomic, durable and confined to that file",
  "A whole-file write through the virtual file system is seen by concurrent readers and after any crash as the complete old content or the complete new content, and once acknowledged the new content survives a crash. Operations on one path never disturb the content of a different path, including operations that overlap in time, a failed write leaves a complete content (the old or the new), and no path reaches outside the file system's root.",
  ["crash_points", "schedules", "fault_sequences"],
  "Every set of overlapping reads, writes, appends, renames and removals on several paths, every crash point, every failing or short write.",
  "The file tests perform one operation at a time on a healthy disk and never look at the bytes left by an interrupted write.",
  [SYS+"fs/mod.rs"],
  [("temp file then rename", SYS+"fs/mod.rs: NativeVfs::write"), ("append then sync", SYS+"fs/mod.rs: NativeVfs::append")], None, ["read() of every path during the run and after restart"])
p("D01", "Replicated durable state converges and remembers what peers sent",
  "A durable replicated value applies every update it receives from the network to its local state and to its journal, so a restarted node still has every update it had taken in and journalled before the crash and every change acknowledged locally. Once the network delivers again and each node has broadcast its state once more, all nodes hold equal values containing every acknowledged change of every node.",
  ["schedules", "crash_points", "fault_sequences", "histories"],
  "Every interleaving of local changes, broadcasts, deliveries (lost, duplicated, reordered, delayed), partitions, crashes and restarts of several nodes, with disk faults on each.",
  "The mesh tests need live sockets and cover one message between two nodes; no test restarts a node between receiving and journalling.",
  [SYS+"distributed.rs", SYS+"network/gossip.rs"],
  [("journal then broadcast", SYS+"distributed.rs: Distributed::mutate"), ("merge then journal on receipt", SYS+"distributed.rs: start_receive_loop")], None, ["get() on every node at quiescence and after restart"],
  "the publish/subscribe registry of the mesh is process-global; a guarded seam routes it through the simulated network per node")

# ---------------------------------------------------------------- CRDT
p("C01", "Replicas that have seen the same updates hold the same value",
  "For every replicated data type, replicas that have received the same set of updates, directly or through other replicas, in any order and any number of times, report the same value. Merging never depends on the order, grouping or repetition of merges.",
  ["histories", "schedules", "fault_sequences"],
  "Every history of concurrent operations on several replicas of counters, registers, sets, maps and sequences and every schedule of state exchanges between them, with loss, duplication, reordering and partitions.",
  "Unit tests merge two replicas in one or two hand-written orders; property tests exist for none of the sequence types across three or more replicas with partitions.",
  [DAT+"gcounter.rs", DAT+"pncounter.rs", DAT+"lww.rs", DAT+"mvregister.rs", DAT+"orset.rs", DAT+"ormap.rs", DAT+"sequence/rga.rs", DAT+"sequence/yata.rs", DAT+"causal"],
  [("join of causal contexts", DAT+"causal/context.rs"), ("merge implementations", DAT)], None, ["value accessors of every replica after full exchange"])
p("C02", "No replicated update is lost, invented or resurrected by merging",
  "After replicas have exchanged everything, the value contains the effect of every operation performed on any replica and of no other: counters total all increments and decrements, an element is in a set exactly when the set's stated rule (a concurrent add wins, or a concurrent remove wins) says so, a multi-value register shows exactly the writes not superseded by a causally later write, and a sequence contains every inserted and not deleted item, in an order that keeps each replica's own insertions where it put them.",
  ["histories", "schedules", "fault_sequences"],
  "Every history of operations and exchanges among replicas, compared operation by operation with a causal reference model that tracks which operations each replica had seen.",
  "Tests assert hand-computed results of short histories; they do not compare against an independent causal model over generated histories.",
  [DAT+"gcounter.rs", DAT+"pncounter.rs", DAT+"mvregister.rs", DAT+"orset.rs", DAT+"ormap.rs", DAT+"sequence/rga.rs", DAT+"sequence/yata.rs"],
  [("dots and version vectors", DAT+"causal"), ("tombstones", DAT+"sequence")], None, ["value accessors compared with the reference model at every exchange"])
p("C03", "Synchronising by deltas reaches the same state as exchanging full states",
  "A replica that keeps up by applying the deltas another replica hands out for the version it last acknowledged, falling back to the full state whenever a delta is refused, ends with the same value as if full states had been exchanged every time. This holds when deltas are lost, duplicated or reordered and when the history of deltas kept by the sender has been trimmed.",
  ["histories", "schedules", "fault_sequences", "configurations"],
  "Every history of operations, delta requests from any earlier version, lossy delivery schedules and delta-buffer capacities.",
  "Delta tests apply one delta right after one operation; trimming, gaps and concurrent versions are not combined.",
  [DAT+"delta.rs", DAT+"delta_buffer.rs", DAT+"gcounter.rs", DAT+"pncounter.rs", DAT+"orset.rs", DAT+"ormap.rs", DAT+"sequence/rga.rs"],
  [("delta extraction since a version", DAT+"delta.rs"), ("bounded delta history", DAT+"delta_buffer.rs")], None, ["value accessors of receiver versus full-state twin"])

# ---------------------------------------------------------------- network
p("G01", "Every live subscriber of a mesh topic receives and merges every message",
  "A message published on a topic and handed to a node is given to every live subscription of that topic on the node, and never to a subscription of another topic. A slow, full or abandoned subscription on one topic never stops other topics from receiving, and shared values synchronised over a topic converge once each has broadcast after the last fault.",
  ["schedules", "fault_sequences", "histories"],
  "Every interleaving of subscriptions, unsubscriptions, publishes, deliveries and slow or dropped receivers on several topics and nodes.",
  "Tests register one subscription and check that the registry contains it.",
  [SYS+"network/gossip.rs", SYS+"crdt/sync.rs"],
  [("topic registry", SYS+"network/gossip.rs: SUBSCRIPTIONS"), ("merge loop", SYS+"crdt/sync.rs: Synced::new")], None, ["messages received by each subscription", "Synced::get on every node"],
  "guarded seam at the mesh boundary")
p("R01", "The relay delivers each message once, in order, to exactly its subscribers",
  "A message published through the relay reaches every other client whose subscription to that topic was acknowledged before the publish and is still in force, exactly once and unaltered, in the order each publisher sent its messages; it never reaches the publisher itself, a client that did not subscribe, or a client whose unsubscribe was processed earlier. This holds whatever the timing of connects, subscribes, unsubscribes, disconnects and the fragmentation of traffic on the wire.",
  ["schedules", "fault_sequences", "histories"],
  "Every interleaving of clients connecting, subscribing, publishing, unsubscribing and disconnecting, with connection resets, delays, partitions and arbitrary segmentation of the byte streams.",
  "Relay tests use two or three clients over loopback with one message at a time; ordering across concurrent publishers and interleaved unsubscribes is not examined.",
  [SYS+"relay.rs", SYS+"relay_proto.rs", SYS+"net.rs"],
  [("routing table", SYS+"relay.rs: Hub"), ("acknowledged subscribe", SYS+"relay.rs: RelayClient::subscribe")], None, ["events received by each client"])
p("R02", "One faulty relay client never harms the service to the others",
  "A client that stalls, never reads, sends malformed or truncated frames, floods, or disappears without closing affects only its own connection: other clients keep subscribing, publishing and receiving with bounded delay, and new clients can still connect. After a client is gone, the relay stops delivering to it.",
  ["fault_sequences", "schedules"],
  "Every mixture of well-behaved clients with clients that stall, send garbage at any protocol stage, reset, or half-close.",
  "No relay test contains a misbehaving client next to a measured well-behaved one.",
  [SYS+"relay.rs"],
  [("per-connection task and outbox", SYS+"relay.rs: handle_conn")], None, ["progress of well-behaved clients in simulated time"])

# ---------------------------------------------------------------- peer messaging
p("M01", "A program's Send and Await deliver each value once, in order, unchanged",
  "When one program sends values to another through the relay, the receiver's awaits return those values exactly once, in the order sent by that sender, equal to what was sent, whatever other senders do and however the network delays traffic. The outcome is the same whether the program runs on the tree-walking interpreter or the bytecode machine.",
  ["schedules", "programs", "fault_sequences"],
  "Every set of programs exchanging values of every type over every delivery timing, on either execution tier.",
  "Networking tests run one or two programs with a single message over loopback, at whatever timing the machine happens to give.",
  [CMP+"concurrency/net_inbox.rs", CMP+"concurrency/marshal.rs", CMP+"interpreter.rs", CMP+"ui_bridge.rs", SYS+"net.rs"],
  [("per-sender inbox", CMP+"concurrency/net_inbox.rs: NetInbox"), ("capability negotiation", CMP+"concurrency/net_inbox.rs: encode_negotiated")], None, ["program output lines"])
p("M02", "Redundant messages survive the promised losses and never mix",
  "A value sent with redundancy is reconstructed exactly when no more than the promised number of its parts is lost, in any arrival order and with duplicated parts, is delivered at most once, and is never built from parts of different messages or different senders. With more losses it is not delivered at all rather than delivered wrongly.",
  ["fault_sequences", "schedules", "inputs"],
  "Every selection, order and duplication of the parts of several concurrent redundant messages from several senders.",
  "The erasure-code tests decode one message from one chosen subset; concurrent senders with equal message numbers do not occur.",
  [CMP+"concurrency/fec.rs", CMP+"concurrency/net_inbox.rs"],
  [("systematic erasure code", CMP+"concurrency/fec.rs"), ("per-message part buffer", CMP+"concurrency/net_inbox.rs: drain")], None, ["values returned by await"],
  "guarded access to the inbox")
p("M03", "Message framing is independent of how the byte stream is cut",
  "However a stream of framed messages is cut into chunks, including single bytes, empty chunks, many frames at once and connections that die mid-frame, the receiver obtains exactly the frames that have completely arrived, in order, as soon as they are complete, and holds only the incomplete remainder. Corrupt lengths never cause a crash, unbounded buffering beyond the bytes received, or a bogus frame.",
  ["fault_sequences", "inputs"],
  "Every sequence of frames, every segmentation, every point of truncation and corruption of the stream.",
  "Tests try two or three segmentations of one short stream.",
  [CMP+"concurrency/stream.rs"],
  [("incremental deframer", CMP+"concurrency/stream.rs: StreamDeframer")], None, ["frames handed out after each chunk"])
p("M04", "Programs sharing a value through Sync converge and lose nothing",
  "Programs that share a replicated value on a topic and keep synchronising end up with the same value, containing every program's changes exactly once, once messages are delivered and each has synchronised again after the last change. Traffic on other topics and ordinary messages between programs are neither swallowed nor applied to the shared value.",
  ["schedules", "programs", "fault_sequences"],
  "Every interleaving of changes, synchronisations, late joins and other traffic among several programs over every delivery timing.",
  "Tests synchronise two programs once in lockstep inside one process.",
  [CMP+"interpreter.rs", CMP+"ui_bridge.rs", CMP+"semantics/crdt.rs", CMP+"semantics/arith.rs"],
  [("per-field delta shipping", CMP+"interpreter.rs: Sync"), ("replica identities", CMP+"semantics/crdt.rs")], None, ["program output lines after the last synchronisation"],
  "guarded per-node replica identity, because a process-wide counter is shared by all simulated nodes")
p("M05", "Arbitrary bytes from the network never crash or wedge a program",
  "Whatever bytes arrive on a program's inbox, corrupted, truncated, replayed or invented, the program neither crashes nor allocates memory beyond the limits the decoder publishes, and valid messages that arrive before and after are still delivered. A corrupted message is dropped or decoded to some value, never to undefined behaviour.",
  ["inputs", "fault_sequences"],
  "Every corruption of every message form in every position of the traffic.",
  "Fuzz-style unit tests decode a few mutated buffers in isolation, and one of them is known to fail by attempting a huge allocation.",
  [CMP+"concurrency/marshal.rs", CMP+"concurrency/net_inbox.rs", CMP+"concurrency/fec.rs", CMP+"concurrency/channel.rs"],
  [("bounds-checked decoding", CMP+"concurrency/marshal.rs")], None, ["process survival, memory requested, delivered values"])
p("K01", "Sealed traffic that was altered, replayed or misdirected is never accepted",
  "A message sealed for a channel is opened only by a peer holding the channel's key material and only with exactly the bytes that were sealed; any altered, truncated or cross-channel message is rejected, and on a one-time-pad channel so is every message that was already accepted once. A sender whose channel demands protection never emits unprotected bytes, and genuine messages keep being accepted after attacks.",
  ["fault_sequences", "inputs", "schedules"],
  "Every sequence of genuine and adversarial deliveries, reordered, duplicated, corrupted and cross-fed between sessions.",
  "Crypto tests flip a byte of one envelope; sessions with interleaved genuine and hostile traffic are not simulated.",
  [CMP+"concurrency/channel.rs", CMP+"concurrency/pnp.rs"],
  [("authenticated envelope", CMP+"concurrency/channel.rs"), ("receive window", CMP+"concurrency/pnp.rs: PnpSuite::open")], None, ["accepted plaintexts"])
p("K02", "One-time pad material is never used twice, across threads and crashes",
  "No byte of one-time pad material is ever used to protect two different messages, whether they are sealed concurrently, after a restart from the durable record, or after any crash or disk error at any instant; when the record cannot be trusted sealing is refused. Both directions of a shared pad never draw from the same material.",
  ["crash_points", "schedules", "fault_sequences"],
  "Every interleaving of concurrent seals, every crash point around the durable record of consumption, every failing, torn or lost write of it.",
  "Tests reopen a ledger file after clean writes; no test crashes between reserving, recording and emitting.",
  [CMP+"concurrency/pnp.rs"],
  [("reserve, record durably, then emit", CMP+"concurrency/pnp.rs: PnpSuite::seal"), ("file ledger", CMP+"concurrency/pnp.rs: FileLedger")], None, ["pad ranges named in emitted frames"])

# ---------------------------------------------------------------- runtime
p("T01", "A seed fully determines a concurrent program's execution and its replay",
  "Running the same concurrent program twice with the same seed gives the same sequence of scheduling decisions, outputs and final outcome, and replaying a recorded run reproduces it exactly. This holds for every program, seed and scheduling configuration, and does not depend on memory addresses, hash randomisation, wall-clock time or how the run is sliced.",
  ["programs", "schedules", "configurations"],
  "Every program, seed, scheduling policy and slicing of the run, under a perturbed environment (hash keys, clock, addresses).",
  "Tests compare two runs of a handful of programs in the same process under the same environment.",
  [RT+"scheduler.rs", RT+"seed.rs", RT+"config.rs", CMP+"ui_bridge.rs"],
  [("single chooser for every decision", RT+"seed.rs: Chooser"), ("recorded trace", RT+"scheduler.rs")], None, ["decision trace, outputs, outcome"])
p("T02", "Pipes, tasks, selects and timeouts behave like their sequential model",
  "Values sent on a pipe are received exactly once, in order, never more than the capacity are in flight, a blocked party proceeds as soon as its counterpart acts, a select takes exactly one ready branch and disturbs no other pipe, a timeout fires only when nothing else can proceed earlier, a stopped task has no further effect, and a deadlock is reported exactly when nothing can ever proceed. This holds under every scheduling policy and every seed.",
  ["schedules", "programs", "histories", "configurations"],
  "Every set of tasks performing sends, receives, try-operations, selects, sleeps, spawns, joins and stops under every schedule.",
  "Runtime tests script a few tasks each; select with several ready branches, stops of blocked tasks and closings are not combined.",
  [RT+"scheduler.rs", RT+"channel.rs", RT+"task.rs", RT+"config.rs"],
  [("scheduler", RT+"scheduler.rs"), ("bounded channel with waiters", RT+"channel.rs")], None, ["every task's observed results versus a reference model"])
p("T03", "Parallel execution gives exactly the sequential result",
  "Running a concurrent program on several worker threads produces the same output, outcome and decision trace as the single-threaded run with the same seed, for every number of workers and every timing of the workers.",
  ["schedules", "programs", "configurations"],
  "Every program, seed, worker count and interleaving of worker threads.",
  "The tests run a few programs at whatever thread timing the machine gives.",
  [RT+"executor.rs", RT+"scheduler.rs", CMP+"ui_bridge.rs", CMP+"concurrency/vm_driver.rs"],
  [("coordinator applies effects in pick order", RT+"executor.rs")], None, ["output and outcome versus the cooperative run"])
p("T04", "Every execution tier agrees on concurrent programs",
  "For every concurrent program and seed, the tree-walking interpreter and the bytecode machine produce the same output and the same outcome.",
  ["programs", "schedules"],
  "Every generated program using tasks, pipes, selects, timeouts and shared computation, under every seed.",
  "The differential tests cover a fixed list of programs.",
  [CMP+"interpreter.rs", CMP+"concurrency/driver.rs", CMP+"concurrency/vm_driver.rs", CMP+"vm/machine.rs"],
  [("shared scheduler", RT+"scheduler.rs"), ("task adapters", CMP+"concurrency/driver.rs, vm_driver.rs")], None, ["output lines and error of both tiers"])
p("T05", "Compiled programs' tasks and pipes conserve values and stop when told",
  "In the runtime linked into compiled programs, every value accepted by a pipe is received once and in order or remains in the pipe, a receiver learns that all senders are gone only after draining, a stopped task runs no further after its current step, and long computations keep yielding so that other tasks make progress. In deterministic mode the same seed reproduces the same choices.",
  ["schedules", "programs", "fault_sequences"],
  "Every interleaving of senders, receivers, stops and computations on the real executor under a simulated clock.",
  "Tests send a few values in one order on a live executor.",
  [SYS+"concurrency.rs"],
  [("pipe", SYS+"concurrency.rs: Pipe"), ("task handle", SYS+"concurrency.rs: TaskHandle"), ("cooperative yield", SYS+"concurrency.rs: check_preemption")], None, ["values received, task progress"])

# ---------------------------------------------------------------- tiering
p("J01", "When native code becomes available never changes a program's result",
  "A program gives the same output and the same error whether its hot functions are compiled to native code immediately, later, in any order, never, or on a background thread whose results arrive at arbitrary moments.",
  ["schedules", "programs"],
  "Every program with hot functions and every arrival time and order of background compilation results.",
  "The tests drain all compilations at the end or run synchronously; arrival in the middle of deep call stacks is left to chance.",
  [CMP+"vm/bg_compile.rs", CMP+"vm/machine.rs", "crates/logicaffeine_jit/src"],
  [("single publisher of native entries", CMP+"vm/machine.rs: drain_bg_compiles")], None, ["program output and error versus pure bytecode"])
p("J02", "The on-disk tiering cache can be damaged or lost without consequence",
  "A cache file left by an interrupted, failed or concurrent write, or corrupted on disk, is ignored or read back exactly as it was written, a body is only ever returned for the source, configuration and tier it was stored under, and on a healthy disk what was stored is found again.",
  ["crash_points", "fault_sequences", "inputs"],
  "Every crash point and disk fault while the cache is stored, every corruption of the file, every interleaving of two processes storing and loading it.",
  "Tests corrupt one byte and reload.",
  [CMP+"vm/tier_cache.rs"],
  [("checksummed record", CMP+"vm/tier_cache.rs")], None, ["loaded profile versus stored profiles"])

# ---------------------------------------------------------------- LSP
p("L01", "The editor's diagnostics end up matching the text on screen",
  "After the user stops typing, the last diagnostics published for each open document are those of its current text, and they arrive within a bounded time; results computed from an older text never replace results of a newer one, including when documents are closed, reopened, saved or changed while analyses are running.",
  ["schedules", "histories"],
  "Every interleaving of open, change, save, close and reopen events with debounce timers and analyses of arbitrary duration finishing in any order.",
  "Server tests send one event at a time and wait; an analysis outliving a close and reopen does not occur.",
  [LSP+"server.rs", LSP+"scheduler.rs", LSP+"state.rs", LSP+"document.rs"],
  [("generation check before publishing", LSP+"scheduler.rs"), ("debounce", LSP+"server.rs: did_change")], None, ["publishDiagnostics notifications", "requests after quiescence"])
p("L02", "Incremental editor data reconstructs exactly the full data",
  "A client that applies incremental text edits and incremental highlighting updates always ends with the same text and highlighting as a client that was sent everything in full, whatever requests are outstanding, cancelled, repeated or answered late.",
  ["schedules", "histories", "inputs"],
  "Every sequence of incremental edits (including multi-byte text, out-of-order and overlapping ranges) and interleaved full and delta highlighting requests over several documents.",
  "Tests apply one or two hand-written edits and one delta.",
  [LSP+"server.rs", LSP+"document.rs", LSP+"semantic_tokens.rs", LSP+"line_index.rs"],
  [("result ids", LSP+"semantic_tokens.rs"), ("incremental sync", LSP+"document.rs")], None, ["semantic token responses"])
p("L03", "Findings of the external checker never outlive the save they belong to",
  "Findings of the on-save external check shown for a document always come from the most recent save whose check finished, and a newer save, change or close of the document means that results of an older check are never shown afterwards. A failing or hanging check never blocks editing, and a failing one never blocks later checks.",
  ["schedules", "fault_sequences", "histories"],
  "Every interleaving of saves, changes, closes and reopens with checker runs of arbitrary duration, order of completion and failure.",
  "End-to-end tests run one check at a time with a fixed stub.",
  [LSP+"flycheck.rs", LSP+"server.rs"],
  [("save generation", LSP+"flycheck.rs")], None, ["publishDiagnostics notifications"])

p("L04", "Project-wide symbols and references end up matching the files on disk",
  "Once the server has been told of the last change to a project's files (created, changed, renamed, deleted, saved), project-wide symbol search and references from files that are not open answer exactly what is in the files on disk, whatever the order in which scans, notices and re-readings overlapped; files in skipped directories never appear.",
  ["schedules", "histories"],
  "Every interleaving of the first scan and of re-readings with file changes and their notices, grouped and ordered in any way.",
  "Tests index a fixed directory once, or change one file and wait.",
  [LSP+"workspace.rs", LSP+"server.rs"],
  [("re-reading one file", LSP+"workspace.rs: index_file"), ("change notices", LSP+"server.rs: did_change_watched_files")], None, ["workspace/symbol and textDocument/references responses after quiescence"])

# ---------------------------------------------------------------- other
p("F01", "A file fetched in pieces is complete and identical, or not accepted",
  "A file transferred in pieces is assembled identically to the source whatever the order, repetition, loss, corruption or interruption of the pieces, and is accepted only when every piece matches its published digest. Resuming after a crash fetches only what is missing.",
  ["fault_sequences", "crash_points", "inputs"],
  "Every delivery order, corruption and crash point of transfers of files of every size.",
  "Tests cut a small file and read the pieces back in order.",
  [SYS+"network/sipping.rs", SYS+"memory.rs"],
  [("manifest of digests", SYS+"network/sipping.rs")], None, ["assembled bytes"])
p("V01", "A cached licence is trusted only for its validity period",
  "A licence verdict stored on disk is used instead of asking the licence service only while it is younger than the allowed age by the clock, for the same key, and undamaged; clock jumps in either direction, crashes while storing it, and service outages never turn an invalid, expired or stale verdict into an accepted one.",
  ["fault_sequences", "crash_points", "configurations"],
  "Every sequence of validations, clock jumps, outages, crashes and cache corruptions.",
  "Tests exercise key syntax and one fresh entry; the clock is the real one.",
  ["crates/logicaffeine_verify/src/license.rs"],
  [("24-hour freshness", "crates/logicaffeine_verify/src/license.rs")], None, ["validation result", "requests made to the service"])
p("P01", "An interrupted edit by the build tool leaves the old file or the new one",
  "Whenever `largo add`, `remove`, `fmt`, `new` or `init` is interrupted by a crash, a power loss or a failing disk, each manifest and each formatted source afterwards holds either its whole previous content or its whole new content; an edit reported as successful has been made to every file it names and outlasts a later power loss. `largo add` and `remove` change nothing in the manifest but the one dependency; `new`, `init`, `fmt --check` and `clean` never alter an existing manifest or source, and `clean` reports success only when the build artifacts are gone. A failure to look at or read a file is reported and never taken for its absence.",
  ["crash_points", "fault_sequences", "histories"],
  "Every sequence of commands and edits by hand, with a crash, power loss or disk error at every file-system call.",
  "Tests run each command once on a healthy disk.",
  [CLI+"commands/deps.rs", CLI+"commands/fmt.rs", CLI+"commands/new.rs", CLI+"commands/clean.rs", CLI+"project/mod.rs"],
  [("atomic replacement", CLI+"project/mod.rs"), ("manifest editing", CLI+"commands/deps.rs")], None, ["files after each command, crash and power loss", "reported result"])
p("P02", "Registry tokens stay private, in place, and go only to their registry",
  "A token stored by `largo login` is at no instant in a file others can read, not even after a crash in the middle of storing it; it is sent only to the registry it was stored or given for. A login is stored exactly when the registry confirmed the token. Login to or logout from one registry never loses or changes the token of another, whatever disk errors, damage to the credentials file, crashes or power losses happen; a command that reported success has taken effect for good, and after one that did not the credentials are as before or as asked for.",
  ["crash_points", "fault_sequences", "histories"],
  "Every sequence of logins, logouts and publications at several registries, with outages, refusals, crashes, disk errors and damaged credentials.",
  "Tests do not log in, as there is no registry to talk to.",
  [CLI+"project/credentials.rs", CLI+"commands/publish.rs", CLI+"project/registry.rs"],
  [("owner-only credentials", CLI+"project/credentials.rs"), ("token of a registry", CLI+"project/credentials.rs: get_token")], None, ["credentials file and its permissions", "requests and their authorisation"])
p("P03", "A package is published whole and truthfully, or not at all",
  "A package `largo publish` sends to a registry contains exactly the project files that belong in it with the contents they have on disk, and its metadata states what manifest and README state; when any of them cannot be looked at or read, nothing is sent. Publishing is reported as successful exactly when the registry confirmed the package, whatever refusals, lost answers and garbled answers occur. A dry run sends nothing, and publishing never changes the developer's files.",
  ["fault_sequences", "inputs"],
  "Every project, every sequence of disk errors while it is being read, and every behaviour of the registry.",
  "Tests pack one small project from a healthy disk and publish nothing.",
  [CLI+"project/registry.rs", CLI+"commands/publish.rs"],
  [("package contents", CLI+"project/registry.rs: create_tarball"), ("registry answers", CLI+"project/registry.rs: publish")], None, ["uploaded package and metadata", "reported result"])

# ---------------------------------------------------------------- pure (not applicable)
p("N01", "The proof kernel accepts only well-typed terms",
  "No ill-typed term, and no proof of a false proposition from no assumptions, is ever accepted by the kernel.",
  ["inputs"], "Every term and every environment.", "A finite set of examples cannot cover all terms.",
  ["crates/logicaffeine_kernel/src"], [("type checker", "crates/logicaffeine_kernel/src/type_checker.rs")])
p("N02", "Every proof the engine reports checks against the kernel",
  "A derivation reported by the proof engine certifies the stated goal from the stated premises, and a refutation reported by the satisfiability procedures is correct.",
  ["inputs"], "Every goal and premise set.", "Only sample problems are tested.",
  ["crates/logicaffeine_proof/src"], [("certifier", "crates/logicaffeine_proof/src/certifier.rs")])
p("N03", "Compilation and optimisation preserve program meaning",
  "For every sequential program, the generated code, the optimised bytecode and every native tier compute what the reference interpreter computes.",
  ["programs", "inputs"], "Every sequential program and input.", "Differential suites use fixed programs.",
  [CMP+"codegen", CMP+"optimize", CMP+"vm", "crates/logicaffeine_forge/src", "crates/logicaffeine_tv/src"], [("differential suites and translation validation", "crates/logicaffeine_tv/src")])
p("N04", "Every sentence translates to the same logical form every time",
  "Translation from text to logic is a function of the text and options alone.",
  ["inputs"], "Every text.", "A finite corpus is tested.",
  ["crates/logicaffeine_language/src"], [("deterministic parser", "crates/logicaffeine_language/src/parser")])
p("N05", "The cryptographic kernels compute their standards",
  "Hashing, encryption, key exchange and signing agree with the published standards on every input.",
  ["inputs"], "Every key and message.", "Test vectors are finite.",
  [SYS+"keccak.rs", SYS+"aead.rs", SYS+"mlkem.rs", SYS+"mldsa.rs"], [("reference vectors", SYS+"mlkem.rs")])
p("N06", "Every value survives encoding and decoding unchanged",
  "Encoding a value in any wire form and decoding it gives the value back.",
  ["inputs"], "Every value and every encoder setting.", "Samples only.",
  [CMP+"concurrency/marshal.rs"], [("codec", CMP+"concurrency/marshal.rs")])
p("N07", "Formatting a source file never changes what it means",
  "Formatting is idempotent and meaning-preserving for every source text.",
  ["inputs"], "Every source text.", "Samples only.",
  ["crates/logicaffeine_language/src", "apps/logicaffeine_cli/src"], [("formatter", LSP+"formatting.rs")])

here = os.path.dirname(os.path.abspath(__file__))
with open(os.path.join(here, "..", "properties.jsonl"), "w") as f:
    for x in P: f.write(json.dumps(x, ensure_ascii=False) + "\n")
print(len(P), "properties")
