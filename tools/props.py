NOTES = "One checker (checker/, Go, golang.org/x/tools SSA) decides all properties; run.sh ID builds it when needed."
TECH = "interprocedural effect and path analysis over SSA"
NOTE = ("Path-insensitive only where it makes no difference: every obligation is a reachability question on an over-approximation of the "
        "executions of the entry points (callees inlined, goroutine closures included), so a discharged obligation holds for all inputs and "
        "schedules within the rule stated; it trusts go/types, go/ssa and the documented behaviour of the standard library, RocksDB and the OS.")
PROPS = []
def prop(id, title, statement, over, quant, why, files, mech, tech=TECH, note=NOTE, na=None):
    d = dict(id=id, title=title, statement=statement, over=over, quant=quant, why=why, files=files, mech=mech, tech=tech, note=note)
    if na:
        d["na"] = na
    PROPS.append(d)

prop("P01", "A committed block is on stable storage before the batch that describes it",
     "When a block is committed, all data appended to any shard's entry file and twig file during the block is written and synced to disk before the metadata batch describing it is written, and that batch itself is written synchronously. Data is also synced before a data file is rolled over to the next one. A failing write or sync of these files or of the batch is never taken for success.",
     ["crash_points", "schedules", "fault_sequences"], "every crash point between the first append of a block and the return of its commit, every interleaving of the flushing goroutines",
     "The tests never cut power or fail an fsync, and run one schedule of the flushing goroutines.",
     ["moeingads.go", "datatree/hpfile.go", "datatree/tree.go", "indextree/rocks_db.go"],
     [("commit of a block", "(*MoeingADS).EndWrite"), ("flush and lock hand-over", "(*HPFile).StartFlushing, WaitForFlushing, Append"), ("synchronous batch", "(*RocksDB).CloseOldBatch")])

prop("P02", "All index and metadata changes of a block reach the database in one batch",
     "The index changes, counters, sizes and roots that belong to one block are put into a single write batch, which is opened at the start of the block and written exactly once at its end, after the last of them was put in. Nothing on these paths writes to the key-value database outside that batch, and the batch is only touched while holding its lock.",
     ["crash_points", "schedules"], "every crash point within a block, every interleaving of the index workers",
     "A test sees a completed block only; a half-written one needs a crash at one point.",
     ["moeingads.go", "metadb/metadb.go", "indextree/indextree.go", "indextree/rocks_db.go"],
     [("batch life cycle", "(*MoeingADS).BeginWrite/EndWrite, (*RocksDB).OpenNewBatch/CloseOldBatch"), ("users of the batch", "(*MetaDB).*, (*NVTreeMem).Set/Delete")])

prop("P14", "Committing a block turns each cached change into exactly the right effects",
     "At the end of a block a deleted key is removed from the index and its stored version deactivated; a set key, and a key whose successor changed, gets one new version appended in its shard, the index pointed at it, and its previous version (if there was one) deactivated; an untouched key causes nothing. A key inserted and deleted within the same block leaves no trace, and new versions carry the height of the block and the height of the version before them.",
     ["inputs", "histories"], "every combination of operation, prior existence and neighbour change, for every key of a block",
     "The tests sample random workloads and compare final values; they do not look at heights, deactivations or the combinations that rarely arise.",
     ["moeingads.go"], [("commit of the cached entries", "(*MoeingADS).EndWrite")],
     tech="conditional constant propagation over the interprocedural control-flow graph, one scenario per case")

prop("P15", "Every appended version gets the next serial number of its shard, exactly once",
     "Serial numbers are handed out per shard: each version appended to a shard, in normal blocks and at creation, carries the next unused number of that shard, and that shard's counter is advanced exactly once for each number used. No number is skipped, used twice or taken from another shard's counter.",
     ["histories", "schedules"], "every sequence of blocks and every interleaving of the shards' workers",
     "Tests run one schedule and would notice only a collision that happens to break a read.",
     ["moeingads.go", "metadb/metadb.go"], [("numbering", "(*MoeingADS).EndWrite, initGuards"), ("counter", "(*MetaDB).IncrMaxSerialNum")])


prop("P06", "A data file set behaves as one append-only byte sequence",
     "Whatever was appended at an offset is what a later read at that offset returns, no matter how it is split over the write buffer, the pre-read buffer and the files of the configured block size; no appended piece is split over two files, and the reported offset is where the piece went. Truncating to a size removes exactly the bytes at and beyond it, and pruning the head removes only whole files below the given offset. Opening a directory finds exactly the files and sizes that were left there; a read that cannot be satisfied fails rather than returning other bytes.",
     ["inputs", "histories"], "every sequence of append, flush, read, truncate, prune and reopen, every block and buffer size",
     "The unit tests use a handful of block sizes and appends and rarely meet a file boundary or a refilled read buffer.",
     ["datatree/hpfile.go"], [("append and roll-over", "(*HPFile).Append"), ("reads", "(*HPFile).ReadAt, readAtWithBuf"), ("truncate, prune, reopen", "(*HPFile).Truncate, PruneHead, NewHPFile, getFileIDs")],
     tech="symbolic formula comparison and path analysis over SSA")

prop("P20", "No operation leaves a lock held, takes it twice or releases it untaken",
     "Every exported operation gives back, on every normal way out, each lock, write phase and iterator it takes, never takes one again while holding it, and never gives one back that it does not hold. The operations whose purpose is to hand a lock to their caller (write phases, iterators, read stores) take it and give it back exactly once over their documented life cycle.",
     ["schedules", "inputs"], "every path through every exported operation that takes locks",
     "A leaked or doubled lock shows on an early return or error path that tests do not take, and then as a hang under contention.",
     ["moeingads.go", "datatree/hpfile.go", "indextree/indextree.go", "indextree/rocks_db.go", "store/root.go", "store/trunk.go", "store/rabbit/simple_multi.go"],
     [("life cycles", "(*NVTreeMem).BeginWrite/EndWrite/Iterator, (*RootStore).Update, (*TrunkStore).WriteBack, (*SimpleMultiStore).Close")],
     tech="typestate analysis of locks, write phases and iterators over the interprocedural control-flow graph")

prop("P21", "Shared state is touched only under the lock that guards it",
     "Each data file's map of files, sizes and write buffer, its pre-read buffer, the buckets of cached entries, and the in-memory index are read only while their lock is held and changed only while it is held exclusively, on every path of the operations that may run concurrently. A block is written to the root store only while the store is held exclusively, and the index stays locked from the start of the write phase to its end.",
     ["schedules"], "every interleaving of the operations on shared state",
     "A race detector sees the schedules that happen; the tests hardly run these operations in parallel.",
     ["datatree/hpfile.go", "moeingads.go", "indextree/indextree.go", "store/root.go", "store/trunk.go"],
     [("file state", "(*HPFile).Append, ReadAt, PruneHead, Flush, StartFlushing"), ("entry cache", "BucketMap, BucketSet"), ("index", "NVTreeMem")],
     tech="lock-set analysis over the interprocedural control-flow graph")

prop("P28", "The workers of a phase are finished before its results are used",
     "A parallel phase starts one worker for each number from 0 to the worker count, each is reported done only after its job, and the phase ends only when all are; where workers take jobs from a common counter, each job is done by exactly one of them. The index workers carry out every queued set and removal, first entries of a shard included, before the index is taken for complete; a channel of scanned entries is always closed by its producer, after the last entry.",
     ["schedules"], "every interleaving of workers, queue producers and consumers",
     "On an idle test machine the workers nearly always win the race that a missing wait opens.",
     ["datatree/hasher.go", "moeingads.go", "datatree/entryfile.go", "datatree/tree.go"],
     [("parallel phases", "datatree.ParallelRun"), ("index workers", "(*MoeingADS).runIdxTreeJobs, flushIdxTreeJobs"), ("scan channels", "(*Tree).ScanEntriesLite, getActiveEntriesInTwig")],
     tech="join and happens-before analysis over the interprocedural control-flow graph")

prop("P07", "Every change of a shard's tree reaches its root when the block ends",
     "Appending an entry and changing an active bit mark the leaf and the 512-entry piece they touch. When the block ends, every node above a marked leaf or piece is hashed anew, each from its own two children and only after those, through the twig roots up to the root of the shard, and marks are dropped only after that. A twig that becomes full has its leaves carried up before its tree is written out and given up.",
     ["inputs", "histories"], "every set of leaves and bits changed in a block, every position in the twig, every number of twigs",
     "Tests compare roots for a few histories; a node left out shows only for particular positions changed together.",
     ["datatree/tree.go", "datatree/proof.go"],
     [("marks", "(*Tree).AppendEntry, AppendEntryRawBytes, ActiviateEntry, DeactiviateEntry"), ("propagation", "(*Tree).EndBlock, syncMTree, syncUpperNodes")],
     tech="change-propagation analysis: marks by symbolic effects, hash jobs enumerated by constant propagation over representative ranges")

prop("P08", "Hashes cover level, left and right, and the root of roots all shards in order",
     "An inner node's hash is SHA-256 over its level byte and its left and right child, a leaf's over the bytes of its entry. The hasher carries out every queued job before it forgets it. Missing nodes have the hash of an empty subtree of their level, and the root hash reported is the pairwise hash over the eight shards' roots in their order, each being what that shard's tree gave at the end of the block.",
     ["inputs", "schedules"], "every tree content, every number of queued jobs and every interleaving of the hashing workers",
     "Tests compare the code with itself; two sites that agree on a wrong scheme, or a job lost with many workers, pass.",
     ["datatree/hasher.go", "datatree/proof.go", "moeingads.go"],
     [("hash scheme", "hash2, (*hashJob).run, (*Hasher).Run"), ("null nodes", "datatree.init"), ("root of roots", "(*MoeingADS).GetRootHash")],
     tech="symbolic content comparison (byte-sequence terms) and path analysis over SSA")

prop("P10", "What is read back of an entry is what was written",
     "Decoding the bytes of an entry gives back its key, value, next key, heights, serial number and list of deactivated serial numbers, for every length and also when the content contains the magic bytes. Entries in the file are padded to 8 bytes, and reading one at its position gives its content and the position of the next entry, whether or not the list, the raw bytes or the pre-read buffer is asked for; a record without magic bytes at its start is refused. Key and serial number taken from or replaced in raw bytes agree with the full decoding.",
     ["inputs"], "every content and length of the strings, every number of list members and of magic-byte occurrences",
     "The tests use a few entries and one with magic bytes; offsets that depend on the lengths go wrong for particular combinations.",
     ["datatree/entryfile.go"],
     [("encoding", "EntryToBytes, SNListToBytes, (*EntryFile).Append"), ("decoding", "EntryFromBytes, (*EntryFile).readEntry, recoverMagicBytes"), ("raw bytes", "ExtractKeyFromRawBytes, ExtractSerialNum, UpdateSerialNum")],
     tech="abstract interpretation over byte-sequence terms and symbolic positions")

prop("P17", "Every deactivation is recorded in the entry file before its block ends",
     "Deactivating an entry clears its active bit, and no other, and puts its serial number on its shard's pending list; appending an entry sets the entry's bit (a dummy entry's stays clear) and writes and hashes exactly the pending list with it before emptying the list. A list is written before it outgrows its one-byte count, and when a block ends no shard has a deactivation that is not written, a dummy entry being appended where needed.",
     ["histories", "inputs"], "every sequence of activations, deactivations and appends, every number of deactivations between two appends",
     "The list matters only when the shard is recovered; tests seldom recover, and seldom deactivate many entries without appending.",
     ["datatree/tree.go", "moeingads.go"],
     [("pending list", "(*Tree).DeactiviateEntry, AppendEntry, AppendEntryRawBytes"), ("flushing it", "(*MoeingADS).DeactiviateEntry, flushDeactivedSNList, allShardEndBlock")],
     tech="symbolic effect comparison and reachability over the interprocedural control-flow graph")

prop("P09", "A full twig is written out once and replaced; an evicted one leaves its root",
     "A twig notes the position of its first entry when that entry is appended and nothing else moves it. The entry that fills a twig causes, once, its complete tree of entries to be written to the twig file with that position, after which a fresh empty twig follows it as the youngest; the full one stays for its active bits. An evicted twig stays usable until the end of its block, when its final root is kept in the tree of roots and then the twig, and no other, is dropped; the shared empty nodes are never changed.",
     ["histories", "inputs"], "every position of an entry in its twig, every set of twigs evicted in a block",
     "Filling one twig takes 2048 appends of one shard; the tests pass through few such moments and never combine them with eviction.",
     ["datatree/tree.go", "datatree/proof.go"],
     [("appending", "(*Tree).AppendEntry, AppendEntryRawBytes"), ("eviction", "(*Tree).EvictTwig, EndBlock")],
     tech="conditional constant propagation over the interprocedural control-flow graph, one scenario per position")

prop("P12", "Compaction moves exactly the active entries of the oldest twig, then gives it up",
     "Compacting a shard takes its oldest active twig and appends each entry that is still active there again under the shard's next serial number, deactivates the old version, and points the index at the new place; dummies and inactive entries are left behind, and positions are followed from entry to entry. Only when all have moved is that twig evicted and the next one the oldest, within the same block. The youngest twig and the one before it are never compacted, and nothing is as long as few entries are active or those kept do not outnumber the active ones by the set ratio.",
     ["histories", "inputs"], "every pattern of active bits, every kind of entry in the twig, every distance between oldest and youngest twig",
     "Compaction starts only beyond a million entries (ten thousand in debug builds); the tests hardly enter it.",
     ["moeingads.go", "datatree/entryfile.go", "metadb/metadb.go"],
     [("compaction", "(*MoeingADS).compactForShard, EndWrite"), ("scan of a twig", "(*EntryFile).GetActiveEntriesInTwig"), ("counters", "(*MetaDB).IncrOldestActiveTwigID, GetYoungestTwigID")],
     tech="conditional constant propagation and path analysis over the interprocedural control-flow graph")

prop("P11", "The twig file gives back every node of a finished twig's tree",
     "Each finished twig occupies a piece of fixed size, at its number times that size: the position of its first entry with a checksum, then the nodes 1 to 255 and the leaves 2048 to 4095 of its tree in order. Asked for any node of any twig the file returns what was appended there, or for the nodes left out the hash over the leaves that were, also when the leaves lie in two files; nodes kept for later calls are the right ones. A wrong checksum, an impossible node number, an unreadable place or a failing write is refused, never taken for a result.",
     ["inputs", "fault_sequences"], "all 4095 node numbers, every twig number, every way the piece can lie over two files, every failing read or write",
     "The unit test appends a few synthetic twigs and compares some nodes; offsets differ by range of node numbers.",
     ["datatree/twigmtfile.go"],
     [("layout", "(*TwigMtFile).AppendTwig"), ("lookup", "(*TwigMtFile).GetHashNode, getHashNodeInIgnoreRange, getLeafRange"), ("first entry", "(*TwigMtFile).GetFirstEntryPos")],
     tech="abstract interpretation over byte-sequence and hash terms, one scenario per node number")

prop("P18", "A proof collects, carries and verifies every hash from the entry to the root",
     "A proof for a serial number holds the nodes beside the way from the entry's leaf and from its byte of active bits up to the root of the shard, each taken from where the tree keeps it (the youngest twig in memory, the twig file, a twig in memory, the null twig for one that is gone), and there is none for a serial number that was not handed out. Its byte form holds the serial number, the leaf, the bits, the peers and the root, and is read back to the same proof, the side of every peer following from the serial number; bytes of an impossible length are refused. A check succeeds only if every level's hash over its two nodes in their order equals the next level's node and the last one the root; a proof is handed out only after its steps and its bytes have been checked and the entry's bytes, if given, hash to its leaf.",
     ["inputs"], "every position in a twig, number of twigs and height of the tree, every placement of the twigs in memory, and every single hash, bit or byte of a proof that may be wrong",
     "The tests take a few proofs of one tree and never alter one; a comparison left out or a side taken from a wrong bit is seen only by a forged proof or in a tall tree.",
     ["datatree/proof.go"],
     [("collect", "(*Tree).GetProof, getUpperPathAndRoot, getLeftPath, getRightPath"), ("bytes", "(*ProofPath).ToBytes, BytesToProofPath"), ("verify", "(*ProofPath).Check, CheckProof, (*Tree).GetProofBytesAndCheck")],
     tech="abstract interpretation over hash terms and structures per position and height; every comparison shown to be made and to refuse")

prop("P03", "The metadata of every shard is read back as it was last written",
     "After a commit and a reopen, the height, and for every shard the last pruned twig, the highest serial number, the oldest active twig and the root hash are what they were at the commit; the file sizes, the edge nodes and the height at which each twig begins are what was last written for that shard (and that twig), or 0, or -1 for a height, if nothing was. No two of these items share a database key, and none has a key of the index. The highest serial number and the oldest twig only ever go up by one, in their own shard, and a height is recorded for a twig exactly when its first serial number comes next.",
     ["inputs", "histories"], "every value of every item, all shards, every serial number at which a twig begins",
     "The test writes a few values into one database and reads some of them back.",
     ["metadb/metadb.go"],
     [("commit and reload", "(*MetaDB).Commit, ReloadFromKVDB"), ("direct items", "(*MetaDB).Set*/Get*"), ("counters", "(*MetaDB).IncrMaxSerialNum, IncrOldestActiveTwigID"), ("twig heights", "(*MetaDB).setTwigHeight, GetTwigHeight, DeleteTwigHeight")],
     tech="abstract interpretation over byte-sequence terms: keys, values and fields matched per shard")

prop("P05", "Recovery rebuilds the tree that was live when the last block was committed",
     "Recovering a shard cuts its files off at the recorded sizes, then puts back every entry from the oldest active twig on, in file order: each sets its active bit (a dummy does not) and its leaf (the hash of the entry with its deactivation list), clears the bits of the numbers in that list that lie in active twigs, and a full twig is finished as in a live append. The roots of the inactive twigs from the (even) last pruned one on come from the twig file, the edge nodes from their encoding, and the nodes above all of these are hashed again, so that the root is the one that was live.",
     ["inputs", "histories", "crash_points"], "every sequence of entries and deactivation lists, every position of the last pruned and the oldest active twig, everything written after the last commit",
     "The tests recover a handful of trees; most have no pruned twigs and few list entries that cross twigs.",
     ["datatree/recover.go", "datatree/tree.go"],
     [("one entry", "(*Tree).RecoverEntry"), ("scans", "(*Tree).ScanEntries, ScanEntriesLite"), ("inactive part", "(*Tree).RecoverInactiveTwigRoots, RecoverUpperNodes, EdgeNodesToBytes, BytesToEdgeNodes"), ("order of the steps", "RecoverTree, (*Tree).RecoverActiveTwigs")],
     tech="interprocedural effect analysis with conditional constant propagation, byte-sequence terms for hashes and lists")

prop("P04", "Opening an existing database gives back what was last committed",
     "Opening an existing directory loads the recorded metadata first, recovers every shard from its own recorded sizes, edge nodes and twig numbers, and refuses to go on if a recovered root differs from the recorded one. The index is then filled with exactly the active entries of every shard from its oldest active twig on, each with the place it lies at, before the call returns; with history on, this adds nothing to the history. Nothing is appended or counted.",
     ["inputs", "histories", "crash_points"], "every content of the directory, all shards, every entry of the scanned twigs",
     "A test reopens a few small databases, in which most shards look alike.",
     ["moeingads.go", "datatree/recover.go"],
     [("opening", "NewMoeingADS"), ("recovery of the shards", "(*MoeingADS).recoverDataTrees")],
     tech="interprocedural effect analysis with conditional constant propagation, one scenario per shard")

prop("P13", "Pruning removes only what neither the kept twigs nor recovery need",
     "Pruning below a height takes, in each shard, the twigs after the last pruned one up to the last twig that is known to have begun below that height, counting no twig that is still active; too few are left for later. Of the nodes in memory only those before the edge of each level go; the edge nodes are recorded with their hashes, the last pruned twig is recorded, and only the heights of the pruned twigs are forgotten, all in one batch. The entry file is cut before the first entry of the first kept twig and the twig file before the trees that recovery reads, and both only after the batch has been written.",
     ["inputs", "crash_points", "histories"], "every number of twigs pruned before and now, every position of the active twigs, every crash between the batch and the files",
     "One test prunes one shard once; an edge taken one too far, or a file cut before the batch is written, is seen only after a crash or in a tree of another shape.",
     ["moeingads.go", "datatree/tree.go"],
     [("choice and order", "(*MoeingADS).PruneBeforeHeight"), ("nodes", "(*Tree).ReapNodes, removeUselessNodes, getEdgeNodes"), ("files", "(*Tree).PruneTwigs, PruneFiles"), ("twigs in use", "(*Tree).TwigCanBePruned")],
     tech="interprocedural effect analysis with conditional constant propagation, one scenario per range of twigs")

prop("P19", "A lookup finds the newest committed version of a key, and only that",
     "Setting a key makes the index map exactly that key to the new position, deleting it makes the index map it to nothing, and looking it up gives the position it is mapped to or says that there is none; no other key is touched. Reading the entry, the entry at a height, or the proof of a key looks in the shard the key belongs to and at the position the index gives, and gives nothing for a key that is not there. Lookups are refused while a block is being written, changes are refused while none is, and deleting a key that is not there is refused.",
     ["inputs", "histories", "schedules"], "every key and position, both phases, with and without a history",
     "The tests look up the keys they have just written, in the order they wrote them.",
     ["indextree/indextree.go", "indextree/b/cppbtree/btree.go", "moeingads.go"],
     [("index", "(*NVTreeMem).Set, Delete, Get, BeginWrite, EndWrite"), ("bridge to the ordered map", "cppbtree.(*Tree).Set, Get, Delete, Len"), ("lookups", "(*MoeingADS).GetEntry, GetEntryAtHeight, GetProof, getPrevEntry")],
     tech="effects and results by conditional constant propagation over SSA, one scenario per phase, presence and kind of entry",
     note="The ordered map itself is C++ behind cgo and is taken to do what its interface says.")

prop("P22", "Every change to the index is made by the one worker its key belongs to",
     "The shard of a key depends only on its key bytes, every possible key falls into exactly one existing shard, and all changes of one key to the index go through one and the same worker's queue, chosen by a byte of that key that names an existing worker. Each worker takes its changes from its own queue only, and while a block is being committed nothing but the workers changes the index.",
     ["inputs", "schedules"], "every key, every interleaving of shard goroutines and index workers",
     "A test sees one schedule; changes of one key on two workers would reorder only rarely.",
     ["types/types.go", "moeingads.go"],
     [("assignment", "GetShardID, GetIndexChanID"), ("senders", "(*MoeingADS).EndWrite, NewMoeingADS"), ("workers", "(*MoeingADS).runIdxTreeJobs, flushIdxTreeJobs")],
     tech="value-range and symbolic comparison of every send and receive of the worker queues, over SSA")

prop("P23", "Iterators give the keys of their range, each once, in order, with its value",
     "An iterator over a range gives the first key inside the range on its side, moves by exactly one key in its own direction, and is at its end as soon as the next key is outside the range or there is none; an empty or reversed range gives nothing. Key and value are those of the place it stands at, a backward iterator never gives its upper bound, and an iterator that has ended stays so. Writers are kept out from its creation to its closing, and its memory is given back exactly once.",
     ["inputs", "histories"], "every range and content, both directions, bounds that are keys and bounds that are not",
     "The tests iterate over a few ranges; the cases of a bound that is itself a key, or of a direction change at the end, are sampled.",
     ["indextree/indextree.go", "indextree/b/cppbtree/btree.go", "indextree/rocks_db.go"],
     [("iterators", "(*NVTreeMem).Iterator, ReverseIterator, (*ForwardIterMem).*, (*BackwardIterMem).*"), ("enumerator", "cppbtree.(*Tree).Seek, (*Enumerator).Next, Prev, Close"), ("database iterators", "(*RocksDB).Iterator, ReverseIterator, (*rocksDBIterator).*")],
     tech="conditional constant propagation over SSA, one scenario per relation of the next key to the range",
     note="The ordered map itself is C++ behind cgo and is taken to do what its interface says.")

prop("P31", "The history of a key gives its value at every height that is not pruned",
     "With history on, every change of a key outside initialization puts exactly one record into the block's batch, under the key and the block's height, saying where the new version lies or that the key was deleted; records are never removed other than by pruning. A lookup at a height uses the newest record of exactly that key up to and including that height, and is refused at or below the pruned height; the index rebuilt from the history takes the newest record of every key. Pruning drops only records of heights below the pruned one, and never the one a kept height still needs.",
     ["inputs", "histories"], "every key, height, sequence of changes and pruned height",
     "The tests read back a handful of heights of a handful of keys and do not prune and compact.",
     ["indextree/indextree.go", "indextree/rocks_db.go"],
     [("records", "(*NVTreeMem).Set, Delete"), ("lookups", "(*NVTreeMem).GetAtHeight, Init"), ("pruning", "(*HeightCompactionFilter).Filter, (*RocksDB).SetPruneHeight")],
     tech="symbolic byte contents and conditional constant propagation over SSA, one scenario per kind of record")

prop("P16", "Every live key names the key that follows it, after every block",
     "At the end of a block every key that is there names as its successor the smallest greater key that is there, whatever was inserted, changed, deleted, inserted and deleted again, or only prepared in between: a key whose successor changed is given the new one, and no other successor changes. For this, preparing a key keeps the newest committed version of it (or an empty one without a number), of the key before it, and the mark of the key after it, and at the end of the block the kept entries of all buckets, each once, come together in the order of their keys before the successors are set.",
     ["inputs", "histories"], "every sequence of kinds of neighbouring entries (all of length 4, the search beyond them by loop rule), every first byte of a key",
     "The tests change random keys of a large key space, where changed keys are rarely neighbours.",
     ["moeingads.go"],
     [("successors", "(*MoeingADS).update, getPrev, getNext"), ("preparation", "(*MoeingADS).PrepareForUpdate, PrepareForDeletion, getPrevEntry"), ("order", "(*BucketMap).Store, Load, (*BucketSet).Store")],
     tech="conditional constant propagation over SSA with the loops over the entries stepped, one scenario per sequence of kinds of entries")

prop("P24", "The root store reads back what was last set, whatever its cache holds",
     "Reading a key from the root store gives the value last set for it, or nothing after it was deleted or if it was never set; the cache only ever holds that same value, is emptied of a key when the key is deleted, and is of no effect on what is read when it is full or a key may not be cached. Every set and delete of a block reaches the database below exactly once, between the begin and the end of that block and at its height, and a read at a height goes to the database at that height. An update begins one block, makes its changes in it and ends it, with readers kept out from before it begins until after it has ended.",
     ["inputs", "histories"], "every key, value, height and state of the cache, full or not",
     "The tests never fill the cache, so that eviction, and what it leaves behind, is not exercised.",
     ["store/root.go"],
     [("reading", "(*RootStore).Get, GetAtHeight"), ("writing", "(*RootStore).Set, Delete, addToCache, SetHeight, BeginWrite, EndWrite, Update"), ("construction", "NewRootStore")],
     tech="effects and results by conditional constant propagation over SSA, one scenario per state of the cache and shard")

prop("P25", "The trunk store turns its buffered changes into exactly one block",
     "A read from a trunk store sees the newest change made through it, a buffered deletion counting as absence, and otherwise what the root store has. Writing it back begins one block, hands each buffered change to the root store as the set or delete it is, waits for all of them and then ends that block, with the readers of the root store kept out all the while; closing it without write-back changes nothing below. The store cannot be used while it is written back, and a read-only one cannot be written back.",
     ["inputs", "histories"], "every mix of sets and deletes in the buffer, with and without write-back",
     "The tests close a trunk with a few keys and look at the values afterwards.",
     ["store/trunk.go", "store/cache.go"],
     [("buffer", "(*CacheStore).Get, Set, Delete, ScanAllEntries, GetValue"), ("trunk", "(*TrunkStore).Get, Update, PrepareForUpdate, PrepareForDeletion, writeBack, Close")],
     tech="effects and results by conditional constant propagation over SSA, one scenario per kind of buffered change")

prop("P26", "A transaction sees its own writes, and writes back exactly what it changed",
     "Within a transaction a slot that was written is read as written, one that was deleted is not there, and any other is taken from the store below, at the height of the transaction if it is a historical one, and kept. Every slot changed, and no other, is prepared below as the change it is, and is set or deleted below exactly once, in one update, when the transaction is closed and written back; nothing is written by a read-only transaction or before closing, and a closed one cannot be used. The store below is locked for reading exactly while a transaction is open, and the bytes a slot is stored as are turned back into the same slot.",
     ["inputs", "histories"], "every state of a slot in the cache and below, every slot content",
     "The tests write back what they wrote; slots that were only read, deleted again or read at a height are sampled at best.",
     ["store/rabbit/simple_multi.go", "store/rabbit/simple_cache.go", "store/rabbit/rabbit.go"],
     [("reads and changes", "(*SimpleMultiStore).GetCachedValue, MustGetCachedValue, SetCachedValue"), ("end", "(*SimpleMultiStore).Close, WriteBack, (*RabbitStore).CloseAndWriteBack, WriteBack"), ("format", "(*CachedValue).ToBytes, BytesToCachedValue")],
     tech="effects, byte contents and results by conditional constant propagation over SSA, one scenario per state of a slot")

prop("P27", "A key is found in its chain of slots exactly if it was set and not deleted",
     "The slots of a key are named by the repeated hashes of the key, cut to the short length with a first byte between the guards, and every operation goes through them in this order. Setting a key puts it into the slot it already has or the first free one and counts it once in every slot it passes, unless it was there already; deleting it takes these counts back and frees the slots nothing needs any more, and no others. Reading gives the value of a key whose slot is in its chain, and nothing for one that is not there or was emptied, whatever keys share the chain.",
     ["inputs", "histories"], "every chain of up to 3 (thorough: 6) slots in every state, every first byte",
     "With 8 byte slots no test ever sees two keys in one chain; the only test that does uses a shortened slot and random keys.",
     ["store/rabbit/rabbit.go", "types/types.go"],
     [("chain", "(*RabbitStore).find, GetShortKeyPath, LimitRange"), ("changes", "(*RabbitStore).Set, Delete"), ("reads", "(*RabbitStore).Get, Has")],
     tech="conditional constant propagation over SSA with the loops over the chain stepped, one scenario per chain of slot states")

prop("P29", "Every loop moves on towards its end on every way round",
     "On every way round every loop of the library something that the loop's end depends on is changed: a counter or position, the place of an iterator or reader, a queue, or a place in memory; and some way out of the loop is one that going round it leads to. So opening, scanning, looking up, iterating, committing and pruning come to an end whatever the database holds, and only the workers that wait for their queues go on for as long as these are in use.",
     ["inputs", "histories"], "every loop and every way round it, whatever the data",
     "A way round that does not move on is taken only for data the tests do not have, such as a key of another kind; a test that took it would hang, not fail.",
     ["moeingads.go", "datatree/recover.go", "datatree/tree.go", "indextree/indextree.go", "indextree/recentcache.go", "store/rabbit/rabbit.go"],
     [("opening", "(*NVTreeMem).Init, (*Tree).ScanEntries, ScanEntriesLite"), ("look-up", "(*Cache).FindFirstChangeBefore"), ("commit", "(*MoeingADS).EndWrite, update, PruneBeforeHeight")],
     tech="natural-loop analysis over SSA: backward slice of the loop's conditions, enumeration of the ways round, mod/ref sets of the callees",
     note="That a position read from the data is a later one is part of the properties of the formats (P10, P06); calls outside the module are taken to change only what their interface says.")

prop("P30", "A tree saved and loaded again is the same tree, or is refused",
     "Saving writes out what is still buffered, every active twig under its own number, every upper node under its place and every node of the youngest twig's tree, each record with a checksum over all of it, and does not end normally when a write fails. Loading gives every field back from exactly where it was written, each thing from its own file, puts every twig and node in a place of its own and takes the highest number for the youngest twig. A record with a wrong checksum, one that cannot be read, or one cut off in the middle is refused, never skipped.",
     ["inputs", "fault_sequences", "crash_points"], "every content of the tree, every failing read or write, the file ending after every field of a record",
     "The tests save and load a few small trees without faults; a field saved and loaded at the wrong place on both sides, an ignored error or a torn record do not show.",
     ["datatree/load.go", "datatree/recover.go"],
     [("records", "(*Twig).Dump, LoadTwigFromFile, (*Tree).DumpNodes, LoadNodes, DumpMtree4YT, LoadMtree4YT"), ("the whole", "(*Tree).SaveMemToDisk, LoadTree")],
     tech="abstract interpretation of the buffers: what is written and where each loaded field comes from, byte for byte; conditional constant propagation over failing reads and writes",
     note="A short read without an error is covered by the checksum only; a nodes file cut off exactly between two records cannot be told from a whole one in this format.")
prop("P34", "A scan shows every live key, and the self checks overlook nothing",
     "A scan over the whole store hands every live key over exactly once, in order, with the value of its own entry, and never one of the guards at either end; it changes nothing. The check of the chain of keys accepts a store only if every entry names the key that really follows it, up to the upper guard. The check of the hashes recomputes every node above the entries from its children, down to the hashes of the entries of the youngest twig, on every shard, accepts what fits, and does not go on after a difference.",
     ["inputs", "histories"], "every state of the index, every set of active twigs and upper nodes, every node of the youngest twig's tree",
     "The tests use the self checks as their oracle: a comparison left out, or made between the wrong things, leaves every test passing and every later defect unseen.",
     ["moeingads.go", "datatree/check.go"],
     [("scan", "(*MoeingADS).ScanAll"), ("chain of keys", "(*MoeingADS).CheckConsistency"), ("hashes", "datatree.CheckHashConsistency, (*MoeingADS).CheckHashConsistency")],
     tech="exact contents of both sides of every comparison by abstract interpretation of the buffers; order and presence of effects on all paths, one scenario per situation",
     note="The upper nodes are checked at four sample positions for each situation of their children; the nodes of the youngest twig one by one.")
prop("P35", "The key-value store does what it is asked, and what was opened is closed once",
     "Reading a key of the key-value store gives the value last written under it, or nothing if there is none, in memory that stays valid; writing and deleting, at once or through a batch, do so once, with the key and value given and as durably as asked for, and a batch takes effect as a whole when written and is refused afterwards. An empty key, a missing value or a failing operation stops the program rather than being ignored. Closing a batch, an iterator, the store or the database gives back what it holds, exactly once and never while still needed, and every iterator opened inside is closed again.",
     ["inputs", "histories", "fault_sequences"], "every key and value, every outcome of the underlying operation, every order of operations on a batch",
     "The tests use the store through the layers above and meet neither failures nor a closed batch; memory given back too early or twice shows by chance.",
     ["indextree/rocks_db.go", "indextree/indextree.go", "moeingads.go"],
     [("operations", "(*RocksDB).Get, Has, Set, SetSync, Delete, DeleteSync"), ("batches", "(*rocksDBBatch).Set, Delete, Write, WriteSync, Close, (*RocksDB).OpenNewBatch, CloseOldBatch"), ("iterators", "(*rocksDBIterator).Close and every use of an iterator"), ("closing", "(*RocksDB).Close, (*MoeingADS).Close")],
     tech="effects, options and results by conditional constant propagation over SSA, one scenario per outcome; typestate of batches and iterators over all paths",
     note="What RocksDB itself does with a correct call is trusted.")
