#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the one place the property texts are kept)."""
import json, os
OUT = os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'properties.jsonl')
P = []
def prop(id, title, statement, over, text, why, files, mech, state=None, observe=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech], "hook_needed": None}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe: a["observe_at"] = observe
    P.append({"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a})

prop("C01", "Tree nodes are only read and written inside an epoch reservation",
 "Every operation on a tree (lookup, update, delete, min/max, count, iteration, admin) holds a reservation of the current epoch, made with an allocator that nobody else uses, from before its first access to tree data until after its last one. The reservation is always withdrawn again: when the operation returns, or for a prepared update or delete when it is finalized or aborted.",
 ["schedules", "inputs", "histories"], "every operation, every path through it, every interleaving with writers recycling nodes",
 "The tests run with few goroutines and never observe a node being recycled under a reader; a missing reservation shows up only when another writer advances the epoch and reuses the node in between.",
 ["allocator.go", "radix.go", "update.go", "delete.go", "iterator.go", "counter.go", "admin.go"],
 [("startOp/endOp around every access", "allocator.go"), ("queries reserve through an allocator", "radix.go")])

prop("C02", "Memory of a removed node is never reused while somebody may read it",
 "A node is given back for reuse only after it has been unlinked from the tree, exactly once and with its real size, and is stamped with an epoch read after the unlinking. Memory given back is handed out again only when its stamp is older than every active reservation, never to two owners at once and never beyond its size. The epoch never goes backwards.",
 ["schedules", "histories"], "every sequence of node replacements in any number of allocators, every interleaving with readers",
 "The tests never check which memory a node occupies; premature reuse corrupts a reader only in a narrow interleaving.",
 ["allocator.go", "epoch.go", "update.go", "delete.go"],
 [("recycle after publish", "update.go, delete.go"), ("age check against the minimum reservation", "allocator.go newNode"), ("minimum over all reservations", "epoch.go minReservation")])

prop("C03", "Locks taken by an operation are released exactly once",
 "The write locks taken while preparing an update or delete are all released, exactly once, by finalizing or aborting it, whatever the outcome. A preparation that finds nothing, is restarted, or waits for another writer holds no lock, and a failed attempt to lock several nodes leaves none of them locked.",
 ["schedules", "histories", "inputs"], "every kind of operation, every lock conflict, nodes sharing a lock or not",
 "A leaked lock needs a conflict at a particular node, or two nodes hashing to the same lock, and shows as another writer spinning forever.",
 ["locks.go", "update.go", "delete.go"],
 [("lock/unlock families", "locks.go"), ("Finalize and Abort release what Prepare took", "update.go, delete.go")])

prop("C04", "Allocators and pooled operations are handed out to one user at a time",
 "An allocator obtained from the tree is not given to anybody else before it is released, every internal use releases it exactly once on every path, and an allocator passed in by the caller is never released by an operation. A pooled operation is put back once, by finalizing or aborting it, and not touched afterwards.",
 ["schedules", "histories"], "every operation and path, any number of goroutines",
 "Double releases corrupt another goroutine's operation only under contention; leaks block only when all allocators are gone.",
 ["slots.go", "radix.go", "allocator.go", "update.go", "delete.go", "iterator.go", "counter.go", "admin.go"],
 [("slots.get/put", "slots.go"), ("releaseAlloc", "update.go, delete.go")])

prop("C05", "The tree is changed only under the locks of all nodes involved",
 "A link between nodes is replaced only while holding the locks of the node containing the link and of every node being replaced or merged, or the root lock when the root is empty or a single key. A single stored value is changed in place only by an atomic exchange against the value observed before.",
 ["schedules"], "every structural change, every interleaving of writers",
 "Lost updates need two writers inside the same few instructions; the tests' writers hardly collide.",
 ["update.go", "delete.go", "locks.go"],
 [("lock, lock3 before publishing", "update.go, delete.go"), ("CompareAndSwap of leaves", "update.go Finalize, delete.go Finalize")])

prop("C06", "Writers never act on stale observations of the tree",
 "What an update or delete observed while descending is acted upon only if every node it goes through was reachable and unlocked when its version was taken, and the versions of the nodes it changes are unchanged when they are locked. Otherwise the operation is restarted or reports a write conflict.",
 ["schedules"], "every descent and every interleaving with writers changing the nodes on the path",
 "The windows between reading a version, a link and taking the lock are a few instructions wide; no test schedules a writer in them.",
 ["update.go", "delete.go", "locks.go"],
 [("generation read, then link re-read, then parent generation re-read", "update.go prepareUpdate, delete.go prepare"), ("lock by CompareAndSwap of the generation", "locks.go")])

prop("C07", "Nodes are complete when published and never modified afterwards",
 "When a new node becomes reachable every word of it has been written, and from then on only its child links change, by atomic writes. Its prefix and the number of its children never change.",
 ["schedules", "inputs"], "every kind of new node, every interleaving with readers",
 "Reused memory is not zero, and a reader must hit a half-built node at the right moment.",
 ["update.go", "delete.go", "radix.go"],
 [("nodes are filled before the link is stored", "update.go Finalize, delete.go Finalize")])

prop("C08", "Shared state is accessed atomically and properly aligned",
 "Memory shared between goroutines without a mutex (the root, child links, locks, epoch, reservations, pool slots, the item and block counters) is accessed only through atomic operations once the tree is in use. 64-bit atomics are always aligned, also on 32-bit platforms.",
 ["schedules", "configurations"], "every access, every supported platform",
 "The tests are not run with the race detector nor on 32-bit platforms, and plain accesses mostly work on amd64.",
 ["radix.go", "update.go", "delete.go", "locks.go", "epoch.go", "slots.go", "allocator.go", "stats.go"],
 [("sync/atomic on all shared words", "all files")])

prop("C09", "Inserting or deleting a key leaves all other keys untouched",
 "A successful insert adds exactly the given key with the given value, an update replaces exactly the value of the matched key, and a delete removes exactly the key found. All other keys keep their values and stay reachable through the same bytes, whatever node is copied, grown, shrunk, split or merged.",
 ["inputs", "histories"], "every key set, every node size, prefix length and position of the changed key",
 "The tests insert a few fixed or random key sets and mostly check the inserted keys only; sizes at which nodes change kind and long prefixes are hardly sampled.",
 ["update.go", "delete.go", "unsafe.go", "utils.go"],
 [("copy-on-write of nodes", "update.go Finalize, delete.go Finalize")])

prop("C10", "Children are kept in key order, large nodes indexed by key byte",
 "The children of a node are stored in increasing order of their key byte, each byte once, and in a full-size node every child stands at the position of its key byte. This is what lookups, ordered iteration and min/max rely on.",
 ["inputs", "histories"], "every node built by any sequence of inserts and deletes",
 "An ordering mistake at one position or size shows only for particular key bytes.",
 ["update.go", "delete.go"],
 [("insert position, addSortedChildren, scatter into node-256", "update.go")])

prop("C11", "The item count equals the number of keys",
 "A successful insert adds one to the item count, a successful delete subtracts one, and updates, aborts and failed attempts leave it unchanged. Len returns the sum over all counters, and moving a private counter into the shared one neither loses nor duplicates counts.",
 ["histories", "schedules"], "every operation outcome, any number of allocators",
 "Tests compare Len after inserts only; conflicts, aborts, deletes of each kind and counter flushes are not covered.",
 ["update.go", "delete.go", "allocator.go", "radix.go"],
 [("itemCounter, FlushStats, Len", "update.go, delete.go, allocator.go, radix.go")])

prop("C12", "Finalize reports exactly whether the change took effect",
 "Finalizing an update or delete returns true if and only if the tree was changed by it, and false only when a conflicting write was detected. An update prepared as an insert or with a different fetched key inserts, and only a matched key is overwritten.",
 ["schedules", "inputs", "histories"], "every operation kind, with and without conflicts",
 "Conflicts never happen in the single-writer tests.",
 ["update.go", "delete.go"],
 [("updated / deleted results", "update.go Finalize, delete.go Finalize")])

prop("C13", "Encoding a node or leaf word and decoding it gives back the parts",
 "Every leaf keeps its key byte and the low 55 bits of its value, every node word its key byte, address, child count (1 to 256) and prefix length (up to 255, larger ones marked). Leaves and nodes are never confused, no valid word is the empty word, and no part spills into another.",
 ["inputs"], "all values, key bytes, addresses, counts and prefix lengths",
 "Tests use small values and few addresses; high bits and the extremes of each field are never exercised.",
 ["utils.go"],
 [("buildNode, explodeNode, buildLeaf, updateLeafKey, getLeafValue, isLeaf, getNodeValue", "utils.go")])

prop("C14", "Everybody agrees on where prefix and children of a node are",
 "Whatever the prefix length (none, short, or long with its length stored separately), all code that writes, reads, skips, copies or measures a prefix uses the same layout, so that the children start right after it. The length in the node and the prefix bytes always match.",
 ["inputs"], "all prefix lengths including 0, multiples of 8, 254, 255, 256 and longer",
 "Tests store two or three prefix lengths; the boundary lengths matter at a dozen separate places.",
 ["unsafe.go", "radix.go", "delete.go", "iterator.go", "counter.go", "admin.go"],
 [("storePrefix, appendPrefix and each inline slot computation", "all files")])

prop("C15", "Each node gets exactly the memory it needs, within one block",
 "The memory reserved for a node is exactly its prefix and children, stays inside one block and never overlaps memory in use. What is left over when a larger recycled piece is used is kept for reuse, and memory is given back with the size it was reserved with.",
 ["inputs", "histories"], "all node sizes, every fill level of a block, every recycled size",
 "Overlap needs the last slots of a block or particular recycled sizes; tests only see wrong lookups much later.",
 ["allocator.go", "radix.go", "update.go", "delete.go"],
 [("newNode, allocateNode, recycle", "allocator.go")])

prop("C16", "All descents through the tree follow the same path for a key",
 "For the same tree and key, lookup, update, delete, prefix search and iteration choose the same child at every node: the one whose byte equals the key byte at the depth reached after skipping the node's prefix. A lookup only ever returns the value of that child.",
 ["inputs"], "all trees and keys",
 "The descents are separate copies of the code, tested with different, small key sets.",
 ["radix.go", "update.go", "delete.go", "iterator.go"],
 [("search, partialSearch, prepareUpdate, prepare, Iterator.Next", "radix.go, update.go, delete.go, iterator.go")])

prop("C17", "Traversals visit every key once and in order",
 "On a tree that is not changing, counting and iterating below a prefix visit every key below it exactly once, iteration in increasing order across any number of prefetch rounds, and min/max return the first and last. They stop after the last key and report when there is none.",
 ["inputs", "histories"], "all trees, prefixes, node sizes, and positions at which a prefetch round ends",
 "Tests iterate a few key sets; empty full-size nodes and rounds ending at a node boundary are not covered.",
 ["iterator.go", "counter.go", "radix.go"],
 [("Iterator.Next, storeResumePosition", "iterator.go"), ("Counter.Count", "counter.go"), ("minLeaf, maxLeaf", "radix.go")])

prop("C18", "Queries accept any key on any tree without crashing",
 "Looking up, preparing a delete, searching min/max, counting or iterating with any byte string (empty, shorter or longer than the stored keys) on any tree, including an empty one, terminates with a result and never panics or reads out of bounds.",
 ["inputs"], "all byte strings and trees",
 "Tests query keys like those inserted; empty and short keys hit other branches.",
 ["radix.go", "delete.go", "iterator.go", "counter.go"],
 [("length checks before each key byte access", "radix.go search and partialSearch, delete.go prepare")])

prop("C19", "What WriteState writes is exactly what NewTreeFromState reads",
 "Every header, section, list and number in a written state is recognised when loading, parsed in the same format, byte order and position, and restored into the state it was taken from, in an order the loader accepts. Nothing the loader depends on is left out.",
 ["inputs", "histories"], "all tree states, any number of allocators, recycled pieces and blocks",
 "No test writes or loads a state.",
 ["state.go", "allocator.go"],
 [("writeState / loadState of tree and allocator", "state.go, allocator.go")])

prop("C20", "WriteState reports every write error and always returns",
 "If any write to the given writer fails, WriteState returns a non-nil error and never reports success, and it returns, leaving no goroutine blocked, whichever write fails and however many blocks are left. The byte count includes every successful write.",
 ["fault_sequences", "schedules"], "a failure at any write, any number of blocks and CPUs",
 "No test uses a failing writer.",
 ["state.go", "allocator.go"],
 [("error checks after each write", "state.go, allocator.go"), ("compress workers, writer goroutine, channels", "state.go")])

prop("C21", "Loading a damaged state reports an error instead of crashing",
 "NewTreeFromState on truncated, malformed or inconsistent data returns an error, never panics, never sizes memory by an unchecked number, and never returns a tree together with an error it ignored.",
 ["inputs", "fault_sequences"], "all byte strings as input, failures at any read",
 "No test loads a state, let alone a damaged one.",
 ["state.go", "allocator.go"],
 [("checks of each parsed value and each read", "state.go loadState, allocator.go loadState")])

prop("C22", "A saved state contains everything a tree needs to continue",
 "After saving a stopped tree and loading it the new tree has the same keys, values, item count and allocation state: root, epoch, counters, every block in use, and for each allocator its position and recycled pieces. Counts still private to allocators and blocks just handed out are included.",
 ["histories"], "every tree state at the time of saving",
 "No test saves or loads.",
 ["state.go", "allocator.go"],
 [("writeState flushes counters, computes the number of blocks from the allocators", "state.go")])

prop("C23", "Stop excludes all operations, Start and Len restore exactly that",
 "When Stop returns no operation is running and none can start until Start is called; Start makes all allocators available again, exactly once. Calls of Stop, Start, Len and Close in any order and from several goroutines never release an allocator in use, Close ends the goroutine preparing memory only when no operation can wait for it, and Len gives the same answer on a stopped tree and leaves it stopped.",
 ["schedules", "histories"], "all call sequences and interleavings of Stop, Start, Len, Close and operations",
 "Tests never call Stop or Start, nor Len concurrently.",
 ["radix.go", "admin.go", "slots.go"],
 [("stopLock, stopped, withdrawAllocators, releaseAllocators", "radix.go")])

prop("C24", "Queries never modify the tree; Lookup allocates no memory",
 "Lookup, min/max, counting, iterating and statistics never write to the tree's nodes, root, locks or counters, and take no write lock. Lookup performs no heap allocation.",
 ["inputs", "schedules"], "every query, every tree",
 "Tests check results only; a stray write or allocation in a rare branch is invisible.",
 ["radix.go", "iterator.go", "counter.go", "stats.go", "allocator.go"],
 [("read-only code below the query entry points", "radix.go, iterator.go, counter.go, stats.go")])

prop("C25", "Reused operation and iterator objects carry nothing over",
 "Update and delete operations and iterators are pooled. Whatever an object was used for before, a new operation or iteration behaves as with a fresh object: every piece of state it reads or exposes to the caller was set by itself.",
 ["histories"], "every sequence of operations reusing the same object",
 "Tests reuse objects for similar operations only, so leftovers happen to fit.",
 ["update.go", "delete.go", "iterator.go", "counter.go"],
 [("fields set when preparing, Reset", "update.go prepareUpdate, delete.go prepare, iterator.go Reset")])

prop("C26", "Key bytes given by the caller are never written or kept",
 "No operation writes into a key or prefix passed in by the caller, and no stored data refers to it afterwards: the tree copies what it needs. Only a prepared update refers to the key, until it is finalized or aborted.",
 ["inputs", "histories"], "all operations and inputs",
 "Tests use fresh keys and never check them afterwards.",
 ["update.go", "delete.go", "radix.go", "iterator.go", "counter.go", "unsafe.go"],
 [("copies by storePrefix and append into own buffers", "unsafe.go, iterator.go")])

prop("C27", "Node storage contains no pointers",
 "Nodes, leaves and recycled memory are kept in memory without Go pointers, so the garbage collector never scans it and it can be saved and loaded as raw bytes at any address. No pointer is ever hidden in it as a number.",
 ["configurations", "inputs"], "all stored data, all build configurations",
 "A pointer in node memory works until a garbage collection or a reload.",
 ["radix.go", "allocator.go", "unsafe.go"],
 [("[]uint64 blocks, recycledItem", "radix.go, allocator.go")])

prop("C28", "All block size configurations are consistent",
 "With every supported build configuration (2, 8 or 16 MiB blocks, 64- and 32-bit platforms) node addresses fit the bits reserved for them, block and offset parts cover an address exactly, lock indices stay inside the lock table, and the largest node fits a block. The saved state tells configurations apart.",
 ["configurations"], "every build configuration",
 "Tests run only the default configuration.",
 ["blocksize.go", "blocksize8.go", "blocksize16.go", "radix.go", "utils.go", "locks.go", "state.go"],
 [("constants derived from the block size shift", "radix.go")])

prop("C29", "Each data block is handed out once and exists before it is used",
 "Every block is given to exactly one allocator, after its memory has been created and made visible, in increasing order starting with the first free one, also after loading a state. The goroutine handing out blocks ends when the tree is closed.",
 ["schedules", "histories"], "any number of allocators asking for blocks at any time",
 "Tests need at least one block per allocator but cannot see a block handed out twice until keys are lost.",
 ["radix.go", "allocator.go", "state.go"],
 [("blockAllocator", "radix.go"), ("receive from newBlocks", "allocator.go")])

prop("C30", "Diagnostic commands and descriptions never change or crash a tree",
 "The admin commands, statistics and textual descriptions of operations can be used at any time, with any arguments, on any tree: they do not modify it, they leave all allocators available, and they never panic.",
 ["inputs", "schedules"], "all arguments and trees",
 "No test calls them.",
 ["admin.go", "stats.go", "update.go", "delete.go", "allocator.go"],
 [("Admin, debugPrintNode, Stats, String, printStats", "admin.go, stats.go, update.go, delete.go, allocator.go")])

prop("C40", "Concurrent operations are linearizable",
 "Every concurrent history of lookups, updates and deletes is equivalent to some sequential order of the same operations that respects real time.",
 ["schedules", "histories"], "all concurrent histories", "Tests run few goroutines on disjoint keys.",
 ["update.go", "delete.go", "radix.go"], [("generation locks and copy-on-write", "locks.go")])
prop("C41", "Iteration under concurrent changes sees every stable key exactly once",
 "While other goroutines insert and delete, an iteration returns every key that is present throughout exactly once and in order.",
 ["schedules", "histories"], "all interleavings of an iteration with writers", "Tests do not change the tree while iterating.",
 ["iterator.go"], [("resume position", "iterator.go")])
prop("C42", "Memory stays proportional to the number of keys",
 "The memory used stays within a constant factor of what the stored keys need, whatever the order of inserts and deletes.",
 ["histories"], "all histories", "Tests print memory statistics without a bound.",
 ["allocator.go"], [("recycling", "allocator.go")])
prop("C43", "Every operation eventually completes",
 "No operation is restarted forever: among conflicting writers one always makes progress and every retry loop ends.",
 ["schedules"], "all fair schedules", "Tests end when they end.",
 ["update.go", "delete.go", "slots.go"], [("retry with Gosched", "update.go, delete.go")])

with open(OUT, 'w') as f:
    for p in P:
        assert len(p["title"]) <= 80, p["title"]
        f.write(json.dumps(p, ensure_ascii=False) + "\n")
print(len(P))
