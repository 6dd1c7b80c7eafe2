PTS = "points-to and effect analysis over the SSA form"
ENG = "abstract interpretation of the SSA form (symbolic words and addresses, linear inequalities, array segments, quantified facts; loops by anti-unification to a fixpoint)"
CLAIMS = {
"C08": (PTS + ", 32-bit layout computation", "Every access in the package to a shared cell is classified; sound up to the points-to abstraction (field based, flow insensitive). Trusts go/types and x/tools/go/ssa."),
"C19": ("extraction and comparison of writer and reader tables from the SSA form", "Compares every header, verb, list, byte order and target; relations between sections beyond order and origin are not modelled."),
"C20": ("path-sensitive error and byte-count flow, channel/goroutine structure analysis", "All paths from each write to the return; goroutine rules are structural (drained, closed, waited for)."),
"C21": ("path-sensitive error flow, taint analysis of parsed numbers", "Every fallible call and every size or index computed from input in the loader; consistency of well-formed but wrong contents (e.g. a root pointing outside) is not decided."),
"C22": ("origin analysis of everything saved against everything restored", "Everything a constructor sets up is saved and restored or derivable; counts and blocks not yet visible are included."),
"C24": (PTS + "; allocation sites confirmed by the compiler's escape analysis", "No write to tree cells reachable from any query; no allocation reachable from Lookup."),
"C26": (PTS, "Neither writes into nor lasting references to caller slices."),
"C27": ("type and conversion analysis of everything reaching node storage", "All stores to node storage and recycled items."),
"C01": (ENG + ": reservation typestate; " + "origin analysis of reservation slots and their owners", "Every abstract path of updates and deletes, Lookup, Count, MinKey, MaxKey, Iterator.Next and the diagnostics, on Tree and Allocator; and how reservations and their owners are wired together where a tree is made."),
"C02": (ENG + ": retirement rules at every recycle and publication", "What the operations retire, when and with which size and epoch; which recycled node newNode hands out, given every reservation; that the lowest reservation is taken over all slots of the tree."),
"C03": (ENG + ": lock typestate", "Every abstract path from Prepare to Finalize or Abort, of all queries and diagnostics; locks are modelled per address."),
"C04": (ENG + ": handout typestate of allocators and pooled operations", "Every abstract path of GetAllocator, ReleaseAllocator, the operations, queries and diagnostics; that every allocator has its own flag and reservation slot where a tree is made; pooled objects are given back once."),
"C05": (ENG + ": locks held at every publication", "Every atomic write to the tree reachable from the operations."),
"C06": (ENG + ": observation and generation facts at every publication", "Every publication: each replaced word and each node on the way to it was read under an unlocked generation that is still the same when locked."),
"C07": (ENG + ": array segments of every published node", "Every published node is written completely and not written afterwards."),
"C09": (ENG + ": change of the key set at every publication", "Every publication is one of the changes of a radix tree that add, replace or remove exactly one key; contents compared symbolically."),
"C10": (ENG + ": order facts of every published node", "Children in increasing key order, each in its slot for full nodes, for every published node."),
"C11": (ENG + ": ghost counter of keys", "Every path of Finalize and Abort: counter changes agree with what was published; FlushStats and Len move and sum every counter; saved and restored."),
"C12": (ENG + ": result of Finalize against publications", "Every path of Finalize."),
"C14": (ENG + ": layout of nodes read and written", "Every access to a node part, every published node; every child read through the prefix length."),
"C15": (ENG + ": sizes requested, written and given back", "Every node allocated, written or given back by the operations; newNode and allocateNode from an allocator of unknown state."),
"C16": (ENG + ": path facts at every publication and result", "The word replaced or reported is the one reached by the bytes of the key."),
"C17": (ENG + ": subtrees owed, delivered and in order", "Count, MinKey, MaxKey and Iterator.Next (first, cached, resumed and finished rounds, with the bytes of the key to resume at) in a tree of unknown shape; recursive searches by induction; concurrent changes excluded (C41)."),
"C30": (ENG + ": bounds, effects and what is left behind; " + PTS, "Admin with unknown arguments, Stats, and String on every operation that can be open."),
"C18": (ENG + ": bounds and panics", "Every index, slice and explicit panic reachable from the queries, PrepareUpdate and PrepareDelete with keys within the documented limits."),
"C25": (ENG + ": definedness of fields of pooled objects", "Every field of a pooled operation read or exposed was set by this operation; a new or reset iterator has nothing left of the previous iteration."),
"C13": ("symbolic composition of encoders and decoders, bit-level term rewriting over the SSA form", "All words, exact: each decoder applied to each encoder is rewritten to the part it stands for."),
"C23": ("lock and channel typestate over Stop, Start, Len and Close", "All paths; trusts sync.Mutex and the slot array; Len also by abstract interpretation."),
"C28": ("type checking and constant evaluation under every build configuration", "Six GOARCH/tag combinations; every constant-dependent shift, mask, array size and conversion."),
"C29": ("path analysis of block allocation and growth", "All paths of the block allocator and of taking a block."),
}
NA = {
"C40": "needs an argument over complete concurrent histories; the static rules C01-C07 decide its ingredients (locking, validation, atomic publication) but composing them into linearizability is beyond a static analysis here",
"C41": "depends on runtime interleavings of an iteration with writers; also known not to hold when the resume subtree collapses to a leaf (see DESIGN.md)",
"C42": "bounds a runtime quantity (fragmentation) that no static argument in reach can bound",
"C43": "a liveness property of optimistic retry loops under fair schedules; no static argument in reach",
}
