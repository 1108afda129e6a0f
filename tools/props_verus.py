PROPS=[];TECH={};CHECKS={}
NOTE="exploration: the repository's Verus specification text (state machines, spec functions, lemma statements) runs on a purpose-built executor; generated histories and near misses are compared with independent JavaScript definitions"
WHY="These are specification-level state machines that no test executes; a wrong guard, effect or interpretation only shows on particular histories."
TT="model-based stateful property testing of executed specifications: independent transition relation, near-miss perturbation, refinement checked along generated histories"
def P(id,title,statement,files,mech,over=("histories",),text="all histories of transitions and all near misses of their steps",why=WHY,tech=TT,note=NOTE):
    PROPS.append(dict(id=id,title=title,statement=statement,over=list(over),text=text,why=why,files=["Splinter/src/"+f for f in files],mech=[(n,"Splinter/src/"+w) for n,w in mech]));TECH[id]=tech;CHECKS[id]=note
P("V01","Splinter's trusted specification admits exactly the user-visible behaviours",
  "Keys are ordered numerically with Max above all and searches over sorted runs return the right index; merging messages is associative with the newest definition winning. The map, the asynchronous map (requests, executions, replies) and the crash-tolerant map (versions, sync requests, crashes) accept exactly the steps of that protocol: a query returns the mapped value, a put changes one key, a reply answers its own request once, a sync is acknowledged only once its version is stable, and a crash falls back to the stable version and forgets pending work.",
  ["spec/"+f for f in ("KeyType_t.rs","Messages_t.rs","TotalKMMap_t.rs","FloatingSeq_t.rs","MapSpec_t.rs")],
  [("map machines","spec/MapSpec_t.rs: MapSpec, AsyncMap, CrashTolerantAsyncMap"),("keys and messages","spec/KeyType_t.rs; spec/Messages_t.rs"),("versions","spec/FloatingSeq_t.rs")],over=("histories","crash_points"))
P("V02","Splinter's abstract journal and map together implement the crash-tolerant map",
  "A message history holds exactly one message per sequence number of its range, and concatenating, discarding and replaying it do what those words say, in one piece or several. The abstract journal, map and their crash-tolerant versions accept exactly the protocol's steps (put, query, freeze, commit, crash). Along every history of the coordination system its invariant holds, its interpretation is the list of versions from the last durable one to the newest, and each step refines a step of the crash-tolerant asynchronous map.",
  ["abstract_system/"+f for f in ("MsgHistory_v.rs","StampedMap_v.rs","AbstractJournal_v.rs","AbstractMap_v.rs","AbstractCrashAwareJournal_v.rs","AbstractCrashAwareMap_v.rs","AbstractCrashAwareSystem_v.rs","AbstractCrashAwareSystemRefinement_v.rs")],
  [("histories","abstract_system/MsgHistory_v.rs"),("components","abstract_system/AbstractJournal_v.rs, AbstractMap_v.rs, AbstractCrashAwareJournal_v.rs, AbstractCrashAwareMap_v.rs"),("composition and refinement","abstract_system/AbstractCrashAwareSystem_v.rs; AbstractCrashAwareSystemRefinement_v.rs: i, inv, next_refines")],over=("histories","crash_points"))
P("V03","Every layer of Splinter's journal holds the same message history",
  "In the paged, linked, reference-counted, allocating and crash-tolerant journals, the readable history is the messages put so far, from the truncation point to the newest one: writing out a prefix of the tail, truncating old messages, growing or shrinking the allocator and internal steps never change a message that must stay readable; a reader sees exactly the stored messages, and a frozen journal holds exactly the history up to the frozen point. Every well-formed step of that protocol is possible. Truncation keeps the records the rest needs and gives back only units no longer in use; a new record goes only to a page no live or frozen journal uses. A crash falls back to the committed image and reloads it. Each layer's abstraction is that history.",
  ["journal/"+f for f in ("PagedJournal_v.rs","PagedJournalRefinement_v.rs","LinkedJournal_v.rs","LinkedJournalRefinement_v.rs")]+["allocation_layer/"+f for f in ("LikesJournal_v.rs","LikesJournalRefinement_v.rs","AllocationJournal_v.rs","AllocationJournalRefinement_v.rs","MiniAllocator_v.rs","AllocationCrashAwareJournal_v.rs","AllocationCrashAwareJournalRefinement_v.rs","UnifiedCrashAwareJournal_v.rs","UnifiedCrashAwareJournalRefinement_v.rs")],
  [("records and pages","journal/PagedJournal_v.rs; journal/LinkedJournal_v.rs: TruncatedJournal, DiskView, transitions"),("indexes and allocation","allocation_layer/LikesJournal_v.rs; AllocationJournal_v.rs: indexes, transitions; MiniAllocator_v.rs"),("crash tolerance","allocation_layer/AllocationCrashAwareJournal_v.rs; UnifiedCrashAwareJournal_v.rs")],over=("histories","crash_points"))
P("V04","Splinter's betree layers answer every read with the same key-value map",
  "In the paged, pivot, filtered, linked (nodes and buffers at disk addresses), reference-counted and allocating betrees, a key's value is the newest messages over the older ones along the key's path, and flushing the memtable, growing, splitting, flushing, compacting and freeing never change what any key reads; a query step accepts exactly the value the tree holds and a freeze step exactly the current tree. Every tree reached is well formed: sorted pivots, matching children, no dangling or cyclic pointers, a root covering every key, fresh addresses, nothing on disk changed in place, counts equal to the references the tree really has. The buffers, pivot tables, offsets, domains and memtables they are built from compute what their names say, and each layer's interpretation as the one above is the same tree.",
  ["betree/"+f for f in ("Buffer_v.rs","BufferSeq_v.rs","BufferOffsets_v.rs","OffsetMap_v.rs","PivotTable_v.rs","Domain_v.rs","Memtable_v.rs","LinkedSeq_v.rs","BufferDisk_v.rs","PagedBetree_v.rs","PagedBetreeRefinement_v.rs","PivotBetree_v.rs","PivotBetreeRefinement_v.rs","FilteredBetree_v.rs","FilteredBetreeRefinement_v.rs","LinkedBetree_v.rs","LinkedBetreeRefinement_v.rs")]+["allocation_layer/"+f for f in ("LikesBetree_v.rs","LikesBetreeRefinement_v.rs","AllocationBetree_v.rs","AllocationBetreeRefinement_v.rs")],
  [("trees in memory","betree/PagedBetree_v.rs; PivotBetree_v.rs; FilteredBetree_v.rs: BetreeNode, QueryReceipt, Path, transitions"),("trees on disk","betree/LinkedBetree_v.rs: DiskView, LinkedBetree, transitions"),("counting and allocation","allocation_layer/LikesBetree_v.rs; AllocationBetree_v.rs")],
  text="all histories of tree operations on generated trees of up to four levels and seven keys, and near misses of every step")
P("V05","A branch of the Splinter tree is the sorted map of messages put into it",
  "A branch (the B+ tree that holds one buffer), in memory or laid out on disk pages, answers a query with the message last stored under that key and the no-op message otherwise, contains a key exactly when it stores it, and represents exactly those rows; inserting, appending, growing and splitting change only what they name and keep keys sorted, children in range and pages unshared. A branch under construction takes pages only from its own allocator, accepts exactly the well-formed building steps, and once sealed reports exactly the allocation units it occupies and can no longer be changed.",
  ["betree/"+f for f in ("PivotBranch_v.rs","PivotBranchRefinement_v.rs","LinkedBranch_v.rs","LinkedBranch_v/Refinement_v.rs")]+["allocation_layer/"+f for f in ("AllocationBranch_v.rs","MiniAllocator_v.rs")],
  [("branch in memory","betree/PivotBranch_v.rs: Node, Path"),("branch on pages","betree/LinkedBranch_v.rs: LinkedBranch, DiskView, Path"),("construction","allocation_layer/AllocationBranch_v.rs: build_next, BranchNode; MiniAllocator_v.rs")],
  text="all histories of branch operations on generated trees of up to sixteen nodes, and near misses of every step")
P("V06","The running Splinter program over its disk is a crash-tolerant map",
  "Along every history of client requests, replies, sync requests, program steps, disk steps and crashes, the Splinter program running over its asynchronous disk stands for the list of versions from the durable one to the newest, and each step is the matching step of the crash-tolerant asynchronous map. Execution answers with the newest value and changes at most the written key; a sync is acknowledged only once its version is durable; recovery restores exactly the version in the superblock; nothing is written before recovery completes. The disk answers each outstanding request once, with the content then stored, and changes content only by processing a write. Steps that break this protocol are rejected and its invariants hold throughout.",
  ["trusted/SystemModel_t.rs","trusted/ProgramModelTrait_t.rs","trusted/RefinementObligation_t.rs","spec/AsyncDisk_t.rs"]+["implementation/"+f for f in ("AtomicState_v.rs","ConcreteProgramModel_v.rs","ModelRefinement_v.rs","DiskLayout_v.rs","MultisetMapRelation_v.rs")],
  [("system","trusted/SystemModel_t.rs: transitions, label_correspondence"),("program","implementation/AtomicState_v.rs; implementation/ConcreteProgramModel_v.rs"),("disk","spec/AsyncDisk_t.rs: AsyncDisk"),("refinement","implementation/ModelRefinement_v.rs: inv, i, i_lbl; trusted/RefinementObligation_t.rs")],over=("histories","crash_points"),
  text="all histories of system steps with crashes, over a four-key map, and near misses of every step")
P("V07","Splinter's cached journal over cache and disk keeps every message readable",
  "The page cache maps each cached address to exactly one slot, answers reads with the page last written or loaded, has at most one request outstanding per page, calls a page clean only when the disk holds its content, and evicts only clean pages; exactly the well-formed cache steps are accepted. The journal kept in it finds every earlier record through its index, lets readers see exactly the messages of a record above the boundary, and on marshalling and discarding changes only what those steps name. Over cache and asynchronous disk together its invariant holds, it stands for the journal of all messages put and not discarded, each step is a step of that journal, and a frozen journal is entirely on disk, so that starting over from it after a crash restores exactly its messages.",
  ["implementation/"+f for f in ("Cache_v.rs","CachedJournal_v.rs","JournalCoordinationSystem_v.rs","JournalCoordinationRefinement_v.rs","JournalModel_v.rs")],
  [("cache","implementation/Cache_v.rs: Cache"),("journal","implementation/CachedJournal_v.rs: CachedJournal, build_lsn_addr_index_from_reads"),("composition","implementation/JournalCoordinationSystem_v.rs: transitions, inv, ephemeral_tj"),("refinement","implementation/JournalCoordinationRefinement_v.rs: i, tj_at; implementation/JournalModel_v.rs: LikesJournal")],over=("histories","crash_points"),
  text="all histories of cache, journal and disk steps with crashes, on up to four cache slots and 22 messages, and near misses of every step")
