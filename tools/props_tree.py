PROPS=[];TECH={};CHECKS={}
NOTE="exploration: the repository's Dafny definitions run on a purpose-built Dafny interpreter; thousands of generated histories per run, driven and judged by independent JavaScript models"
def P(id,title,statement,files,mech,over=("histories",),text="all histories of operations",why="Nothing executes these definitions; a wrong transition only shows for particular trees, keys and orders of steps.",tech="model-based stateful testing: legal and perturbed transitions judged by an independent model",note=NOTE):
    PROPS.append(dict(id=id,title=title,statement=statement,over=list(over),text=text,why=why,files=list(files),mech=mech));TECH[id]=tech;CHECKS[id]=note
B="Betree/"
P("P01","Every step of the abstract B-epsilon tree keeps what each key reads as",
  "In the abstract B-epsilon tree an insert changes the value of its key and no other, a clone makes the keys with the new prefix read as the old ones did, and flushes, growth, redirects and collecting unreachable nodes change no key's value; lookups and range queries only return what the tree holds. Every such step is accepted, and any step accepted keeps the tree closed, acyclic and with an answer for every key. Asynchronous queries that walk down while the tree changes return the value the key had when they began. The interpretation as a map gives each key its value.",
  [B+f for f in ("BetreeSpec.i.dfy","Betree.i.dfy","BetreeInv.i.dfy","Betree_Refines_Map.i.dfy","AsyncBetree.i.dfy","AsyncBetree_Refines_AsyncMap.i.dfy","BlockInterface.i.dfy","Graph.i.dfy","Transactable.i.dfy","QueryState.i.dfy")],
  [("steps",B+"BetreeSpec.i.dfy, Betree.i.dfy"),("graph and transactions",B+"Graph.i.dfy, BlockInterface.i.dfy, Transactable.i.dfy"),("invariant and map view",B+"BetreeInv.i.dfy, Betree_Refines_Map.i.dfy"),("asynchronous queries",B+"AsyncBetree.i.dfy, QueryState.i.dfy")],
  text="all histories of tree steps, with any keys, messages and renamings")
Q="PivotBetree/"
P("P02","Every step of the pivot tree keeps what each key reads as",
  "In the tree of nodes with pivots, buckets and child translations, an insert changes the value of its key and no other, a clone makes keys with the new prefix read as the old ones did, and flush, grow, split, merge, repivot and collecting unreachable nodes change no key's value. Such steps, taken with well-formed nodes within the weight bounds, are accepted, and any accepted step keeps every reachable node well formed, the tree acyclic and the values right. Lookups and successor queries only return what the tree holds. The interpretation as an abstract tree reads the same for every key, and each step is one or more steps of that tree.",
  [Q+f for f in ("PivotBetreeSpec.i.dfy","PivotBetree.i.dfy","PivotBetreeSpecRefinement.i.dfy","PivotBetree_Refines_Betree.i.dfy","PivotBetree_Refines_Map.i.dfy","PivotBetreeGraph.i.dfy")],
  [("steps",Q+"PivotBetreeSpec.i.dfy, PivotBetree.i.dfy"),("views as abstract tree and map",Q+"PivotBetreeSpecRefinement.i.dfy, PivotBetree_Refines_Betree.i.dfy, PivotBetree_Refines_Map.i.dfy")],
  text="all histories of tree steps, with any keys, messages, pivots and translations")
K="BlockCacheSystem/"
P("P03","The block cache and disk keep three whole versions of the block graph",
  "The model of the block cache over its disk keeps three versions of the graph of blocks: the durable one a restart would read, the frozen one being made durable, and the working one. A step of the cache or disk that reads, writes back, evicts, marks clean, or completes disk requests in any order changes none of them; dirtying and allocating change only the working version, as requested; freezing makes the frozen version the working one; the durable version becomes the frozen one only when its superblock location is told to have been adopted, and a crash leaves exactly the durable one. Ordinary cache steps meeting their conditions are accepted, and steps that would overwrite blocks the durable or frozen version uses, evict unwritten changes or finish a freeze before its blocks are written are refused.",
  [K+f for f in ("BlockCache.i.dfy","BlockDisk.i.dfy","BlockSystem.i.dfy","DiskLayout.i.dfy","BlockSystem_Refines_StatesView.i.dfy")],
  [("cache steps",K+"BlockCache.i.dfy"),("disk requests and crash",K+"BlockDisk.i.dfy"),("three versions of the graph",K+"BlockSystem.i.dfy, BlockSystem_Refines_StatesView.i.dfy")],
  text="all histories of cache steps, disk completions and crashes")
P("P05","The journal on disk survives crashes and syncs finish only when durable",
  "The model of the journal cache over its disk (a ring of blocks and two superblocks) keeps every message in order through any interleaving of new messages, replay, freezing, journal and superblock writes that complete in any order, and crashes that may destroy blocks still being written. Written ranges that wrap around the ring read back whole; a write never touches blocks the durable or frozen journal uses; the durable journal and table location change only when a new superblock takes effect, to all that was written, or to the frozen journal and table; a crash leaves exactly the durable ones and a restart loads them whichever superblock holds the later count, wrap of the counter included. A sync is answered only when every message put before it is durable. Steps meeting their conditions are accepted and others refused; the intervals of the ring and the stored form of entries mean what their names say.",
  [K+f for f in ("JournalCache.i.dfy","JournalDisk.i.dfy","JournalSystem.i.dfy","JournalInterval.i.dfy","JournalRange.i.dfy","JournalSystem_Refines_JournalView.i.dfy")],
  [("journal cache steps",K+"JournalCache.i.dfy"),("ring and superblocks",K+"JournalDisk.i.dfy, JournalInterval.i.dfy, JournalRange.i.dfy"),("what the states stand for",K+"JournalSystem.i.dfy, JournalSystem_Refines_JournalView.i.dfy")],
  text="all histories of journal steps, disk completions and crashes, on rings of any size")
X_="examples/log/"
P("E02","The write-ahead log keeps what was flushed across any crash",
  "The log kept over a disk (a superblock holding a length, and one block per element) loses nothing that a flush made durable and invents nothing. Appending, staging elements to disk, fetching after a restart and queries leave the durable log alone; a flush makes the current log durable in one step; a crash at any point leaves exactly the durable log. Queries answer from the current log, every such step is accepted, and any accepted step is a step of the crash-safe log.",
  [X_+f for f in ("DiskLog.dfy","Disk.dfy","DiskLogSystem.dfy","DiskLogSystemInv.dfy","LogSpec.dfy","CrashSafeLog.dfy","DiskLogSystemCrashSafeLogRefinement.dfy")],
  [("log steps",X_+"DiskLog.dfy, Disk.dfy, DiskLogSystem.dfy"),("durable and current log",X_+"CrashSafeLog.dfy, LogSpec.dfy, DiskLogSystemCrashSafeLogRefinement.dfy")],
  text="all histories of log operations, disk steps and crashes")
L_="lib/Lang/"
P("N01","What is assumed of native operations is true and pins their results",
  "The operations the verified code trusts without proof (copying and comparing arrays, packing and unpacking integers, wrapping addition, checksum and 128-bit intrinsics, linear sequences and options, removing a map key) carry contracts that match what they do: a call that makes sense is allowed and one out of range is not, the right result meets the contract, and a result that differs anywhere it matters does not. Native integer types hold exactly the values of their machine width.",
  [L_+"System/NativeArrays.s.dfy","lib/Marshalling/Native.s.dfy",L_+"System/PackedInts.s.dfy",L_+"System/Arithmetic.s.dfy",L_+"System/Bits.s.dfy",L_+"System/F2_X.s.dfy",L_+"LinearSequence.s.dfy",L_+"LinearMaybe.s.dfy",L_+"NativeTypes.s.dfy","lib/Base/MapRemove.s.dfy"],
  [("array contracts",L_+"System/NativeArrays.s.dfy, lib/Marshalling/Native.s.dfy"),("packing contracts",L_+"System/PackedInts.s.dfy"),("arithmetic and intrinsics",L_+"System/Arithmetic.s.dfy, Bits.s.dfy, F2_X.s.dfy"),("linear values",L_+"LinearSequence.s.dfy, LinearMaybe.s.dfy"),("machine integers",L_+"NativeTypes.s.dfy")],
  over=("inputs",),text="all arguments, and all results an operation could give",
  why="A false or too weak assumption makes every proof above it worthless, and no proof or test checks it.",
  tech="property-based testing: each contract judged on right and wrong results from an independent model")
D_="Splinter/CoordinationLayer/"
P("D01","Map and journal together serve one crash-tolerant map",
  "A durable map and a durable journal of messages, with their in-memory copies and commits in flight, together stand for a sequence of versions of one key-value map, from the last durable one to the newest. Puts append one version, queries answer from the newest, recovery and internal steps change nothing visible, a commit moves the durable point forward over versions already there, and a crash leaves exactly the durable version. A sync request is answered only once the version it saw is durable. Each step is the one step of the crash-tolerant map specification that its label names, and the specification refuses labels that do not describe the step. Stale queries, early sync replies, commits that lose or invent messages and replay of the wrong messages are refused.",
  [D_+f for f in ("CoordinationSystem.i.dfy","CoordinationSystemRefinement.i.dfy","CrashTolerantMap.i.dfy","CrashTolerantJournal.i.dfy","AbstractMap.i.dfy","AbstractJournal.i.dfy","MsgHistory.i.dfy","StampedMap.i.dfy")]+["Spec/CrashTolerant.s.dfy","Spec/Async.s.dfy","Spec/MapSpec.s.dfy","lib/Base/FloatingSeq.s.dfy"],
  [("steps",D_+"CoordinationSystem.i.dfy, CrashTolerantMap.i.dfy, CrashTolerantJournal.i.dfy"),("versions a state stands for",D_+"CoordinationSystemRefinement.i.dfy, MsgHistory.i.dfy"),("specification","Spec/CrashTolerant.s.dfy, Async.s.dfy, MapSpec.s.dfy")],
  text="all histories of requests, puts, queries, commits, syncs, recoveries and crashes")
S_="Splinter/Journal/";Q_="Splinter/Betree/"
P("D02","The journal on pages keeps exactly the messages between its ends",
  "A journal of messages kept as a chain of records, from records held as values down through records linked by address on a disk, with a reference count beside them, to a set of allocated pages, stands at every layer for one sequence of messages between two positions. Appending adds exactly the new messages, moving part of the unwritten tail to a record changes nothing a reader sees, reading a range gives those messages, discarding old ones keeps the rest, freezing for a commit gives exactly the asked part, and a loaded copy is the one that was stored. Records reachable from the head stay on the disk and unreachable ones are dropped by the layers that count them, the chain has no cycle, fresh addresses are free, and each layer's step is the one step of the layer above that its label names. Any other step is refused.",
  [S_+f+".i.dfy" for f in ("PagedJournal","LinkedJournal","LikesJournal","ReprJournal","PagedJournalRefinement","LinkedJournalRefinement","LikesJournalRefinement","ReprJournalRefinement")]+[D_+"MsgHistory.i.dfy","Splinter/Disk/GenericDisk.i.dfy"],
  [("records",S_+"PagedJournal.i.dfy, PagedJournalRefinement.i.dfy"),("links",S_+"LinkedJournal.i.dfy, LinkedJournalRefinement.i.dfy"),("counts and pages",S_+"LikesJournal.i.dfy, ReprJournal.i.dfy and their refinements")],
  text="all histories of puts, marshals, reads, freezes and discards")
P("D03","The tree of buffers answers each query from the newest message",
  "A tree whose nodes hold buffers of updates over children split at pivot keys, with a memtable above, stands for one key-value map at each of its layers: children as a total map, children between pivots, and buffers kept in place with an offset per child that says what was already flushed. A query answers the merge of all messages on the key's path, newest first, with a receipt that proves it; a put changes only its keys; flushing, splitting, growing, compacting and moving the memtable down change nothing a reader sees; a frozen copy is taken only of a drained memtable and stands for the same map. Each layer's step is the one step of the layer above that its label names, up to emptied buffers. Buffers, offsets and key ranges combine, slice and filter as functions on maps and sequences do. Any other step or answer is refused.",
  [Q_+f+".i.dfy" for f in ("PagedBetree","PivotBetree","FilteredBetree","PagedBetreeRefinement","PivotBetreeRefinement","FilteredBetreeRefinement","BufferSeq","Buffer","BufferOffsets","OffsetMap","Domain","Memtable","SplitRequest")],
  [("tree over a total map",Q_+"PagedBetree.i.dfy, PagedBetreeRefinement.i.dfy"),("pivots",Q_+"PivotBetree.i.dfy, PivotBetreeRefinement.i.dfy"),("offsets",Q_+"FilteredBetree.i.dfy, FilteredBetreeRefinement.i.dfy"),("buffers",Q_+"BufferSeq.i.dfy, Buffer.i.dfy, BufferOffsets.i.dfy, Domain.i.dfy")],
  text="all histories of puts, queries and internal steps on trees")
C_="concurrency/";X_="examples/concurrency-strategies/"
P("C01","Concurrent table, well and account operations act as if one at a time",
  "Threads that insert into or query one linear-probing table, one slot at a time in any interleaving, behave as a map in which each operation takes effect in a single instant while it runs: a key sits in at most one slot, reachable by probing from its own, no finished insert is lost, and a query answers only a value the map holds. Threads that walk a row of wells hand over hand, holding one lock at a time, end with every operation having the result and effect it would have had alone, in the order they started; a lock is never held twice, neighbouring steps of different threads whose order does not matter can be swapped, and tokens for wells, locks and positions are neither created nor lost. A transfer between two accounts changes those two by opposite amounts and leaves every lock free. Steps that are not such steps are refused.",
  [C_+"ConcurrentMap/ConcurrentMap.i.dfy",C_+"ConcurrentMap/ConcurrentLinearHashTable.i.dfy",X_+"spec.s.dfy",X_+"commutativity-strategy.dfy",C_+"seq-hoh/StateMachine.s.dfy",C_+"seq-hoh/StateMachine.i.dfy",C_+"bank/bank.dfy"],
  [("table",C_+"ConcurrentMap/ConcurrentLinearHashTable.i.dfy, ConcurrentMap.i.dfy"),("hand over hand",X_+"spec.s.dfy, commutativity-strategy.dfy"),("tokens",C_+"seq-hoh/StateMachine.i.dfy"),("accounts",C_+"bank/bank.dfy")],
  over=("schedules",),text="all interleavings of threads, tables and hash functions")
P("E01","The example containers hold exactly what was put in them",
  "A red-black tree into which values are inserted holds exactly those values, in order, answers membership correctly, never has a red node under a red one, and has the same number of black nodes on every path, so it stays shallow. A splay tree under any mix of insertions, deletions, lookups and splaying holds exactly the values a set would, in order, with every parent pointer right. Two stacks whose cells share one disk, as values, pages or marshalled blocks, push, copy and tidy up as two plain sequences do, never lose or change a cell still in use, and refuse any other step. Cutting a node at a pivot leaves its part to the left and the original as it was. The predicates that describe well-formed trees, disks and nodes are true of exactly those.",
  ["examples/red-black.dfy"]+["examples/splay/"+f for f in("splaytree.dfy","basics.dfy","node.dfy","insert.dfy","delete.dfy","splay.dfy","zig_left.dfy","zig_right.dfy")]+["FramingExperiment/LinkedListStack.i.dfy","examples/cutoff-node/NodeImpl.i.dfy"],
  [("red-black tree","examples/red-black.dfy"),("splay tree","examples/splay/splaytree.dfy and its parts"),("stacks","FramingExperiment/LinkedListStack.i.dfy"),("cut node","examples/cutoff-node/NodeImpl.i.dfy")],
  text="all histories of container operations on any values")
P("F01","File system operations change just the names, data and times they should",
  "In the specified file system a path exists when it leads to an inode with metadata. Creating, linking and renaming need an existing parent directory; a new inode is unused before; a directory has one name only; a directory is removed or replaced only when empty; removing the last name drops metadata and data, removing another keeps them. A rename moves a path with all that lies beneath it, never onto itself or beneath itself, and loses nothing. Reads return the bytes last written or truncated to, zeros where a file grew, and nothing else changes; each operation updates the times of the inode and of the parents it touches. A directory listing is sorted, holds existing entries only, and skips none from its start to its last entry, or to the end if it is said to be complete. Attributes and link targets are read as stored. Every existing path keeps its parent directory, and any other outcome is refused.",
  ["Filesys/FileSystem.s.dfy","Filesys/FileSystemInv.i.dfy","Filesys/FSTypes.s.dfy","Filesys/PathSpec.s.dfy"],
  [("operations","Filesys/FileSystem.s.dfy"),("invariant","Filesys/FileSystemInv.i.dfy"),("paths","Filesys/PathSpec.s.dfy, FSTypes.s.dfy")],
  text="all histories of file system operations")
