I="Impl/"
PROPS=[
dict(id="S01",title="The store behaves as one ordered map from keys to values",
 statement="Whatever the history of insertions, point reads and range reads, of cache evictions, tree reorganisations and disk delays, a point read returns the value last inserted for its key (the empty value when none), and a range read returns exactly the non-empty entries of the key range it reports, in key order and at most as many as asked. An operation that reports no result has no effect and can be retried.",
 over=["histories","schedules"],text="all operation histories, key/value sizes and disk completion orders, on scaled-down node, cache and journal sizes",
 why="No test runs the store; the linear Dafny sources are not even compiled by the tests.",
 files=[I+f for f in ("MainHandlers.i.dfy","CoordinationImpl.i.dfy","QueryImpl.i.dfy","SuccImpl.i.dfy","InsertImpl.i.dfy","FlushImpl.i.dfy","SplitImpl.i.dfy","GrowImpl.i.dfy","LeafImpl.i.dfy","EvictImpl.i.dfy")]+["MapSpec/MapSpec.s.dfy"],
 mech=[("operation handlers",I+"MainHandlers.i.dfy: handleInsert/handleQuery/handleSucc"),("tree reorganisation",I+"FlushImpl, SplitImpl, GrowImpl, LeafImpl, BookkeepingImpl")]),
dict(id="S02",title="After a crash the store is a past state no older than the last finished sync",
 statement="If the machine stops at any moment, with each unacknowledged disk write lost, done or (outside the superblocks) torn, the restarted store holds exactly the contents it had after some prefix of the insertions, a prefix that includes every insertion made before the request of any sync that was reported complete. This holds again for crashes during recovery and for any number of restarts.",
 over=["crash_points","histories","schedules"],text="all crash points in all histories of insertions and of journal-only and full syncs, with all write completion orders",
 why="Needs a crash at a particular point between asynchronous writes; nothing in the tests simulates the disk.",
 files=[I+f for f in ("CommitterImpl.i.dfy","JournalistImpl.i.dfy","CoordinationImpl.i.dfy","SyncImpl.i.dfy","HandleWriteResponseImpl.i.dfy","Mkfs.i.dfy")]+["MapSpec/ThreeStateVersioned.s.dfy"],
 mech=[("commit protocol",I+"CommitterImpl.i.dfy, SyncImpl.i.dfy"),("recovery",I+"CommitterImpl.i.dfy, CoordinationImpl.i.dfy")]),
dict(id="S03",title="Operations and syncs finish once the disk answers",
 statement="As long as the disk answers its requests and unfinished operations are retried as the API asks, every insertion, read and sync finishes within a bounded number of calls: the store never waits with no disk request outstanding, and never stops for good because its cache or journal is full.",
 over=["histories","schedules"],text="all histories of operations, abandoned operations and overlapping syncs, caches and journals of any fill",
 why="A livelock needs a particular fill of cache and journal and particular pending syncs.",
 files=[I+f for f in ("CoordinationImpl.i.dfy","CommitterImpl.i.dfy","SyncImpl.i.dfy","EvictImpl.i.dfy","FullImpl.i.dfy","SuccImpl.i.dfy","InsertImpl.i.dfy")],
 mech=[("sync progress",I+"CoordinationImpl.i.dfy doSync, CommitterImpl.i.dfy tryAdvanceLog/tryAdvanceLocation"),("room making",I+"EvictImpl.i.dfy PageInNodeReqOrMakeRoom")]),
dict(id="S04",title="Disk requests never race and never hit data recovery still needs",
 statement="No write is issued that overlaps another outstanding read or write or leaves the disk, at most one disk operation is issued per handler call, the two superblocks are never written at the same time, and whatever garbage an unfinished write leaves in the blocks it targets (outside the superblocks), the store recovers to a legal state after a crash.",
 over=["histories","schedules","crash_points"],text="all histories and completion orders, including disks that leave writes outstanding for long",
 why="Depends on which blocks are free at a given moment across ephemeral, frozen and persistent trees.",
 files=[I+f for f in ("BlockAllocatorImpl.i.dfy","IOImpl.i.dfy","SyncImpl.i.dfy","DeallocImpl.i.dfy","CommitterImpl.i.dfy")]+["lib/DataStructures/BitmapImpl.i.dfy","BlockCacheSystem/DiskLayout.i.dfy"],
 mech=[("block allocation",I+"BlockAllocatorImpl.i.dfy"),("write requests",I+"IOImpl.i.dfy")]),
dict(id="S05",title="Damaged disk reads never turn into wrong answers",
 statement="When a read from disk comes back damaged in a way its checksum detects (up to three flipped bits, a burst of up to four bytes, a zeroed block), the store may fail to answer, but no read it does answer is wrong, and a recovery that completes gives a legal state. Once reads are clean again after a restart it recovers fully.",
 over=["fault_sequences","histories"],text="all damage placements over all reads of histories with restarts",
 why="Needs fault injection on particular reads.",
 files=[I+f for f in ("IOImpl.i.dfy","MarshallingImpl.i.dfy","HandleReadResponseImpl.i.dfy","CommitterImpl.i.dfy")]+["lib/Checksums/CRC32C.s.dfy"],
 mech=[("checked sectors",I+"MarshallingImpl.i.dfy ParseCheckedSector")]),
]
TECH=dict(S01="model-based stateful property testing over a simulated asynchronous disk",S02="stateful property testing with crash-point and torn-write injection, against the write history",S03="stateful property testing of bounded progress over a simulated disk",S04="stateful property testing with invariants over disk requests and garbage-write injection",S05="stateful property testing with read-fault injection")
NOTE="exploration: the repository's Dafny handlers run on a purpose-built Dafny interpreter with scaled-down geometry (nodes, cache, journal), checksums computed by an independent CRC32C; thousands of histories per run"
CHECKS={p["id"]:NOTE for p in PROPS}
