From e35b40e03c1f9fba2e019c5fb8fe4bdc940eb344 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:09 +0000
Subject: [PATCH 01/10] fix: reject an over-long stored length before
 allocating by it

Parsing a resizable sequence sized a Vec by the length field read from
the (untrusted) bytes before noticing that the length exceeds the slots
the format has. A corrupted length made the parser panic with a capacity
overflow or abort the process on a failed allocation instead of
returning None.
---
 Splinter/src/marshalling/ResizableUniformSizedSeq_v.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/Splinter/src/marshalling/ResizableUniformSizedSeq_v.rs b/Splinter/src/marshalling/ResizableUniformSizedSeq_v.rs
index 87f6ff5..c9eadd7 100644
--- a/Splinter/src/marshalling/ResizableUniformSizedSeq_v.rs
+++ b/Splinter/src/marshalling/ResizableUniformSizedSeq_v.rs
@@ -528,6 +528,12 @@ impl<EltFormat: Marshal + UniformSized, LenType: IntFormattable>
         match self.try_length(dslice, data) {
             None => { None },
             Some(len) => {
+                // The stored length is untrusted: reject one that exceeds the slots we have
+                // before sizing an allocation by it.
+                if self.max_length < len {
+                    assert( !self.gettable(dslice@.i(data@), self.max_length as int) ); // trigger
+                    return None;
+                }
                 let mut i: usize = 0;
                 let mut result:Vec<EltFormat::U> = Vec::with_capacity(len);
                 while i < len
-- 
2.43.0


From 2d4746af3a28e15798e1e0e9015ce55adb013c09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:19 +0000
Subject: [PATCH 02/10] fix: let completeWriteTasks start the writes that are
 still waiting

---
 framework/Framework.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/framework/Framework.cpp b/framework/Framework.cpp
index 478e4e8..89f7301 100644
--- a/framework/Framework.cpp
+++ b/framework/Framework.cpp
@@ -407,7 +407,9 @@ namespace MainDiskIOHandler_Compile {
       }
       if (i == 0) {
         if (any_not_started) {
-          fail("completeWriteTasks: any_not_started");
+          // Every write given to the disk is complete: start the next ones.
+          maybeStartWriteReq();
+          continue;
         }
         break;
       }
-- 
2.43.0


From 1ef0f4adc5f1ffa46eb47cf0dce52d125cc9f801 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:19 +0000
Subject: [PATCH 03/10] fix: wait for outstanding writes before destroying a
 disk handler

---
 framework/Framework.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/framework/Framework.cpp b/framework/Framework.cpp
index 89f7301..7010f45 100644
--- a/framework/Framework.cpp
+++ b/framework/Framework.cpp
@@ -91,6 +91,12 @@ namespace MainDiskIOHandler_Compile {
     uint64 len;
 
     ~WriteTask() {
+      // While the request is in progress, it still uses this task's buffer.
+      if (made_req) {
+        wait();
+      } else {
+        nWriteReqsWaiting--;
+      }
       free(aligned_bytes);
     }
     
@@ -253,6 +259,8 @@ namespace MainDiskIOHandler_Compile {
   }
 
   DiskIOHandler::~DiskIOHandler() {
+    // Outstanding writes use fd, so let them finish before closing it.
+    writeReqs.clear();
     if (0 <= fd)
       close(fd);
   }
-- 
2.43.0


From e0d426c8fe0f6250f32f0d816154452143601e6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:54:05 +0000
Subject: [PATCH 04/10] fix: a branch contains a key exactly when it stores it

---
 Splinter/src/allocation_layer/AllocationBranch_v.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Splinter/src/allocation_layer/AllocationBranch_v.rs b/Splinter/src/allocation_layer/AllocationBranch_v.rs
index 840468a..1b3dd60 100644
--- a/Splinter/src/allocation_layer/AllocationBranch_v.rs
+++ b/Splinter/src/allocation_layer/AllocationBranch_v.rs
@@ -28,7 +28,7 @@ pub type BranchNode = Node<Summary>;
 impl Buffer for BranchNode {
     open spec fn linked_contains(self, dv: BufferDisk<Self>, addr: Address, key: Key) -> bool 
     {
-        self.linked_query(dv, addr, key) == Message::Update{ delta: nop_delta() }
+        self.i(dv, addr).contains(key)
     }
 
     open spec fn linked_query(self, dv: BufferDisk<Self>, addr: Address, key: Key) -> Message 
-- 
2.43.0


From 6cf9acfa1caaa0ed0398cca1eedbe76188dc110b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:39:33 +0000
Subject: [PATCH 05/10] fix: a new cache has no slots below zero

---
 Splinter/src/implementation/Cache_v.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/Splinter/src/implementation/Cache_v.rs b/Splinter/src/implementation/Cache_v.rs
index 0b7121e..b4947c8 100644
--- a/Splinter/src/implementation/Cache_v.rs
+++ b/Splinter/src/implementation/Cache_v.rs
@@ -290,8 +290,8 @@ state_machine!{ Cache {
     }}
 
     init!{ initialize(slots: nat) {
-        init entries = Map::new(|i: Slot| i < slots , |i| Entry::Empty);
-        init status_map = Map::new(|i: Slot| i < slots , |i| Status::NotFilled);
+        init entries = Map::new(|i: Slot| 0 <= i < slots , |i| Entry::Empty);
+        init status_map = Map::new(|i: Slot| 0 <= i < slots , |i| Status::NotFilled);
         init lookup_map = Map::empty();
         init outstanding_reqs = Map::empty();
     }}
-- 
2.43.0


From 5165e9a583943b63d71e2723005af490c2f0f167 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:39:33 +0000
Subject: [PATCH 06/10] fix: the cache's lookup map covers slots that are
 reserved or loading

---
 Splinter/src/implementation/Cache_v.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/Splinter/src/implementation/Cache_v.rs b/Splinter/src/implementation/Cache_v.rs
index b4947c8..5a26f66 100644
--- a/Splinter/src/implementation/Cache_v.rs
+++ b/Splinter/src/implementation/Cache_v.rs
@@ -315,11 +315,11 @@ state_machine!{ Cache {
 
     pub open spec fn build_lookup_map(self) -> Map<Address, Slot>
     {
-        let filled_slot_addr_map = Map::new(
-            |slot| self.entries.contains_key(slot) && self.entries[slot] is Filled,
+        let slot_addr_map = Map::new(
+            |slot| self.non_empty_slot(slot),
             |slot| self.entries[slot].get_addr()
         );
-        filled_slot_addr_map.invert()
+        slot_addr_map.invert()
     }
 
     pub open spec fn non_empty_slot(self, slot: Slot) -> bool
-- 
2.43.0


From a04fadac2a31d3692ba2872db0a112061d567341 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:39:33 +0000
Subject: [PATCH 07/10] fix: one writeback request per page

---
 Splinter/src/implementation/Cache_v.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/Splinter/src/implementation/Cache_v.rs b/Splinter/src/implementation/Cache_v.rs
index 5a26f66..495d082 100644
--- a/Splinter/src/implementation/Cache_v.rs
+++ b/Splinter/src/implementation/Cache_v.rs
@@ -214,6 +214,7 @@ state_machine!{ Cache {
         require !requests.is_empty();
         require responses == empty_responses();
 
+        require requests.is_injective();
         require requests.dom().disjoint(pre.outstanding_reqs.dom());
         require pre.valid_writeback_requests(requests);
 
-- 
2.43.0


From cc370f117201db5475e57feb32863ef52f87b1db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:39:40 +0000
Subject: [PATCH 08/10] fix: putting messages changes the cached journal

---
 .../implementation/JournalCoordinationSystem_v.rs    | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/Splinter/src/implementation/JournalCoordinationSystem_v.rs b/Splinter/src/implementation/JournalCoordinationSystem_v.rs
index 8df8b14..fa29723 100644
--- a/Splinter/src/implementation/JournalCoordinationSystem_v.rs
+++ b/Splinter/src/implementation/JournalCoordinationSystem_v.rs
@@ -187,10 +187,12 @@ state_machine!{ JournalCoordinationSystem{
         require CachedJournal::State::next(pre.journal, pre.journal, journal_lbl);
     }}
 
-    transition!{ put(lbl: Label) {
+    transition!{ put(lbl: Label, new_journal: CachedJournal::State) {
         require let Label::Put{messages} = lbl;
         let journal_lbl = CachedJournal::Label::Put{messages};
-        require CachedJournal::State::next(pre.journal, pre.journal, journal_lbl);
+        require CachedJournal::State::next(pre.journal, new_journal, journal_lbl);
+
+        update journal = new_journal;
     }}
 
     transition!{ discard_old(lbl: Label, new_journal: CachedJournal::State, discard_addrs: Set<Address>) {
@@ -363,7 +365,11 @@ state_machine!{ JournalCoordinationSystem{
     fn query_end_lsn_inductive(pre: Self, post: Self, lbl: Label) { }
    
     #[inductive(put)]
-    fn put_inductive(pre: Self, post: Self, lbl: Label) { }
+    fn put_inductive(pre: Self, post: Self, lbl: Label, new_journal: CachedJournal::State) {
+        reveal(CachedJournal::State::next);
+        reveal(CachedJournal::State::next_by);
+        assert(pre.ephemeral_tj() == post.ephemeral_tj());
+    }
    
     #[inductive(discard_old)]
     fn discard_old_inductive(pre: Self, post: Self, lbl: Label, new_journal: CachedJournal::State, discard_addrs: Set<Address>) 
-- 
2.43.0


From bae4f0a1ff6b71c2863343ff4f208fdb15eafd03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:47:16 +0000
Subject: [PATCH 09/10] fix: a rename onto itself or beneath itself would lose
 the renamed files

---
 Filesys/FileSystem.s.dfy | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/Filesys/FileSystem.s.dfy b/Filesys/FileSystem.s.dfy
index fc133f1..f746d53 100644
--- a/Filesys/FileSystem.s.dfy
+++ b/Filesys/FileSystem.s.dfy
@@ -198,6 +198,8 @@ module FileSystem {
     && WF(fs)
     && WF(fs')
     && PathExists(fs, src)
+    && src != dst
+    && !BeneathDir(src, dst)
     && !BeneathDir(dst, src)
     && (PathExists(fs, dst) || ValidNewPath(fs, dst))
 
-- 
2.43.0


From 3565400f2ad2ae51956659bacfedf413fc47d0ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:48:18 +0000
Subject: [PATCH 10/10] fix: a directory listing said to be complete must list
 every entry

---
 Filesys/FileSystem.s.dfy | 1 -
 1 file changed, 1 deletion(-)

diff --git a/Filesys/FileSystem.s.dfy b/Filesys/FileSystem.s.dfy
index f746d53..88103e5 100644
--- a/Filesys/FileSystem.s.dfy
+++ b/Filesys/FileSystem.s.dfy
@@ -375,7 +375,6 @@ module FileSystem {
         && IsDirEntry(dir, path)
         && PathExists(fs, path)
         && (start.Some? ==> DirEntryLte(start.value, path))
-        && (done ==> (exists i :: 0 <= i < |results| && results[i].path == path))
         && (!done && |results| > 0 ==> DirEntryLte(path, results[|results|-1].path))
           :: (exists i :: 0 <= i < |results| && results[i].path == path))
   }
-- 
2.43.0

