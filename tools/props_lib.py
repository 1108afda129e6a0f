PROPS=[];TECH={};CHECKS={}
NOTE="exploration: the repository's Dafny code (including ghost definitions) runs on a purpose-built Dafny interpreter; hundreds of thousands of generated cases per run, compared with independent JavaScript definitions, plus every executable contract of the files on generated arguments"
def P(id,title,statement,files,mech,over=("inputs",),text="all inputs in the functions' domains",why="Verification tests never execute these definitions; a handful of examples cannot cover the input space.",tech="differential property testing against independent definitions, and contract testing (requires/ensures as the oracle) on generated arguments",note=NOTE):
    PROPS.append(dict(id=id,title=title,statement=statement,over=list(over),text=text,why=why,files=list(files),mech=mech));TECH[id]=tech;CHECKS[id]=note
B="lib/Base/"
P("B01","The disk areas are fixed, disjoint and correctly classified",
  "Two superblocks, a circular journal, two indirection tables and node blocks have fixed, non-overlapping places; every address/length pair is recognised as exactly the kind its numbers say, two valid locations that overlap are of one kind and (outside the journal) start at the same address, and the largest object of each kind fits its block. A circular journal range is the set of blocks its start and length name, with front and back parts, containment and disjointness following from that set.",
  ["BlockCacheSystem/DiskLayout.i.dfy","BlockCacheSystem/JournalRange.i.dfy","PivotBetree/Bounds.i.dfy","BlockCacheSystem/AsyncSectorDiskModelTypes.i.dfy"],
  [("location predicates","BlockCacheSystem/DiskLayout.i.dfy: Valid*Location"),("journal ranges","BlockCacheSystem/DiskLayout.i.dfy: JournalFrontLocation/JournalBackLocation; JournalRange.i.dfy")],text="all addresses and lengths, all journal starts and lengths (also with journals of 5 and 8 blocks)")
P("P04","Paths and directories relate by proper prefix and parent",
  "One path lies beneath another exactly when it properly extends it, is a directory entry of it exactly when by one component, the parent drops the last component, directory entries are ordered lexicographically by their last component, and a directory is empty exactly when nothing existing lies beneath it. New metadata is valid exactly when it is real metadata with three equal timestamps, and a new file system holds only the root directory.",
  ["Filesys/PathSpec.s.dfy","Filesys/FSTypes.s.dfy"],[("path relations","Filesys/PathSpec.s.dfy"),("metadata","Filesys/FSTypes.s.dfy")],text="all paths, path maps and metadata values")
P("U01","Sequence library functions compute what their names say",
  "Taking ends, mapping, filtering, folding, inserting, removing, replacing, concatenating, flattening with its shape and index arithmetic, zipping, prefix/suffix tests, searching and maxima over sequences equal their mathematical definitions. A floating sequence behaves as a sequence whose dropped prefix keeps its indices. Every stated postcondition and lemma holds.",
  [B+f for f in ("Sequences.i.dfy","SequencesLite.s.dfy","FloatingSeq.s.dfy","SequencesOfMaps.i.dfy","Option.s.dfy")],[("sequence functions",B+"Sequences.i.dfy"),("floating sequences",B+"FloatingSeq.s.dfy")])
P("U02","Map, set and multiset library functions compute what their names say",
  "Removing, restricting and unioning maps with the stated preference, agreement and sub-map tests, ranges, maxima and unions of sets, bijectivity, and multiset multiplication, application, folding and value multisets equal their mathematical definitions. The immutable map and iterator interfaces implement a finite map. Every stated postcondition and lemma holds.",
  [B+f for f in ("Maps.i.dfy","map.i.dfy","Sets.i.dfy","SetBijectivity.i.dfy","Multisets.i.dfy","MapRemove.s.dfy")],[("maps",B+"Maps.i.dfy, MapRemove.s.dfy"),("sets and multisets",B+"Sets.i.dfy, Multisets.i.dfy")])
P("U03","Bit-set words and integer arithmetic lemmas hold",
  "Setting, clearing, testing, combining and complementing bits of 64-bit words change exactly the named bits, in both bit-vector and integer form, and conversion between the forms is lossless. Every stated arithmetic law about products, quotients, remainders and powers of two holds.",
  [B+"BitsetLemmas.i.dfy",B+"mathematics.i.dfy",B+"MathAxioms.s.dfy","lib/Math/Math.i.dfy","lib/Math/ModLemmas.i.dfy","lib/Math/Nonlinear.i.dfy"],[("bit operations",B+"BitsetLemmas.i.dfy"),("arithmetic laws","lib/Math/*.dfy")])
P("O01","Key orders are total and binary searches find the right place",
  "The key order is lexicographic by unsigned bytes (a proper prefix first) with the upper bound above every key; the integer orders are numeric; comparison functions agree in sign with them. On sorted runs, every search (largest less-or-equal, largest less, first greater, over sequences, shared sequences, array slices and in batches) returns the unique correct index, sortedness tests are exact, and sorting, minimum, maximum and successor are those of the order.",
  [B+"total_order.i.dfy",B+"total_order_impl.i.dfy",B+"lexical.i.dfy",B+"KeyType.s.dfy","lib/Lang/System/SeqComparison.s.dfy"],[("order definitions",B+"total_order.i.dfy, lib/Lang/System/SeqComparison.s.dfy"),("searches",B+"total_order_impl.i.dfy")],text="all keys, runs and needles")
P("A01","The allocator hands out only blocks no tree version uses",
  "A bitmap remembers exactly the bits set, finds the first clear one, and a clone or union is independent of its source. The allocator hands out the lowest block that is used by neither the ephemeral, frozen or persistent tree nor an outstanding write, none when all are used, and a block becomes free again exactly when the last of these lets go of it. Freezing and persisting a tree copy its set of blocks.",
  ["lib/DataStructures/BitmapModel.i.dfy","lib/DataStructures/BitmapImpl.i.dfy","Impl/BlockAllocatorModel.i.dfy","Impl/BlockAllocatorImpl.i.dfy"],
  [("bitmaps","lib/DataStructures/BitmapModel.i.dfy; BitmapImpl.i.dfy: Set/Unset/Alloc/UnionConstructor"),("allocator","Impl/BlockAllocatorModel.i.dfy; BlockAllocatorImpl.i.dfy: MarkUsed*/MarkFree*/Copy*/MoveFrozenToPersistent")],over=("inputs","histories"),text="all histories of sets, clears, allocations, freezes and persists",note=NOTE)
M_="lib/Marshalling/"
P("G01","Generic marshalling round-trips and refuses malformed data",
  "A value marshals to exactly the bytes its grammar prescribes (little-endian integers, 64-bit lengths and case numbers, members in order), of exactly the computed size, written at the given place and nowhere else. Parsing bytes yields the value they encode and the position after it, and data that is cut short, has trailing bytes or stores a length or case number beyond what is there is refused; demarshalling accepts exactly the complete encodings.",
  [M_+"GenericMarshalling.i.dfy"],[("encoders",M_+"GenericMarshalling.i.dfy: MarshallVal, Marshall, ComputeSizeOf"),("parsers",M_+"GenericMarshalling.i.dfy: ParseVal, parse_Val, Demarshall")],over=("inputs",),text="all grammars, values, byte strings and offsets",note=NOTE)
P("G02","Packing and marshalling utilities compute what their names say",
  "Integers and byte strings convert into each other in the stated byte order and width without loss, copying a sequence into an array changes exactly the named cells, and the sequence and map helpers of the marshalling library (last, find, concatenate, domain, union, removal, equality) return the mathematical result.",
  [M_+f for f in ("Util.i.dfy","Seqs.i.dfy","Maps.i.dfy","Native.s.dfy")]+["lib/Base/PackedIntsLib.i.dfy","lib/Lang/System/PackedInts.s.dfy"],[("byte order",M_+"Util.i.dfy; lib/Lang/System/PackedInts.s.dfy"),("helpers",M_+"Seqs.i.dfy, Maps.i.dfy")])
P("H01","The checksum is CRC-32C on every input",
  "The implementation returns the standard CRC-32C of any byte string or array slice, at any length and alignment, padded with zeros to 32 bytes, without changing the data; its folding table holds the right powers. The bit-level specification (bit strings, reversal, exclusive or, carry-less product, remainder, the CRC instructions) agrees with polynomial arithmetic over two elements.",
  ["lib/Checksums/CRC32CImpl.i.dfy","lib/Checksums/CRC32CArrayImpl.i.dfy","lib/Checksums/CRC32C_Lut.i.dfy","lib/Checksums/CRC32C.s.dfy","lib/Checksums/BitLemmas.i.dfy","lib/Checksums/F2_X_Lemmas.i.dfy","lib/Lang/System/F2_X.s.dfy","lib/Lang/System/Bits.s.dfy"],
  [("implementation","lib/Checksums/CRC32CImpl.i.dfy, CRC32CArrayImpl.i.dfy: compute_crc32c_padded"),("specification","lib/Checksums/CRC32C.s.dfy; lib/Lang/System/F2_X.s.dfy, Bits.s.dfy")],text="all byte strings, slices and alignments",note=NOTE)
MS="MapSpec/"
TN="exploration: random legal histories produced by an independent JavaScript model; the repository's relation (run by the Dafny interpreter) must accept every step and agree with the independent relation on type-correct perturbed steps; thousands of histories, about a hundred judged steps each; nine keys stand for the infinite key space"
TT="model-based history generation and perturbation, with an independent relation as oracle, run on the repository's Dafny state machines"
P("T01","The promised store is a map with three durable versions and explicit syncs",
  "A read, write, prefix clone, range listing or asynchronous read is accepted exactly when its result and its effect are those of one map from every key to a value (a range listing names exactly the non-empty keys of the range, in order; an asynchronous read answers with the value at its start). A crash returns the current and frozen versions to the durable one and forgets sync requests; versions move to frozen and durable as a whole, and a sync completes exactly when its request's version is durable. Each view operation agrees with exactly the user operations it stands for.",
  [MS+f for f in ("MapSpec.s.dfy","AsyncMap.i.dfy","ThreeStateVersioned.s.dfy","ThreeStateVersionedMap.s.dfy","UI.s.dfy","UIStateMachine.s.dfy")]+["Versions/VOp.i.dfy"],
  [("map",MS+"MapSpec.s.dfy: Query, Write, Succ, Clone"),("versions",MS+"ThreeStateVersioned.s.dfy: CrashStep … PopSync"),("asynchronous reads",MS+"AsyncMap.i.dfy")],over=("histories","crash_points"),text="all histories of operations, crashes and version moves, and all near misses of their steps",why="No test runs the specification; a wrong guard or effect only shows on particular histories.",tech=TT,note=TN)
P("T02","The journalled tree protocol loses nothing a sync promised and invents nothing",
  "Every step of the tree-version view, the journal view, their composition and the journalled three-state machine is accepted exactly when its guards and effects are the protocol's (freeze, write back, commit, extend the durable or frozen log, replay, crash, sync). Along every history the composition refines the journalled and the plain three-state versioned map, and replaying the durable journal on the durable tree yields exactly the durable version. A version referenced by the persistent or frozen pointer is never altered on disk.",
  ["Versions/"+f for f in ("StatesView.i.dfy","StatesViewMap.i.dfy","JournalView.i.dfy","CompositeView.i.dfy")]+[MS+f for f in ("Journal.i.dfy","TSJ.i.dfy","TSJMap.i.dfy","TSJMap_Refines_ThreeStateVersionedMap.i.dfy")],
  [("tree versions","Versions/StatesView.i.dfy: NextStep"),("journal","Versions/JournalView.i.dfy: NextStep"),("composition and refinement","Versions/CompositeView.i.dfy: I; MapSpec/TSJ.i.dfy; TSJMap_Refines_ThreeStateVersionedMap.i.dfy: I")],over=("histories","crash_points"),text="all histories with crashes at any step, and all near misses of their steps",why="No test runs the protocol; a wrong guard or effect only shows on particular histories.",tech=TT,note=TN)
