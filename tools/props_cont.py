PROPS=[];TECH={};CHECKS={}
NOTE="exploration: the repository's Dafny code (including ghost definitions) runs on a purpose-built Dafny interpreter; thousands of generated operation histories per run, compared with independent JavaScript models, plus every executable contract of the files on generated arguments"
def P(id,title,statement,files,mech,over=("histories",),text="all histories of operations",why="No test executes this code; a wrong step only shows for particular contents, sizes and histories.",tech="model-based stateful testing against independent models, and contract testing (requires/ensures as the oracle) on generated arguments",note=NOTE):
    PROPS.append(dict(id=id,title=title,statement=statement,over=list(over),text=text,why=why,files=list(files),mech=mech));TECH[id]=tech;CHECKS[id]=note
D="lib/DataStructures/"
P("K01","Every container behaves as the map, sequence or queue it stands for",
  "Hash maps (fixed-size and growing, linear and class-based, with content copies), the in-memory B-tree, doubly linked lists, the reference-count sequence, the least-recently-used queues and the packed sequence of sequences return, after any history of operations, exactly what a mathematical map, sequence or queue would: insertions replace, removals report the removed value, counts are exact, iterators visit every entry exactly once, a clone does not share with its source, growing keeps every entry, and the queue's next victim is the one used longest ago. Every stated postcondition holds.",
  [D+f for f in ("LinearMutableMap.i.dfy","LinearMutableMapBase.i.dfy","MutableMapImpl.i.dfy","MutableMapModel.i.dfy","LinearContentMutableMap.i.dfy","KMBtree.i.dfy","BtreeModel.i.dfy","LinearDList.i.dfy","LinearUSeq.i.dfy","LinearLru.i.dfy","LruImpl.i.dfy","LruModel.i.dfy","PackedSeqSeq.dfy")],
  [("hash maps",D+"LinearMutableMap.i.dfy, MutableMapImpl.i.dfy, MutableMapModel.i.dfy, LinearContentMutableMap.i.dfy"),("B-tree",D+"KMBtree.i.dfy, BtreeModel.i.dfy"),("lists and queues",D+"LinearDList.i.dfy, LinearUSeq.i.dfy, LinearLru.i.dfy, LruImpl.i.dfy")],text="all histories of operations on any contents")
K="lib/Buckets/"
P("K02","Flushing messages between buckets never changes what a key reads as",
  "Pivot tables partition the keys and route every key, or run of keys, to the one child whose range holds it; inserting, removing and cutting pivots keep this. Composing, joining, splitting, clamping and partially flushing buckets preserves, for every key, the composition of its messages from newest to oldest, and what a partial flush moves fits the child. A mutable bucket holds the same messages in every representation it switches between, reports its weight, and queries, end keys, prefix and bound tests agree with its map. Every stated postcondition holds.",
  [K+f for f in ("BoundedPivotsLib.i.dfy","BucketsLib.i.dfy","BucketImpl.i.dfy","BucketFlushModel.i.dfy","BucketWeights.i.dfy","BucketMap.i.dfy","MapSeqs.i.dfy")],
  [("pivots",K+"BoundedPivotsLib.i.dfy"),("buckets",K+"BucketsLib.i.dfy, BucketImpl.i.dfy"),("flush",K+"BucketFlushModel.i.dfy")],over=("histories","inputs"),text="all buckets, pivot tables and histories of bucket operations")
P("K03","Packed string arrays and key-value arrays keep their elements exactly",
  "A packed array of strings, or of key-message pairs, decodes to exactly the elements put in, in order; appending, sub-ranges, joining, search by key, weights and room tests agree with the plain sequence, the growable versions agree with the packed ones, and unmarshalling accepts exactly the well-formed encodings and returns what was marshalled. Every stated postcondition holds.",
  [K+f for f in ("PackedStringArray.i.dfy","PackedStringArrayMarshalling.i.dfy","PackedKV.i.dfy","PackedKVMarshalling.i.dfy","LKMBPKVOps.i.dfy")],
  [("strings",K+"PackedStringArray.i.dfy"),("pairs",K+"PackedKV.i.dfy"),("B-tree conversion",K+"LKMBPKVOps.i.dfy")],over=("inputs","histories"),text="all sequences of strings and of pairs, and all byte strings offered for parsing")
P("K04","Reading through a translated edge sees exactly the renamed keys",
  "An edge may rename one key prefix to another. Translating a key, a bucket, a pivot table or a set of edges renames exactly the keys that carry the prefix and drops the others, keeps order, and composes: reading through two edges is reading through their composition. The end of a prefix's range is the least key above all its extensions, and the common-prefix and next-prefix computations return the longest and least such string. Every stated postcondition holds.",
  [K+f for f in ("TranslationLib.i.dfy","TranslationImpl.i.dfy","TranslationApply.s.dfy")],
  [("key and bucket translation",K+"TranslationLib.i.dfy"),("implementation",K+"TranslationImpl.i.dfy")],over=("inputs",),text="all keys, prefixes, buckets, pivot tables and edges")
