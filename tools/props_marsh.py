D="Splinter/src/marshalling/"
PROPS=[
dict(id="M01",title="What is marshalled parses back to the same value, wherever it is placed",
 statement="For every format (integers, fixed-element, resizable and key-value formats, and their nestings), writing a marshallable value at any offset of a large enough buffer takes exactly the reported size, changes no byte outside that range, and parsing that range returns the same value. The bytes written follow the documented little-endian layout, so any correct encoding of a value also parses to it.",
 over=["inputs"],text="all formats and nestings, all marshallable values, all buffer offsets and surrounding bytes",
 why="No test executes the marshalling code at all; the proofs that stand in for tests assume away several loops ('proof rotted').",
 files=[D+f for f in ("IntegerMarshalling_v.rs","UniformSizedSeq_v.rs","ResizableUniformSizedSeq_v.rs","KVPairFormat_v.rs","Marshalling_v.rs")],
 mech=[("marshal and parse routines of each format",D+"*.rs: exec_marshall, try_parse, exec_parse, exec_size")]),
dict(id="M02",title="Parsing arbitrary bytes is exact: right value or clean refusal, never a crash",
 statement="Parsing any byte string (random, truncated, damaged, inside a larger buffer) as any format either returns the value the documented layout gives those bytes, when it gives one, or reports failure when it gives none. Parsing never panics, overflows, reads outside the given range, or allocates according to an unvalidated length.",
 over=["inputs"],text="all byte strings up to several hundred bytes (some of tens of kilobytes), all formats",
 why="The guarantee is over every input; no test parses anything, and the parse loops are excluded from the proofs.",
 files=[D+f for f in ("Marshalling_v.rs","UniformSizedSeq_v.rs","ResizableUniformSizedSeq_v.rs","KVPairFormat_v.rs","IntegerMarshalling_v.rs")],
 mech=[("bounds checks before parsing",D+"KVPairFormat_v.rs try_parse; ResizableUniformSizedSeq_v.rs try_length/try_parse")]),
dict(id="M03",title="Element access to stored sequences agrees with the stored bytes",
 statement="For every sequence format and any region contents, valid or damaged, the reported length, the availability and location of each element, its parsed value, and the well-formedness verdict are those the documented layout assigns; out-of-range or inconsistent elements are reported unavailable. The checked and unchecked accessors agree.",
 over=["inputs"],text="all region contents and indices, for fixed-element, resizable and variable-sized sequences",
 why="Quantifies over damaged regions and all indices; nothing executes these accessors.",
 files=[D+f for f in ("SeqMarshalling_v.rs","UniformSizedSeq_v.rs","ResizableUniformSizedSeq_v.rs","VariableSizedElementSeq_v.rs","Slice_v.rs")],
 mech=[("length/get/well-formed accessors",D+"*Seq_v.rs: try_length, try_get, try_get_elt, exec_get*, exec_well_formed")]),
dict(id="M04",title="In-place sequence edits change only what they should",
 statement="Over any history of initialise, set, resize and append on a sequence stored in part of a buffer, each edit has exactly its list meaning: the set or appended element reads back, the length is as asked, every other readable element keeps its value, and no byte outside the region changes. An edit reported impossible is exactly one the layout cannot hold.",
 over=["histories","inputs"],text="all edit histories over valid or damaged starting regions",
 why="Interaction of several edits in one region is never executed by a test; variable-sized appends rely on an assumed lemma.",
 files=[D+f for f in ("UniformSizedSeq_v.rs","ResizableUniformSizedSeq_v.rs","VariableSizedElementSeq_v.rs")],
 mech=[("in-place edits",D+"*Seq_v.rs: exec_set, resize, exec_append, initialize and exec_settable/resizable/appendable")]),
dict(id="M05",title="A sequence accepts appends exactly until it is full and loses none",
 statement="Appending to an initially empty resizable or variable-sized region is accepted exactly as long as the next element and its bookkeeping fit (and the length still fits its field), whatever the element sizes. All accepted elements then read back in order, with nothing outside the region changed.",
 over=["histories","inputs"],text="all region sizes, length/boundary integer widths and element size mixes, filled to capacity",
 why="Full regions, wide tables and length-field limits need long histories at boundary sizes.",
 files=[D+f for f in ("ResizableUniformSizedSeq_v.rs","VariableSizedElementSeq_v.rs")],
 mech=[("capacity arithmetic",D+"VariableSizedElementSeq_v.rs exec_appendable/exec_append; ResizableUniformSizedSeq_v.rs new/exec_appendable")]),
dict(id="M06",title="Integer codecs and slice arithmetic are exact",
 statement="For each integer width, conversion to and from machine words and little-endian bytes, the maximum value and the encoded size are exact for every value. Composing, narrowing and dropping slices selects exactly the bytes the composed ranges denote.",
 over=["inputs"],text="all integer values of 8 to 64 bits (boundary-biased) and all slice compositions",
 why="Proved only under assumptions about the standard library; never executed by a test.",
 files=[D+"IntegerMarshalling_v.rs",D+"Slice_v.rs"],
 mech=[("integer conversions",D+"IntegerMarshalling_v.rs"),("slices",D+"Slice_v.rs")]),
]
TECH={p["id"]:"property-based testing against an independent byte-level reference" for p in PROPS}
TECH["M04"]=TECH["M05"]="model-based stateful property testing against a byte-level reference"
NOTE="exploration: millions of generated cases per run against a reference written from the layout; compiled by the installed Verus with proofs erased and arithmetic checked; values beyond a few hundred KB are not explored"
CHECKS={p["id"]:NOTE for p in PROPS}
