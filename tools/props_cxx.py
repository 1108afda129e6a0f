PROPS=[];TECH={};CHECKS={}
NOTE="exploration: the repository's C++ is compiled unchanged with address and undefined-behaviour sanitizers over a stub of the Dafny runtime; the operating system's disk calls are replaced by a simulated disk that completes requests in random order"
TT="model-based stateful property testing of the real C++ with fault and order injection at the disk calls, sanitizers, shrinking of the failing choice sequence"
def P(id,title,statement,files,mech,over,text,why,tech=TT,note=NOTE):
    PROPS.append(dict(id=id,title=title,statement=statement,over=list(over),text=text,why=why,files=files,mech=mech));TECH[id]=tech;CHECKS[id]=note
F="framework/"
P("X01","The disk handler performs each request once, reports truthfully, never stalls",
  "Every write reaches the disk exactly as submitted at its address (later changes to the caller's buffer do not matter), is reported finished exactly once, under its own id and place, and only when durable; reads return the disk's bytes; at most eight writes are outstanding and waiting ones always get started, whatever order the disk finishes them in. Polling, waiting for one and completing all keep these promises, also when the handler is destroyed with writes outstanding. Formatting writes exactly the given image, durably, and refuses an empty one.",
  [F+"Framework.cpp",F+"Framework.h"],[("handler",F+"Framework.cpp: DiskIOHandler, WriteTask, maybeStartWriteReq, prepareWriteResponse, completeWriteTasks, waitForOne"),("formatting",F+"Framework.cpp: Mkfs")],("schedules","histories"),
  "all request sequences and all completion orders of the disk","No test compiles or runs the C++ framework; the promises depend on the order in which asynchronous requests complete.")
P("X02","Application operations happen exactly once however often the store waits",
  "An insert is performed exactly once with the given key and value, a query answers with the stored value (empty when absent), and a range read returns exactly the first results from its start, however the store splits its answers and however often it must wait for the disk. A sync returns only when the store finished it, under its own id and kind; a crash forgets exactly what was not synced; over-long keys and values are refused before reaching the store. With the row cache enabled all this stays the same.",
  [F+"Framework.cpp",F+"BundleWrapper.cpp",F+"Application.h",F+"UnverifiedRowCache.cpp"],[("operations",F+"Framework.cpp: Application::Insert, Query, Succ, Sync, crash, maybeDoResponse"),("calls into verified code",F+"BundleWrapper.cpp")],("histories","schedules","crash_points"),
  "all operation sequences, all patterns of waiting and answering of the store and the disk","No test compiles or runs the C++ framework; retry loops and paging fail only for particular patterns of waiting.")
P("X03","The row cache is a least-recently-used map",
  "A row set is returned with its latest value until as many other rows as the cache holds have been set or read more recently; then it is evicted. Nothing else is evicted, nothing stale is returned, and a reset empties the cache.",
  [F+"UnverifiedRowCache.cpp",F+"Application.h"],[("cache",F+"UnverifiedRowCache.cpp: RowCache::get, set")],("histories",),
  "all histories of sets and reads, at a reduced capacity","No test compiles the row cache; its eviction order depends on the history.")
P("X04","Native helpers under the verified code compute what they declare",
  "Packing and unpacking integers are little-endian at the stated offset and touch nothing else; array creation, cloning and copying, map removal, linear sequences, boxes and maybes behave as their Dafny declarations state (values move, nothing is destroyed twice or early). The instruction wrappers (exclusive or, crc32, carry-less product, loads) compute their mathematical definitions, and the byte-string order is lexicographic by unsigned bytes.",
  [F+"Framework.h",F+"NativeArrays.h",F+"LinearExtern.h",F+"LinearBox.h",F+"Application.h",F+"LinearCongruentialGenerator.h"],[("packing, instructions",F+"Framework.h"),("linear containers",F+"LinearExtern.h; LinearBox.h"),("arrays",F+"NativeArrays.h")],("inputs","histories"),
  "all byte strings, offsets, numbers and operation sequences","The verified code assumes these helpers' contracts without proof, and no test compiles them.",
  "property-based differential testing of the real C++ helpers against bit-by-bit reference computations, with sanitizers",NOTE)
