# Source of properties.jsonl: run tools/gen.py to regenerate it.
H="histories"; I="inputs"; C="configurations"; F="fault_sequences"
P=[]
def p(id,title,statement,over,text,why,files,mech,observe=None,state=None):
    d={"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":text},"why_tests_cant":why,
       "anchors":{"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}}
    if state: d["anchors"]["state"]=[{"name":a,"meaning":b,"where":c} for a,b,c in state]
    if observe: d["anchors"]["observe_at"]=observe
    P.append(d)
T="The two test programs that run have no assertions and drive one fixed example; "
p("C01","Deleting a state frees everything it owns exactly once",
  "After any sequence of creating, filling, growing, emptying and individually deleting library objects of any kind, every object still alive is listed by its state exactly once, and deleting the state returns every remaining block to the allocator exactly once. No freed block is ever read, written or freed again, and nothing allocated by the library stays allocated.",
  [H],"every interleaving of creations, additions, removals, resizes and deletions over all object kinds, up to the stated number of steps",
  T+"a leak, a double free or a stale link only shows for particular orders of deletions relative to the other objects of the state.",
  ["cee-resize.h","state.c","cee-common.c","block.c","str.c","list.c","map.c","set.c","dict.c","stack.c","boxed.c","tuple.c","triple.c","quadruple.c","n_tuple.c","tagged.c","singleton.c","closure.c","env.c"],
  [("chain/de_chain/resize keep the per-state list of blocks","cee-resize.h"),("deleting a state walks the list","state.c")],["malloc/free calls","memory accesses"])
p("C02","Deletion policies decide exactly which elements die with a container",
  "Deleting a container frees each element it holds under the delete policy at once, leaves each element held under the no-op policy untouched, and under the reference-counting policy frees exactly those elements that no other container still holds. This holds for every container kind that takes a policy and for nested containers; removing an element from a list or map, popping it, or replacing it withdraws that container's claim on it without freeing it.",
  [H],"all policies, container kinds and sharing patterns among several containers, in every deletion order",
  T+"sharing one element between containers and the order of deletions is never varied by a test.",
  ["cee-common.c","list.c","map.c","set.c","dict.c","stack.c","tuple.c","triple.c","quadruple.c","n_tuple.c","tagged.c","env.c"],
  [("in-degree counting, retain/release, delete by policy","cee-common.c"),("per-container delete traversal","each container's trace function")],["which blocks are live after a deletion"])
p("C03","Garbage collection keeps what is reachable and reclaims the rest",
  "A collection never frees or alters an object reachable from the state's roots, contexts or stack through any chain of containers, and such objects stay fully usable, also across repeated collections and later mutation. An object that is not reachable is freed after at most two collections, and deleting the state afterwards is still leak-free and safe.",
  [H],"every small object graph and root set, every order of root changes, mutations and collections, up to the stated bounds",
  T+"no running test calls the collector at all.",
  ["state.c","map.c","set.c","list.c","dict.c","stack.c","tuple.c","triple.c","quadruple.c","n_tuple.c","tagged.c","closure.c","env.c","block.c","boxed.c","str.c","singleton.c"],
  [("mark phase from roots, stack and contexts with an alternating mark value","state.c"),("sweep along the block list","state.c"),("per-kind mark traversal","each container's trace function")],["which blocks are live after a collection","contents of surviving objects"])
p("C04","A map behaves as a finite map from keys to values",
  "For every sequence of additions, replacements, removals, renames and lookups, size, lookup results, the returned old or removed value, the key, value and (k,v) enumerations, and early stop of iteration agree with a mathematical finite map under the given comparison. Values are not null. Keys are also reported in first-insertion order (a removed and re-added key counts as new; a rename is a removal and an addition under the new key), and merging and cloning produce the combined or equal map and leave the source unchanged.",
  [H,I],"every sequence of operations over every choice of keys (any equality pattern and order), up to the stated number of operations",
  T+"tests use a few fixed keys; wrong rebalancing, replacement or ordering needs particular key orders.",
  ["map.c","musl-tsearch.c","list.c"],[("AVL tree of key/value tuples","map.c"),("insertion-ordered key list","map.c")],["return values of the map API"])
p("C05","A set behaves as a finite set",
  "For every sequence of additions, removals, clears and lookups, membership, size, emptiness, the returned element, and the enumerated elements agree with a mathematical set under the given comparison: adding an element equal to a present one (the same pointer included) changes nothing. Union and clone contain exactly the right elements and leave their inputs unchanged, and a null set reads as empty.",
  [H,I],"every sequence of operations over every choice of elements up to the stated bounds",
  T+"no running test checks a set.",
  ["set.c","musl-tsearch.c"],[("AVL tree of elements","set.c")],["return values of the set API"])
p("C06","Ordered containers stay balanced",
  "Whatever the order of insertions and deletions, a set of n elements finds, inserts and removes an element, and a map finds and inserts one, with a number of key comparisons bounded by a constant times log2(n) (the height bound of an AVL tree), never degenerating to a list. (Removing from a map also searches its first-insertion key list, which is linear by design.)",
  [H,I],"every insertion order and deletion order of up to the stated number of elements",
  T+"imbalance changes no result, only cost, and needs particular orders.",
  ["musl-tsearch.c","map.c","set.c"],[("AVL rotations on insert and delete","musl-tsearch.c")],["number of comparator calls"])
p("C07","A list behaves as a sequence",
  "For every sequence of appends, inserts at any valid position, removals at any position and merges, starting from any initial capacity, also of a list into itself, size and the elements by position agree with a mathematical sequence, and growth never loses or reorders elements. Iteration visits the elements in order with their indices and stops at, and returns, the first non-zero result of the callback (zero if none or if the list is empty); a null list has size 0 and removals out of range are refused.",
  [H,I],"every operation sequence with every position up to the stated length",T+"no test compares list contents around a growth step.",
  ["list.c"],[("doubling array","list.c")],["return values and element array"])
p("C08","A stack is a bounded LIFO",
  "For every sequence of pushes and pops on a stack of any capacity, pops return the pushed elements in reverse order, the element n below the top is the right one, size, empty and full are exact, a push on a full stack is refused without effect, and a pop or top beyond the elements yields null.",
  [H,I],"every push/pop/top sequence on every capacity up to the stated bounds",T+"the stack is only used implicitly by the parser.",
  ["stack.c"],[("fixed array with used/top indices","stack.c")],["return values of the stack API"])
p("C09","A dictionary finds every key ever added",
  "For every set of keys added to a dictionary, in any order and through any number of internal table growths, looking up an added key returns the value first added under it and looking up any other key returns null.",
  [H,I],"every choice of keys (all collision patterns) up to the stated number of keys, on both sides of the growth threshold",T+"dictionaries are never exercised by a running test.",
  ["dict.c","musl-hsearch.c"],[("open-addressing table with quadratic probing and growth","musl-hsearch.c"),("dictionary wrapper","dict.c")],["lookup results"])
p("C10","Fixed-size products, tagged values and singletons hold what was put in",
  "A tuple, triple, quadruple or n-tuple holds exactly the given values in the given order, a tagged value its tag and pointer, and a singleton its tag and value, unchanged by other operations on the state. Each slot's deletion policy, including one changed later, is the one applied to that slot alone. (Values in slots whose policy deletes or counts are non-null objects, except in a tagged value; a slot is not changed from deleting to counting, because its value was never counted.)",
  [I,H],"every choice of values, policies and slots; n-tuples up to the stated arity",T+"products are not checked by a running test.",
  ["tuple.c","triple.c","quadruple.c","n_tuple.c","tagged.c","singleton.c"],[("constructors and per-slot policies","tuple.c, triple.c, quadruple.c, n_tuple.c, tagged.c")],["slot contents; liveness of slot values after deletion"])
p("C11","Boxed numbers round-trip, compare and print exactly",
  "For every numeric type and every value of it, boxing then unboxing at that type returns the identical value, the reported number of characters to print a box equals the characters printed, and printing never writes beyond the given size. The comparison function a box carries orders two boxes of the same type as their numbers do (NaN, which has no order, excepted).",
  [I],"all values of each of the ten numeric types",T+"boundary values of the unsigned and narrow types are never tried.",
  ["boxed.c","cee-common.c"],[("tagged union of primitives","boxed.c")],["unboxed value; comparison sign; printed text"])
p("C12","String building yields exactly the formatted text, in bounds",
  "Creating a string from a format, a byte range or a capacity, appending a character, appending formatted text, replacing the content, and trimming on either side produce exactly the expected null-terminated text for every input length, and never read or write outside the string's block, whatever the relation between the text and the block size. A string that had to grow keeps its old content and is still owned by its state exactly once.",
  [I,H],"every content and length up to the stated bounds on both sides of every block-size boundary, in sequences of operations",T+"overflows appear only when the length meets the block rounding.",
  ["str.c","cee-resize.h"],[("size rounding, probing with vsnprintf, resize","str.c")],["text and terminator of the string; memory accesses"])
p("C13","Substring replacement replaces every occurrence and nothing else",
  "Replacing all occurrences of one or several substrings, or the bytes at an offset, yields exactly the text with the non-overlapping left-to-right occurrences replaced, null-terminated in a sufficiently large block, for every text, pattern and replacement length. It terminates, never reads or writes out of bounds and leaves its input unchanged.",
  [I],"every text, pattern and replacement up to the stated lengths",T+"the functions are not called by any running test.",
  ["str.c"],[("two-pass sizing and copying","str.c")],["returned text; memory accesses"])
p("C14","Environments scope lexically and closures receive their arguments",
  "Looking up a name in an environment returns the binding of the innermost enclosing environment that binds it, and null if none does, for every nesting depth. Calling a closure passes it the state, its own captured environment, the argument count and the arguments in order, and returns the function's result.",
  [H,I],"every assignment of names to levels up to the stated depth and number of arguments",T+"environments and closures are not exercised by a running test.",
  ["env.c","closure.c"],[("lookup along the outer chain","env.c"),("variadic call","closure.c")],["lookup and call results"])
p("C15","String views slice without ever leaving the underlying text",
  "Every string-view operation (chopping by count, delimiter or predicate, trimming, searching, comparing, prefix and suffix tests, conversion to numbers) returns the slice, index or number its definition says, for every view and argument, including empty views and arguments longer than the view. None reads outside the view, and the parts chopped off together with the rest cover the original exactly.",
  [I],"every view content and argument up to the stated length",T+"the file has no tests.",
  ["strview.c"],[("count/data arithmetic","strview.c")],["returned views and numbers; memory accesses"])
p("C16","The JSON parser accepts exactly the well-formed documents",
  "With end-of-input required, parsing a text succeeds if and only if the whole text is one well-formed JSON value per RFC 8259 (a trailing comma directly before a closing bracket is tolerated, and a // comment on the last line that a NUL byte ends counts as the end of the input) within the depth limit, and then yields the tree the text denotes: kinds, nesting, element order, keys and values; a repeated key keeps its last value. Without end-of-input required, the first value is taken as far as its tokens reach and whatever follows its last token is ignored. On rejection an error is returned, no document is produced, and the line reported is the number of line ends (LF, CR or CR LF) before the offending token, counted from 0.",
  [I],"every byte string up to the stated length, plus structured documents beyond it",T+"they parse one or two fixed documents and look at nothing.",
  ["cee-json/parser.c","cee-json/tokenizer.c"],[("push-down state machine","cee-json/parser.c"),("tokenizer","cee-json/tokenizer.c")],["return code, document tree, error line"])
p("C17","Parsing arbitrary bytes is memory-safe, terminates and leaks nothing",
  "For every buffer content and every length, including texts cut anywhere and texts not followed by a NUL, parsing reads only the given bytes, terminates, and afterwards deleting the state frees everything that was allocated, whether the text was accepted or not.",
  [I],"every buffer of every length up to the stated bound, accepted or rejected, in both end-of-input modes",T+"malformed or truncated inputs are never tried.",
  ["cee-json/parser.c","cee-json/tokenizer.c"],[("bounds on the token cursor","cee-json/tokenizer.c"),("everything allocated under the state","cee-json/parser.c")],["memory accesses; allocations alive at the end"])
p("C18","JSON string literals decode to exactly the characters they denote",
  "A string literal without escapes decodes to its own bytes; with escapes, each short escape and \\uXXXX (in either hex case) decodes to the right character in UTF-8, surrogate pairs combine into one character, and the rest is copied unchanged (\\u0000, which a C string cannot carry, excepted). Literals with unknown or truncated escapes, unpaired surrogates, raw control characters or a missing closing quote are rejected, and so is a literal with escapes whose decoded text is not UTF-8.",
  [I],"every \\uXXXX value and pair, every escape letter, every literal up to the stated length",T+"no test decodes an escape and checks it.",
  ["cee-json/tokenizer.c"],[("unescape and UTF-8 encoding/validation","cee-json/tokenizer.c")],["decoded string or rejection"])
p("C19","JSON numbers are accepted per the grammar and keep their value",
  "A number literal is accepted iff it matches the JSON number grammar; an integer literal (no fraction or exponent) yields exactly that integer when it fits a signed 64-bit or an unsigned 64-bit integer, and any other literal the nearest double. Conversions of a number value to int, int64, uint64, double or boolean either yield the value or report failure.",
  [I],"every literal up to the stated length, and all integer literals around the 64-bit boundaries",T+"only small integers and one or two doubles are ever parsed.",
  ["cee-json/tokenizer.c","cee-json/value.c"],[("number scanner and conversion","cee-json/tokenizer.c"),("typed accessors","cee-json/value.c")],["number type and value"])
p("C20","Nesting is limited cleanly",
  "Documents nested up to 500 levels (MAX_JSON_DEPTH) parse and print back completely; documents nested deeper than 512 are rejected with an error and without a document, and those between are either. No depth of nesting of a text, in arrays, objects or a mix, overflows the parser, the printer or the deletion of a parsed document, and documents built deeper through the interface print completely.",
  [I],"every depth around the limits and every mix of arrays and objects at the stated positions",T+"no test nests deeper than a few levels.",
  ["cee-json/parser.c","cee-json/snprint.c"],[("explicit parse stack","cee-json/parser.c"),("explicit print stack","cee-json/snprint.c")],["return code; printed text"])
p("C21","Printing reports its exact size and stays in bounds",
  "For every JSON value and both formats, the size reported by printing into no buffer equals the number of bytes written when printing into a buffer (terminating NUL not counted), exactly those bytes are written, into a smaller buffer as many of them as fit with a terminating NUL and none beyond it, and the allocating variant returns a block that holds the text and its NUL and reports the size of the text. Compact output contains no whitespace outside strings, and pretty output is the same document with only whitespace added.",
  [I],"every document shape up to the stated size with arbitrary strings, keys and numbers",T+"printed lengths are never compared and buffers are generously sized.",
  ["cee-json/snprint.c","boxed.c"],[("sizing pass and printing pass over one explicit stack","cee-json/snprint.c")],["return value; bytes written"])
p("C22","Printing then parsing gives back the same document",
  "For every JSON value without blobs, undefined values or non-finite doubles, the printed text in either format is well-formed and parses back to an equal document: same kinds, integers, doubles, strings, keys with any content, element order and key set.",
  [I],"every document up to the stated size, strings over all non-zero bytes that form valid UTF-8, integers and doubles including extremes",T+"tests print but never compare.",
  ["cee-json/snprint.c","cee-json/parser.c","cee-json/tokenizer.c"],[("escaping of strings and keys, number formats","cee-json/snprint.c"),("parser","cee-json/parser.c")],["re-parsed document"])
p("C23","The JSON object and array interface does what it says",
  "Setting, getting, removing, renaming and appending keys of an object, and appending, inserting, removing, concatenating and reading elements of an array, with every value kind, act like the corresponding map and sequence operations and keep the stored kind and value exactly. Accessors of the wrong kind return null or failure, appending under a key turns a single value into an array holding it, and the recursive key search finds a key iff it occurs in some nested object.",
  [H,I],"every sequence of operations up to the stated bounds over every value kind",T+"a handful of setters is called without checking results.",
  ["cee-json/value.c"],[("typed wrappers over map and list","cee-json/value.c")],["values read back through the API"])
p("C24","JSON selectors find exactly the addressed value",
  "Selecting with a well-formed path (any sequence of .key, [index] and :type steps, * taking the key or index from the arguments) returns the value that following the path step by step reaches, and null when a step does not exist or the type does not match. It never reads or writes out of bounds for any selector text, however long or malformed.",
  [I],"every selector text up to the stated length over representative documents, token lengths around the internal limit",T+"a few fixed selectors are run without checking.",
  ["cee-json/value.c"],[("selector tokenizer and recursive descent","cee-json/value.c")],["selected value; memory accesses"])
p("C25","JSON merge combines documents key by key",
  "Merging object b into object a leaves a with the union of the keys: keys only in one side keep their value, keys whose values are both objects are merged recursively, two arrays are concatenated, and for any other clash the value of b is taken; b is unchanged when it shares nothing with a. A document merged with itself follows the same rules (its arrays are doubled).",
  [I,H],"every pair of small nested objects over a shared key set",T+"one fixed merge is run without checking.",
  ["cee-json/cee_json_merge.c","cee-json/value.c","map.c"],[("recursive map merge","cee-json/cee_json_merge.c")],["merged document"])
p("C26","JSON string escaping is exact, resumable and in bounds",
  "Escaping a string reports the exact number of bytes the escaped form needs, writes exactly those bytes when the destination has room, and never writes past the stated destination size. Unescaping the result per RFC 8259 gives back the input for every byte string.",
  [I],"every byte string up to the stated length and every destination size",T+"the function has no test of control characters or exact sizes.",
  ["cee-json/value.c"],[("cee_json_escape_string: two-pass escape","cee-json/value.c")],["bytes written and counts"])
p("C27","Saving, loading and merging files preserves documents under I/O faults",
  "Saving a document to a file and loading it back gives an equal document, however the operating system splits reads and writes, and merging files, which must hold objects, yields the merge of their documents in order with the list of files under the key originals. A missing, unreadable, empty or malformed file, or a failing write, is reported as a failure and leaks nothing.",
  [F,I],"every split of reads and writes and every failing call, for small documents",T+"no test injects short or failing I/O.",
  ["cee-json/value.c","cee-json/cee_json_merge.c","cee-json/snprint.c"],[("read and write loops","cee-json/value.c")],["result of load/save; file content"])
p("C28","The SQLite binding sends exactly the given values",
  "For every table description and JSON input: a composed statement names exactly the given columns (and, when inserting, the required ones), every parameter is bound to the value given for its column with the kind the column declares (else the default of the description; a missing required value of an insertion is zero or empty, any other missing value null), a statement with a parameter no column describes is refused, an input value of the wrong kind is reported and not sent. Selected rows come back one by one, in order, with one entry of the right kind and value per column that is to be returned; insert, update, delete, update-or-insert, select-or-insert and joins run exactly the statements they must, in order, and tell row id, change count and failure truthfully; another database is attached under its path and name or, when the statement does not fit the given buffer, not at all. Whatever database call fails, the failure is reported, and every prepared statement is finalised and all memory released.",
  [F,I],"every combination of column kinds, present or missing values and failing database call, up to the stated number of columns",T+"the binding has no tests that run.",
  ["sqlite3/cee-sqlite3.c","sqlite3/join.c"],[("dynamic statement composition, parameter binding, row conversion","sqlite3/cee-sqlite3.c"),("joins","sqlite3/join.c")],["calls received by the database; returned JSON"])
p("C29","Hash table, linear search and queue primitives keep every entry",
  "The bundled hash table finds every entered key across growth and reports a full or missing entry correctly (a table that cannot grow refuses the entry and keeps what it has), linear search finds or appends exactly once, and queue insertion and removal keep both link directions consistent, for every sequence of operations.",
  [H,I],"every operation sequence up to the stated bounds",T+"the primitives are not tested.",
  ["musl-hsearch.c","musl-lsearch.c","musl-insque.c"],[("open addressing, linear scan, doubly linked list","musl-hsearch.c, musl-lsearch.c, musl-insque.c")],["results of the primitives"])
p("C30","Memory blocks have the requested size and content, strings their end",
  "A block of n bytes offers at least n usable bytes, zeroed or initialised as requested, reports its size, and stays valid and unmoved until deleted, for every n including 0; finding the end of a string returns its terminator or null when the block holds none.",
  [I],"every n up to the stated bound",T+"block sizes around the rounding are never tried.",
  ["block.c","str.c"],[("size rounding and zeroing","block.c")],["usable bytes and contents"])

p("C31","The database manager brings a database to its version",
  "Preparing a database makes the directories that are missing, outermost first; creates the database with the creation script of its kind and version when the file is missing, or after dropping every table when it is to be recreated; only then, if asked, runs the restoration script and the customization script of the version that resulted, if there are such files; runs the migration script of that version if there is one; and reports whether the database is new and the version it ended with. Every script named by kind and version under the configured directories is used under its full name however long these names are, as are the database to open, to attach or to back up; all databases opened on the way are closed again, and script texts released. $HOME at the start of a configured path stands for the home directory, any other path is left alone, and descriptions never write beyond the buffer they are given.",
  [F,I],"every combination of existing files and directories, flags and versions, names up to the longest the records hold, every size of buffer",T+"the manager has no tests.",
  ["sqlite3/cee_dbm.c"],[("database preparation, backup, opening and attaching, path records","sqlite3/cee_dbm.c")],["scripts and statements run, directories made, texts written"])
