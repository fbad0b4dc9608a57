#!/usr/bin/env python3
"""Writes properties.jsonl (kept as a script so the list stays readable)."""
import json
H='include/pystd2026.hpp'; S='src/pystd2026.cpp'
P=[]
def p(id,title,statement,over,text,why,files,mech,state=None,observe=None):
    a={"files":files,"mechanism":[{"name":m,"where":files[0] if len(files)==1 else ", ".join(files[:3])} for m in mech]}
    if state: a["state"]=[{"name":x,"meaning":"the state the mechanism maintains","where":files[0]} for x in state]
    if observe: a["observe_at"]=observe
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":text},"why_tests_cant":why,"anchors":a})

p("P01","Byte buffers behave as a growable byte sequence",
  "After any sequence of construction, append, insert, assign, extend, shrink, resize, pop, remove, copy, move and comparison operations a Bytes object holds exactly the bytes that an ideal growable byte sequence would hold after the same operations. Copies are independent of their source, a moved-from or self-assigned buffer stays usable, and ==, < and <=> agree with unsigned lexicographic order. Reads and edits outside the current contents are refused with PyException instead of touching memory.",
  ["inputs","histories"],"every history of Bytes operations, any byte values, any sizes around growth boundaries",
  "Growth, aliasing and shifting bugs depend on the exact size/capacity reached by a long history; unit tests use a handful of short buffers.",
  [H,S],["class Bytes","Bytes::grow_to","Bytes::insert","Bytes::remove","Bytes::pop_front"],["Bytes::buf","Bytes::bufsize"],["Bytes::data()/size()/operator[]"])
p("P02","CString is always a NUL-terminated string equal to its model",
  "After any sequence of CString operations (construction, append, +=, insert, remove, strip, pop_back, substr, clear, resize-free editing, assignment including from views into itself, move) the string holds exactly the characters an ideal string would hold, c_str()[size()] is NUL and no NUL occurs before it; its queries (find, rfind, substr, split, comparison) answer for exactly those characters. Attempts to introduce an embedded NUL or to edit outside the string are rejected with PyException and leave a valid string.",
  ["inputs","histories"],"every history of CString edits over any non-NUL bytes, including self-aliasing arguments",
  "The terminator must survive every combination of edits at every capacity; tests check a few fixed strings.",
  [H,S],["class CString","CString::check_embedded_nuls","CString::strip","CString::insert"],["CString::bytes"],["CString::c_str()/size()"])
p("P03","String views answer queries like the character sequence they show",
  "For every string and every view of any part of it, CStringView and ZStringView size, indexing, find, starts_with, substr/subview, ==, <, overlaps, upper, lower and the split functions (also CString find, rfind, split, split_by) return exactly what the definition on the viewed character sequence says. They never look outside the viewed range, even when the view is not NUL terminated.",
  ["inputs"],"every pair of byte strings, needle/haystack, every sub-range, every separator",
  "Substring search and comparison go wrong only at particular overlaps, prefixes and end positions that few hand-picked strings hit.",
  [H,S],["CStringView::find","CStringView::substr","CStringView::split","CString::split_by","ZStringView::subview"],None,["return values of the view queries"])
p("P04","Bounded containers never exceed capacity and behave as sequences",
  "FixedVector and FixedCString behave exactly like a sequence (string) whose size never exceeds the declared maximum: insert, push, emplace, pop_front, pop_back, delete_at, move_append, assignment and move give the same contents as the ideal sequence. Operations that would exceed the capacity or address outside the contents are refused (false or PyException) and leave the contents unchanged (FixedCString may be indexed up to its buffer size); a FixedCString is always NUL terminated at size().",
  ["inputs","histories"],"every history of operations, element types with ownership, capacities from 1 upward",
  "Off-by-one errors appear only when exactly full or empty and for shifting at particular positions.",
  [H],["class FixedVector","class FixedCString","FixedVector::insert","FixedVector::delete_at"],["FixedVector::backing","FixedVector::num_entries","FixedCString::buf"],["operator[], size(), c_str()"])
p("P05","Exactly the well-formed UTF-8 byte sequences are accepted",
  "Constructing a U8String or U8StringView from bytes succeeds if and only if the bytes are well-formed UTF-8 as defined by Unicode (no overlong forms, surrogates, values above U+10FFFF, stray or missing continuation bytes) and, for U8String, free of NUL; otherwise PyException is thrown. An accepted string keeps its bytes unchanged.",
  ["inputs"],"every byte sequence",
  "The space of malformed sequences is combinatorial; tests try a few.",
  [S],["is_valid_utf8","is_valid_utf8_character","U8String::U8String","U8StringView::U8StringView"],None,["constructors"])
p("P06","U8String iteration and editing agree with the code point sequence",
  "For every valid string, forward iteration, backward stepping and reverse iteration yield exactly its Unicode code points in order. Every U8String operation (append_codepoint, +=, insert, remove, pop_front, pop_back, substr, join, split, split_ascii, comparison, contains, copies) gives the result of the same operation on the code point sequence, and the string remains well-formed UTF-8 after each.",
  ["inputs","histories"],"every string over all code point lengths, every history of edits",
  "Mixed-width sequences and edits at every boundary cannot be sampled by a few literal strings.",
  [H,S],["ValidU8Iterator","ValidU8ReverseIterator","U8String::insert","U8String::remove","U8String::append_codepoint","U8String::join"],["U8String::cstring"],["cbegin/cend/crbegin/crend, c_str"])
p("P07","Unicode case mapping matches the Unicode tables for every code point",
  "uppercase_unicode and lowercase_unicode return, for every code point, the full (one to three code points) Unicode case mapping, and U8String/U8StringView upper() and lower() are the concatenation of the mappings of their code points. Code points without a mapping are returned unchanged. The mapping does not depend on the neighbouring code points or on the locale the program has set.",
  ["inputs"],"all 1,112,064 Unicode scalar values and every string over them, in every locale",
  "The mapping is table driven with thousands of entries; tests check a few letters.",
  [S,"src/pystd2026_tables.cpp","src/pystd2026_tables.hpp"],["uppercase_unicode","lowercase_unicode","lower_bound over the tables","U8StringView::upper"],None,["return values"])
p("P08","Vector and Stack behave as ideal sequences",
  "After any history of Vector (and Stack) operations - push_back, emplace_back, append, assign, pop_back, clear, reserve, append_with_default, copy, move, iterator-range construction, indexing, iteration, equality - the contents equal those of an ideal sequence after the same history, including when an argument refers to an element of the vector itself. Growth never loses, duplicates or reorders elements, storage is correctly aligned, and out-of-range access throws PyException. A size that cannot be allocated is refused with PyException or ends the process; it never gives a vector that claims room it does not have.",
  ["inputs","histories"],"every history of operations, element types trivial, over-aligned and owning",
  "Reallocation with aliasing arguments happens only at exact capacity boundaries.",
  [H],["class Vector","Vector::resize_capacity_to","Vector::push_back","Vector::reserve"],["Vector::buffer","Vector::num_entries","Vector::buf_capacity"],["operator[], begin/end, size"])
p("P09","Every element is constructed once, destroyed once and never used dead",
  "Across all containers and wrappers (Vector, FixedVector, Optional, Expected, unique_ptr, unique_arr, Variant, Stack, HashMap, HashSet, BTree, and the sort/partition algorithms) every element object that is constructed is destroyed exactly once, no operation reads, assigns or destroys an object outside its lifetime, and no memory is leaked. Moving transfers the value to exactly one destination. This includes operations cut short by an exception from user code (a copy, conversion, comparison or predicate that throws).",
  ["histories","inputs"],"every history of container operations with instrumented element types",
  "Lifetime errors are invisible to value assertions and need a monitor that tracks each object identity across long histories.",
  [H,"include/pystd2026_variant.hpp","include/pystd2026_hashtable.hpp","include/pystd2026_btree.hpp"],["Vector::resize_capacity_to","FixedVector::insert","Optional::destroy","HashMap grow/remove","Variant destroy/move"],["element objects"],["constructor/destructor/assignment events of the element type"])
p("P10","HashMap and HashSet behave as an ideal map and set",
  "After any history of insert, remove, lookup, contains, clear-like and copy/move operations a HashMap (HashSet) holds exactly the key/value pairs an ideal map holds: one entry per key, the latest value, correct size, and iteration visits every entry exactly once. This is independent of hash values, collisions, table growth and the number of removals, and every operation terminates. An insert that fails because the key being inserted can not be copied changes nothing. Keys and values are stored correctly aligned.",
  ["histories","inputs"],"every history, every hash function including constant ones, keys of every supported type",
  "Open addressing with tombstones fails only after particular insert/remove/collision interleavings.",
  ["include/pystd2026_hashtable.hpp"],["HashMap::insert","HashMap::remove","HashMap::lookup","HashMap::grow","HashSet"],["MapData hash/key/value arrays"],["lookup, contains, size, begin/end"])
p("P11","Equal strings hash equally whatever type carries them",
  "Any two objects that compare equal as character sequences feed identical data to a hasher whether held as CString, CStringView, ZStringView, U8String or U8StringView, and hashing the same object twice gives the same value; so do equal Bytes objects whatever their history. Hash values depend on every byte fed and on nothing else (in particular not on the terminating NUL, the capacity or the address).",
  ["inputs"],"every string content and history that led to it",
  "Dependence on hidden state (terminator, stale capacity, address) only shows for particular histories.",
  [H,S],["SimpleHash::feed_bytes","Hasher","feed_hash members"],None,["Hasher::get_hash_value"])
p("P12","BTree and BTreeMap behave as an ordered set and map",
  "After any history of insert, remove, lookup, move and iteration a BTree, BTreeSet or BTreeMap contains exactly the values an ideal ordered set or map contains, for every node fan-out, and iteration yields them in strictly increasing order. size, is_empty, contains and lookup agree with the contents; re-inserting an equal value does not duplicate it (in a BTreeMap the new value replaces the old one), removing an absent one changes nothing.",
  ["histories","inputs"],"every history of inserts and removals, every fan-out",
  "Node splits, borrows and merges at several levels only happen for long, specific histories.",
  ["include/pystd2026_btree.hpp"],["BTree::insert","BTree::remove","split/merge/extract helpers","debug checks"],["BTree nodes and root"],["lookup, iteration, size"])
p("P13","Optional, Expected, Variant and owning pointers hold what was put in",
  "Optional, Expected, Variant (its comparison operators aside), unique_ptr, unique_arr and Span hold exactly the value, error, alternative, pointer or range last assigned, through every sequence of construction, copy, move, assignment (between all states), reset and release, and report their state correctly; an Optional (of anything but a plain pointer), Expected or owning pointer that was moved from holds nothing. Accessing something that is not there is refused (PyException or abort), never returned.",
  ["histories","inputs"],"every state pair for assignment and move, every history",
  "State-machine errors appear only on particular transitions between states.",
  [H,"include/pystd2026_variant.hpp"],["Optional","Expected","Variant","unique_ptr","unique_arr","Span::subspan"],["has_value/state/type id"],["accessors"])
p("P14","Every sort returns the sorted permutation of its input",
  "For every input and every strict weak ordering supplied as comparator, each sorting function (insertion, heap, shell, intro, merge, stable, radix, bucket and indirect sort) leaves the range ordered according to that comparator and containing exactly the original elements. It touches nothing outside the range.",
  ["inputs"],"every sequence (any length, duplicates, presorted, adversarial), element types, comparators and iterator kinds",
  "Sorting bugs hide in specific lengths, duplicate patterns and pivot choices.",
  [H,"include/pystd2026_introsort.hpp","include/pystd2026_mergesort.hpp","include/pystd2026_heapsort.hpp","include/pystd2026_shellsort.hpp","include/pystd2026_radixsort.hpp","include/pystd2026_bucketsort.hpp","include/pystd2026_indirect_sort.hpp"],["introsort","mergesort","heapsort","shell_sort","radix_sort","bucketsort","insertion_sort"],None,["array before and after"])
p("P15","Stable sorts and stable partition keep equal elements in order",
  "insertion_sort, the merge/stable sort functions, indirect stable sort and stable_partition never change the relative order of elements that compare equal (or fall on the same side of the partition), for every input, comparator and length.",
  ["inputs"],"every sequence with duplicates, every length",
  "Stability is lost only for particular duplicate runs crossing merge boundaries.",
  [H,"include/pystd2026_mergesort.hpp","include/pystd2026_stablepartition.hpp","include/pystd2026_indirect_sort.hpp"],["mergesort","stable_partition","insertion_sort","rotate_last_to_front"],None,["(key, original index) pairs after the call"])
p("P16","Sorting work and recursion stay within the advertised bounds",
  "introsort, heapsort and mergesort perform O(n log n) comparisons and use at most logarithmic stack depth on every input, including adversarial (organ-pipe, all-equal, median-of-three killer) ones; nth_element and hash/B-tree operations likewise stay within their expected step bounds. No input makes an algorithm fail to terminate or overflow the stack.",
  ["inputs"],"every input sequence, adversarially chosen",
  "Quadratic blow-ups and unbounded recursion only show on large adversarial inputs.",
  ["include/pystd2026_introsort.hpp","include/pystd2026_heapsort.hpp","include/pystd2026_mergesort.hpp","include/pystd2026_nth_element.hpp"],["introsort depth limit","heapsort fallback","mergesort levels"],None,["comparator call counts"])
p("P17","Partition, rotate, selection and search algorithms meet their definitions",
  "For every input: partition and stable_partition put exactly the elements satisfying the predicate before the returned point; rotate and its helpers produce the exact rotation; nth_element and partial_sort put the right elements in the right places; lower_bound, find, find_if, min_element, max_element and is_sorted return the defined position or answer. All results are permutations of the input and nothing outside the range is accessed.",
  ["inputs"],"every sequence, position, predicate and comparator, including empty ranges",
  "Boundary positions (first, last, empty, all equal) multiply with data patterns beyond what tests sample.",
  [H,"include/pystd2026_rotate.hpp","include/pystd2026_nth_element.hpp","include/pystd2026_partial_sort.hpp","include/pystd2026_stablepartition.hpp"],["partition","rotate","nth_element","partial_sort","lower_bound"],None,["range before and after, return value"])
p("P18","Comparators are consistent total orders and clamp stays in range",
  "DefaultComparator, OnlyLessComparator, the float comparators, natural_order and the <=>, <, == operators of the value types are antisymmetric, transitive and mutually consistent, with equal() exactly when compare() is zero; NaNs order after all numbers in the total order. natural_order compares runs of ASCII digits by value and other text bytewise (for bytes above 0x7f only the order axioms are claimed). clamp of anything but NaN returns the nearest value inside the given interval.",
  ["inputs"],"all pairs and triples of values, including NaN, infinities, signed zeros, prefixes, non-ASCII bytes",
  "Order axioms are universally quantified over pairs and triples.",
  [H,S],["DefaultComparator","OnlyLessComparator","total_order_compare","FloatIgnoreNanComparator","CStringView::natural_order","clamp"],None,["compare results"])
p("P19","Command line parsing yields exactly what the arguments say",
  "For every argument specification and every argv the parser either returns exactly the values a straightforward reading of the arguments gives (short and long options, --name=value, StoreTrue/StoreFalse flags, store of strings and integers within their limits, append to string arrays, defaults) or rejects the command line with an error. Positional arguments are accepted only where the specification allows them. It never reads past argv and never silently accepts a malformed value.",
  ["inputs"],"every combination of option specs and argument vectors",
  "The interaction of option forms, missing values and repeated options is combinatorial.",
  ["include/pystd2026_argparse.hpp","src/pystd2026_argparse.cpp"],["ArgParse::parse_args","add_argument","value conversion"],["parse result tables"],["parse results, exit status"])
p("P20","Path manipulation follows the path grammar",
  "For every path text, Path joining, filename, extension, replace_extension, split, is_abs and construction return what the POSIX path grammar defines, and recombining the parts gives back an equivalent path. (Names whose only dot is the leading one are outside the claim.) exists, is_file, is_dir and rename_to agree with the file system.",
  ["inputs","configurations"],"every path string with slashes, dots, empty parts; every file system state",
  "Slash and dot placement is combinatorial.",
  ["src/pystd2026_filesystem.cpp",H],["Path::operator/","Path::extension","Path::filename","Path::replace_extension","Path::split"],None,["returned paths"])
p("P21","Globbing returns exactly the matching files",
  "Path::glob yields every existing entry whose path relative to the starting directory matches the pattern exactly once, yields nothing else, and never reads outside its buffers. A pattern is a relative path whose components are literal text mixed with * (any run of characters, also none) and ? (one character), plus at most one ** component before the last one (any depth of directories, also none; directories whose name starts with a dot are not entered); * and ? do not match the leading dot of a hidden name. Patterns with a second ** are refused with PyException. Directory entries reached through symbolic links to directories, a final ** component and empty or absolute patterns are outside the claim.",
  ["inputs","configurations"],"every directory tree and every pattern",
  "Matching depends on the product of tree shapes, names and patterns.",
  ["src/pystd2026_filesystem.cpp"],["glob_matches","GlobResultInternal","glob_starstar_dirs","enter_subdir"],["GlobResultInternal directory stack"],["GlobResult::next"])
p("P22","File contents are delivered byte for byte",
  "Path::load_bytes, Path::load_text, File::readline_bytes, File line iteration and mmap_file deliver exactly the bytes of the file: loading returns them all, the lines concatenate back to the file with each line ending at its newline, and load_text returns a value only for valid UTF-8, and then the whole text. Missing or unreadable files give an empty result, mappings are released exactly once.",
  ["inputs","configurations"],"every file content and size, including empty, no trailing newline, NUL bytes and invalid UTF-8",
  "Content-dependent boundaries (no final newline, size zero, page-size multiples) are unbounded.",
  ["src/pystd2026_filesystem.cpp",S],["Path::load_bytes","Path::load_text","File::readline_bytes","mmap_file","MMapping"],["FILE*, mapping"],["returned bytes"])
p("P23","Regex search agrees with the pattern semantics",
  "For every valid pattern and subject, regex search reports a match exactly when PCRE semantics define one, with the leftmost match position and every capture group's text and bounds correct, unset groups reported as empty or refused. Subjects that do not match and invalid patterns are reported by PyException, and no group index reads outside the match data. (\\C, which splits UTF-8 characters, is outside the claim.)",
  ["inputs"],"every pattern and subject, including optional groups and non-ASCII text",
  "Patterns and subjects are unbounded; tests use a few.",
  ["src/pystd2026_regex.cpp","include/pystd2026_regex.hpp"],["regex_search","RegexMatch::group","get_submatch"],["PCRE2 match data"],["match results"])
p("P24","Ranges, enumerations and loop adaptors visit exactly the right items",
  "Range(start, end, step) yields exactly the arithmetic sequence Python's range yields for every non-zero step, EnumerateView pairs each element with its index, and LoopView and Loopsume visit every item produced by next() exactly once in order and then stop.",
  ["inputs"],"every start, end, step including negative steps and the ends of the 64-bit range",
  "Termination at 64-bit extremes and negative steps are not sampled.",
  [H,S],["Range::next","LoopView","Loopsume","EnumerateView"],["Range::i"],["values produced"])
p("P25","Formatting delivers the complete formatted text",
  "cformat, format_append and cformat_with_cb produce exactly the text that vsnprintf produces for the same format and arguments, of any length, delivered once; format_append leaves the earlier contents of the destination in place. A text with a zero in it is delivered whole to a callback and refused with PyException, the destination unchanged, where a CString is to hold it.",
  ["inputs"],"every format/argument combination and every output length",
  "Output length crosses the internal buffer size only for long outputs.",
  [S,H],["cformat_with_cb","cformat","format_append"],None,["resulting strings"])
p("P26","Mutexes exclude, guards release and threads join exactly once",
  "At most one thread is inside a critical section guarded by a Mutex/MutexGuard, a guard releases its mutex on every exit path including exceptions, everything done before a thread starts or before join is visible on the other side, each Thread runs its function exactly once and join returns only after it finished. try_lock succeeds exactly when the mutex is free; a second join or detach, or joining a detached thread, is refused with PyException.",
  ["schedules"],"every thread schedule and number of threads",
  "Exclusion and visibility are quantified over interleavings.",
  ["src/pystd2026_threading.cpp","include/pystd2026_threading.hpp"],["Mutex::lock/unlock","MutexGuard","Thread::join"],["pthread mutex, thread handle"],["critical-section event log"])
p("P27","Independent objects and shared const objects are safe to use in parallel",
  "Threads working on distinct objects, or only reading the same object through const operations, never race on hidden shared state and obtain the same results as when run alone. This holds for strings, containers, hashing, sorting, formatting, regex search and case mapping.",
  ["schedules"],"every schedule of threads using distinct or const objects",
  "Hidden static or mutable cached state only shows under concurrent schedules.",
  [H,S,"src/pystd2026_regex.cpp","include/pystd2026_nth_element.hpp"],["absence of mutable globals","const member functions"],None,["race detector reports, per-thread results"])
p("P28","No use of the public API corrupts memory or is undefined behaviour",
  "Any program that calls the public API of the current epoch (2026) with arguments of the documented types, including invalid indices, malformed text, empty objects, self-aliasing arguments and hostile file contents, runs without out-of-bounds access, use of freed or uninitialised memory, leaks or other undefined behaviour. A PyException can be made from any message and carries it (bytes outside ASCII as question marks). Misuse that the library checks is reported only by PyException or a deliberate abort (for example Bytes::insert of a range of its own contents). Using a moved-from container other than to assign to or destroy it, and iterators kept across edits, are outside the claim.",
  ["inputs","histories"],"every sequence of API calls across all components",
  "Memory errors are silent in ordinary test builds and depend on unsampled histories.",
  [H,S,"src/pystd2026_regex.cpp","src/pystd2026_filesystem.cpp","src/pystd2026_argparse.cpp"],["bounds checks via bootstrap_throw","unique_arr","Vector storage"],None,["sanitizer reports on whole workloads"])
p("P29","Epoch 2025 stays frozen and coexists with 2026 in one program",
  "Code written against pystd2025 that stays within what that release defines (no undefined behaviour, no dependence on addresses or uninitialised memory) compiles and observes exactly the behaviour of the released 2025 epoch for every input (results, exceptions, ordering, hashes, capacities, deliberate aborts), no matter what changes in later epochs. Both epochs can be included, linked and used together in one program, in either include order, without affecting each other's results.",
  ["inputs","histories"],"every program using the 2025 API, alone or mixed with 2026",
  "Freezing is a statement about all behaviours, not the few that 2025 tests assert.",
  ["include/pystd2025.hpp","src/pystd2025.cpp","include/pystd2025_btree.hpp","src/pystd2025_filesystem.cpp","src/pystd2025_regex.cpp","src/pystd2025_tables.cpp","src/pystd_common.cpp"],["namespace pystd2025","copy per epoch"],None,["event log of a 2025 workload compared with the released snapshot"])
p("P30","The bundled command line tools compute what they claim",
  "For every input file the tools give the right answer end to end: wordcount counts every word of a UTF-8 file (words are separated by space, tab, newline or carriage return) and lists each once with its count, most frequent first and longer ones first among equally frequent; wordsort prints every word of the file in bytewise sorted order; sorttest, stablesorttest and radixsorttest exit with 0 exactly when random.dat is a permutation of 0..n-1; argparse prints the values its arguments say. Empty files and (for wordcount) invalid UTF-8 are reported with exit status 1.",
  ["inputs"],"every input file",
  "End-to-end composition of file reading, splitting, hashing and sorting over arbitrary content.",
  ["tools/wordcount.cpp","tools/wordsort.cpp","tools/sorttest.cpp","tools/stablesorttest.cpp","tools/radixsorttest.cpp"],["main of each tool"],None,["stdout, exit status"])
with open('/verif/properties.jsonl','w') as f:
    for x in P: f.write(json.dumps(x)+'\n')
