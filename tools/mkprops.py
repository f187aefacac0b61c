#!/usr/bin/env python3
"""Writes /verif/properties.jsonl.  Edit the table here, then run this."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, observe, state=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech],
            state=[dict(name=n, meaning=m, where=w) for n, m, w in (state or [])],
            observe_at=observe, hook_needed=None)))

p("C01", "Dynamic array (sblist) is an exact by-value sequence",
  "For any item size and any growth step (explicit, default, or a list adopted from caller-provided heap memory), every history of append, append-with-index, insert, overwrite, delete, pop, indexed get, count and clear on the dynamic array returns exactly what a mathematical sequence of byte-exact item copies would, and no operation disturbs any other item. "
  "Get, overwrite, insert, delete or pop outside the valid range is refused (NULL / 0 / no effect) and leaves the list unchanged.",
  ["histories", "inputs", "configurations"],
  "all finite operation histories, all item sizes >= 1, all growth steps >= 0, all item contents, all indices",
  "The tests run a few fixed short int lists (plus one append-only run of 48-byte items); no item sizes around the 4 KB page default, no adopted memory, no mixed histories, no out-of-range index.",
  ["include/sblist.h", "src/sblist/sblist.c", "src/sblist/sblist_addi.c", "src/sblist/sblist_insert.c", "src/sblist/sblist_delete.c", "src/sblist/sblist_pop.c", "src/sblist/sblist_new_from_data.c"],
  [("grow before write", "sblist_grow_if_needed"), ("index checks and memmove", "sblist_get/_set/_insert/_delete")],
  ["sblist_* return values", "item bytes via sblist_get", "sblist_getsize"],
  [("items/count/capa", "contiguous buffer, used and allocated item counts", "include/sblist.h")])

p("C02", "Sorted insert, sort and binary search follow the comparator",
  "Inserting into a list that is sorted under a comparator places a byte-exact copy of the new item at the returned index, keeps the list sorted, and keeps exactly the previous items in their previous relative order; binary search on a sorted list returns an index whose item compares equal if one exists and -1 otherwise; sorting leaves a sorted permutation of the items. "
  "In sorted insert and binary search the comparator is always called with the searched-for (or new) item first and a list item second, and the context variants hand the caller's context pointer through unchanged. "
  "This holds for the dynamic array and for the type-generic list, for every total preorder, including lists with equal keys.",
  ["inputs", "histories"],
  "all sorted lists (with duplicates), all keys below/between/equal/above, all comparators that are total preorders returning any int magnitude",
  "Only one sorted insert of an existing int and a handful of strings are tested; sblist's sorted insert, both binary searches, the context variants and duplicates at the ends are never tested.",
  ["src/sblist/sblist_insert_sorted.c", "src/sblist/sblist_insert_sorted_r.c", "src/sblist/sblist_bsearch.c", "src/sblist/sblist_bsearch_r.c", "src/sblist/sblist_sort.c", "include/tglist.h"],
  [("hi/lo bisection", "sblist_insert_sorted*, tglist_sorted_insert_pos_impl"), ("bisection search", "sblist_bsearch*")],
  ["returned index", "list contents", "arguments seen by the comparator"])

p("C03", "Type-generic lists (tglist, tgilist) are exact typed sequences",
  "For any element type, every history of append, insert at a valid position, overwrite, delete of a valid position, get and count on a type-generic list, plain or index-table based, returns exactly what a sequence of those values would, whatever the number of elements. "
  "An index-table list keeps this under any interleaving of inserts and deletes as long as the total number of values ever added fits its index type.",
  ["histories", "inputs", "configurations"],
  "all finite histories with in-range positions, element types of any size, index types of any width within their documented capacity",
  "Tests insert mostly in order into int lists; deletes interleaved with growth, struct elements, narrow index types near their limit and insertion at capacity boundaries are not covered.",
  ["include/tglist.h", "include/tgilist.h"],
  [("doubling growth", "tglist_grow_if_needed"), ("shift by memmove", "tglist_memmove_impl"), ("append-only values + index table", "tgilist_insert/_add/_delete")],
  ["tglist_*/tgilist_* macro results", "element values"])

p("C04", "bmap is an exact ordered map",
  "For every history of checked inserts, lookups, containment tests, value updates by index and deletes by index, a bmap holds each distinct key once with the value last stored for it, its keys are iterated in comparator order with each value aligned to its key, and find/get/contains answer exactly accordingly; insert returns the index where the pair now is. "
  "Unchecked inserts of fresh keys behave the same, and all of this holds for either value-storage variant.",
  ["histories", "inputs", "configurations"],
  "all histories, int / string / struct keys and values, both BMAP_USE_TGILIST settings",
  "bmap_bench only inserts 10000 ascending decimal strings unchecked, then looks them up; overwrites, deletes, misses, integer or struct values and the index-list variant are untested.",
  ["include/bmap.h", "include/tglist.h", "include/tgilist.h"],
  [("parallel sorted key list and value list", "bmap_insert_nocheck/bmap_insert/bmap_delete"), ("bsearch over keys", "bmap_find_impl")],
  ["bmap_* results", "bmap_getkey/getval per index"])

p("C05", "hbmap is an exact map and iteration visits each entry once",
  "For any hash function and bucket count, every history of inserts, lookups, value updates and deletes by iterator on a hash map of sorted buckets answers as a map from key to last stored value, returned iterators denote the entry for that key, and a missing key yields the not-found iterator. "
  "Iterating with foreach visits every present entry exactly once, whichever buckets are empty, and the documented delete-while-iterating loop empties the map.",
  ["histories", "inputs", "configurations"],
  "all histories, all hash functions including constant and colliding ones, all bucket counts >= 1",
  "hbmap_bench inserts a million distinct strings in 256 well-filled buckets and looks them up; iteration, deletes, overwrites, empty buckets and collisions are never tested.",
  ["include/hbmap.h", "include/bmap.h"],
  [("64-bit bucket|index iterator", "hbmap_iter_*"), ("skip of empty buckets", "hbmap_next_valid_impl"), ("per-bucket bmap", "hbmap_find/insert/delete")],
  ["hbmap_* results", "foreach order-insensitive visit set"])

p("C06", "Treap list (tlist) is an exact sequence under every edit history",
  "Every history of insert-at-index, append, delete and clear on a treap list returns exactly what a sequence of byte-exact item copies would: size, item at each index, success for positions in range and refusal (0, or NULL for get) for positions out of range without any change. "
  "Items keep their contents and address while other items are inserted or deleted.",
  ["histories", "inputs"],
  "all finite edit histories, all item sizes, all indices including those out of range",
  "tlist_test compares one random history with sblist for ints and never uses an out-of-range index, other item sizes, clear, or single-ended patterns.",
  ["include/tlist.h", "src/tlist/tlist.c"],
  [("split/merge with subtree counts", "split, merge, upd_cnt"), ("index descent", "getitem, remove")],
  ["tlist_get/tlist_getsize", "tlist_insert/append/delete results"],
  [("item.cnt/prior", "subtree size and heap priority", "src/tlist/tlist.c")])

p("C07", "hashlist keeps every value and iterates each exactly once",
  "Every value added to a hash list is contained, byte for byte and in insertion order, in the bucket returned for its hash, that bucket holds only values whose hashes fall together, and a hash nothing was added for yields NULL or a bucket without it. "
  "A fresh iterator visits every value currently stored exactly once and then reports the end for good, also when buckets have become empty, and the bucket iterator visits every non-NULL bucket once.",
  ["histories", "inputs", "configurations"],
  "all histories of adds and removals through the bucket list, all bucket counts and value sizes",
  "hashlist_test adds five values in two buckets; removals, empty buckets, bucket 0 and the last bucket, and growth past the first block are not tested.",
  ["include/hashlist.h", "src/hashlist/hashlist.c", "src/hashlist/hashlist_iterator.c"],
  [("bucket = hash mod count", "hashlist_add/get"), ("two-level iterator", "hashlist_next, hashlist_bucket_next")],
  ["iterator results", "hashlist_get contents"])

p("C08", "A failed allocation is reported and leaves existing data intact",
  "Whichever single allocation fails during any container or string operation that allocates, the operation reports failure in its documented way (0, -1, NULL, or the index of the failed item), no previously stored item, key, value or count changes, and the same operation succeeds normally when retried with memory available. "
  "No allocation failure makes an operation crash or claim success.",
  ["fault_sequences", "histories"],
  "all operation histories x every position of one failing malloc/calloc/realloc/strdup within an operation",
  "No test ever makes an allocation fail.",
  ["src/sblist/*.c", "include/tglist.h", "include/tgilist.h", "include/bmap.h", "include/hbmap.h", "src/tlist/tlist.c", "src/hashlist/hashlist.c", "src/stringptr/*.c", "src/stringptrlist/*.c", "include/stringlist.h"],
  [("check before commit", "sblist_grow_if_needed, tglist_grow_if_needed, new_item"), ("roll back of the first list", "bmap_insert_nocheck, tgilist_add, tgilist_insert")],
  ["return values with an injected failure", "container contents afterwards"])

p("C09", "Memory is released exactly once: no leak, no double free",
  "Every allocation the library makes for a container or string object is released exactly once by that object's documented release functions, after any history of operations; temporary allocations never outlive the call. "
  "Functions that free contained heap values (free_values, _deep, freestrings, freeall, the key/value free flags) free each currently stored pointer exactly once and nothing else (an index-table list also those of elements deleted earlier, which it keeps).",
  ["histories", "configurations"],
  "all histories ending in any documented release function, containers by value and by pointer",
  "Tests never look at the heap; deep-free functions of sblist and tlist are not called by any test.",
  ["src/sblist/sblist.c", "src/sblist/sblist_free_values.c", "src/tlist/tlist.c", "src/hashlist/hashlist.c", "include/tglist.h", "include/tgilist.h", "include/bmap.h", "include/hbmap.h", "src/stringptrlist/*.c", "src/stringptr/*.c", "src/filelist/filelist.c"],
  [("release functions", "sblist_free*, tlist_free*, hashlist_free, bmap_fini, hbmap_fini, stringptrlist_freeall")],
  ["live allocations made by the library", "pointers passed to free"])

p("C10", "Fixed-size pool allocator never double-hands-out or loses a slot",
  "For every history of allocations and frees on a pool whose element count is a power of two (at least 2), blocks handed out at the same time are distinct, properly sized, non-overlapping slots of the pool whose contents survive until freed, and an allocation of at most the element size succeeds if and only if fewer than the element count are outstanding; larger requests always fail. "
  "Freeing a pointer that is not currently allocated from the pool (foreign, misaligned or already freed) changes nothing.",
  ["histories", "configurations"],
  "all alloc/free histories, all power-of-two pool sizes, all element sizes",
  "ssalloc_test runs random alloc/free on one configuration and checks little more than not crashing; small pools, exhaustion with holes, double and foreign frees are not tested.",
  ["include/ssalloc.c", "include/bitarray.h"],
  [("used bitmap + top mark + free count", "ssa_alloc, ssa_set, ssa_free")],
  ["pointers returned", "contents of live blocks", "success/failure"],
  [("used/top/avail", "bitmap, high-water mark, free count", "include/ssalloc.c")])

p("C11", "Guarded allocations trap the first byte past the end and free fully",
  "For every size, a guarded allocation gives that many readable, writable, zero-initialised private bytes directly followed by an inaccessible page, so touching the first byte past the end always faults. "
  "Freeing it with the same size releases all of its address space and nothing else.",
  ["inputs", "histories"],
  "all sizes including 0, exact page multiples and their neighbours; all alloc/free histories",
  "guard_alloc_test tries two sizes that are not page multiples and never checks what is unmapped.",
  ["include/guard_alloc.c"],
  [("right-aligned block before a PROT_NONE page", "guard_alloc"), ("recomputed mapping start", "guard_free")],
  ["faults on probing", "mapped regions before/after"])

p("C12", "Split, join and replace are exact and mutually inverse",
  "Splitting a string by a character or by a non-empty delimiter string yields exactly the pieces between successive non-overlapping leftmost occurrences, one more than the number of occurrences, empty pieces included, each NUL-terminated in place; joining the pieces with the delimiter gives the original back. "
  "Replace returns the text with every such occurrence replaced, of exactly that size and NUL-terminated; converting a list to text puts a line feed (or CR LF) after every entry; concatenation appends all arguments in order.",
  ["inputs"],
  "all texts, delimiters and replacement strings, including NUL bytes, overlapping patterns, matches at the very start and end, empty inputs",
  "stringptr_replace_test has eight tiny cases; split by string, line splitting at the edges, list-to-text and concat are untested.",
  ["src/stringptrlist/stringptr_splitc.c", "src/stringptrlist/stringptr_splits.c", "src/stringptrlist/stringptr_replace.c", "src/stringptrlist/stringptrlist_tostring.c", "src/stringptrlist/stringptrlist_tostring_dos.c", "src/stringptr/stringptr_concat.c"],
  [("single left-to-right scan", "stringptr_splitc/_splits"), ("size computed from the match count", "stringptr_replace")],
  ["pieces and sizes", "result strings"])

p("C13", "Length-counted strings: comparing, searching, trimming, copying",
  "On length-counted strings with arbitrary bytes, equality, contains, match-at-position, last-character search and hash depend only on the bytes within the length (equal strings hash equally, a position past the end never matches); shifting off the head or tail removes exactly the requested bytes or refuses without change when there are too few, and chomp removes exactly the trailing CR/LF bytes and reports how many. "
  "Copies, duplicates and formatted strings have exactly the source's bytes, are NUL-terminated, and are independent of the source; a new string has the requested size, room for it and a terminator. "
  "The size, pointer and emptiness accessors report exactly the string's fields (zero, none and empty for a missing string in the safe forms), strings made from literals span the whole literal, and releasing a string variable clears it.",
  ["inputs"],
  "all byte strings, lengths and positions, NULL arguments where accepted",
  "Only stringptr_eq and copy are exercised, on short text literals.",
  ["src/stringptr/*.c", "src/strlib/strdup_n.c", "include/stringptr.h", "include/stringptr_struct.h"],
  [("size-bounded memcmp/scan", "stringptr_eq/contains/here/rchr"), ("in-place truncation", "stringptr_shiftleft/chomp")],
  ["return values", "size and bytes of results"])

p("C14", "Whole-file save and load are lossless or report failure",
  "Saving a string or a string list to a file and loading it back returns the same bytes (or the same lines), replacing any earlier content, however the system splits the transfers into short reads and writes. "
  "When opening, reading or writing fails part-way the caller is told (NULL, 0, or a byte count smaller than requested equal to what was stored), and loading always terminates, returning only bytes that were in the file (an empty file loads as NULL; loading a list refuses lines longer than 1023 bytes).",
  ["inputs", "fault_sequences", "histories"],
  "all contents and sizes (0, around 64 KB chunks, with empty lines), all patterns of short and failing read/write/open calls, files that are shorter than announced",
  "One example writes a four-byte file; no short transfer, error, large file, empty line or re-read is tested.",
  ["src/stringptr/stringptr_fromfile.c", "src/stringptr/stringptr_tofile.c", "src/stringptrlist/stringptrlist_tofile.c", "src/stringptrlist/stringptrlist_fromfile.c", "src/stringptr/read_stdin_line.c"],
  [("transfer loops", "stringptr_fromfile/_tofile"), ("line loop", "stringptrlist_fromfile")],
  ["returned strings/counts", "file contents"])

p("C15", "Line reader returns exactly the file's lines in order",
  "Reading a file line by line, with the built-in or any caller buffer of at least one byte, returns exactly the newline-separated lines in order without their newline and NUL-terminated, then end-of-file persistently; a line that does not fit the buffer is reported as too long (-3) and is not consumed, so a retry with a larger buffer returns it whole. "
  "Asking for the next line's length returns its true length (whatever its size) and does not change what is read next. Reading lines from standard input takes one line per call and removes only its newline, if asked to.",
  ["inputs", "histories"],
  "all file contents (empty lines, NUL bytes, no final newline, lines around and beyond multiples of the 1024-byte buffer), all interleavings of peek/read/user-buffer read",
  "fileparser_test reads one source file with short lines using only the built-in buffer.",
  ["src/fileparser/*.c", "include/fileparser.h"],
  [("read ahead then seek back to fpos", "fileparser_readline_userbuf"), ("block-wise length probing", "fileparser_getnextlinelength")],
  ["line bytes and length", "return codes"],
  [("fpos", "offset of the next unread line", "include/fileparser.h")])

p("C16", "INI lookup returns the right section and value",
  "Looking up a section returns the lines after the first header with exactly that name up to the next header line or the end of the file, repeated lookups with next-section enumerate all sections of that name in file order, and an absent section yields an empty one (a header is a line starting with the bracketed name). "
  "Looking up a key returns everything after the first '=' of the first line in that section (or from the given start line) that starts with exactly key=, with its line index, and never a value from another section; an absent key yields an empty result and -1; the section count equals the number of header lines.",
  ["inputs"],
  "all line lists: adjacent/empty/repeated sections, keys that are prefixes of others, values containing '=' or '[', empty lines",
  "The INI tests only print; any answer passes.",
  ["src/iniparser/iniparser.c", "src/iniparser/iniparser_count_sections.c"],
  [("single scan with start/line count", "iniparser_get_section_at"), ("bounded key scan", "iniparser_getvalue_at")],
  ["ini_section fields", "value bytes and line index"])

p("C17", "Path normalisation is canonical and never escapes the root",
  "Normalising a NUL-terminated absolute path removes duplicate slashes, '.' components and trailing slashes and resolves '..' against the preceding component, and fails exactly when the path is relative, would climb above the root, or (in-place variant) is not shorter than the path limit; on success the result denotes the same location, is a fixed point, and both variants give the same answer without writing outside the documented buffer. "
  "The difference of two paths is the part of the second below the first, starting with '/', or -1 if the second is not the first or below it; on success both are left in their normal forms.",
  ["inputs"],
  "all paths over arbitrary components (names starting or ending with dots, '...', empty components), all lengths up to and beyond PATH_MAX",
  "normalizepath_test has 12 samples and never looks at the produced path; normalizepath_cstr and getpathdiff are not tested.",
  ["src/filelib/normalizepath.c", "src/filelib/normalizepath_cstr.c", "src/filelib/getpathdiff.c"],
  [("left-to-right output stack", "normalizepath, normalizepath_cstr"), ("prefix test on normalised paths", "getpathdiff")],
  ["result path and return value"])

p("C18", "File name pieces and file metadata are reported faithfully",
  "The extension of a file name is what follows its last dot and NULL if there is no dot, the file name of a path is what follows the last slash and NULL if there is none; both point into the argument. "
  "Reported file size and modification time are those of the named file, and 0 if it does not exist.",
  ["inputs"],
  "all names (leading, trailing, repeated, absent dots; empty), all paths, all file sizes including above 4 GB",
  "No test calls these functions.",
  ["src/filelib/getfileext.c", "src/filelib/getfilename.c", "src/filelib/getfilesize.c", "src/filelib/getfilemodtime.c"],
  [("backward scan", "getFileExt, stringptr_rchr"), ("stat", "getfilesize, getFileModTime")],
  ["returned offsets and numbers"])

p("C19", "Lightweight printf family formats like POSIX within the buffer",
  "For every format using literal text, %%, %s, %c, %d, %u, %x, %X, %ld, %lu, %lld, %llu, %zd, %zu, %p and a decimal precision from 1 to 30 such as %.4d on the integer conversions, the output is what POSIX printf produces (%p as bare upper-case hex), truncated to destsize-1 bytes and NUL-terminated, nothing is ever written beyond destsize, and the return value is the number of bytes stored. "
  "With a NULL destination it returns the full length; an unsupported or incomplete conversion or a NULL string returns -1; the print-to-descriptor variants (up to 4095 bytes) and the length-counted-string variant (up to 999 bytes) emit exactly the formatted bytes.",
  ["inputs"],
  "all format strings in the subset and beyond, all argument values including extremes, all destination sizes including 0 and NULL",
  "spformat_test has about 15 fixed samples with single-digit precision and small positive values.",
  ["src/format/ulz_vsnprintf.c", "src/format/ulz_snprintf.c", "src/format/ulz_fprintf.c", "src/format/ulz_printf.c", "src/stringptr/stringptr_format.c", "src/strlib/numberToString.c"],
  [("format interpreter", "ulz_vsnprintf"), ("digit generation", "numberToString")],
  ["buffer bytes", "return value"])

p("C20", "Integer-to-text and text-to-integer conversions are exact",
  "Every signed or unsigned 32- or 64-bit integer converts to its exact positional representation: minimal digits, '-' only for negative values, zero as a single 0 (for the generic converter: in every even base from 2 to 62, zero-padded to the given length only when padding is requested, lower case on request for bases up to 36, NULL for an odd or too large base). "
  "Parsing the decimal text of any 32- or 64-bit signed integer gives that integer back; nothing is written outside the documented buffer size.",
  ["inputs"],
  "all 32/64-bit values including INT_MIN, UINT_MAX, INT64_MIN, UINT64_MAX, all valid bases, lengths and flags",
  "itoa/utoa/numberToString tests only print a few small values; any output passes.",
  ["src/strlib/numberToString.c", "src/strlib/itoa.c", "src/strlib/utoa.c", "src/strlib/intToString.c", "src/strlib/uintToString.c", "src/strlib/int64ToString.c", "src/strlib/uint64ToString.c", "src/strlib/strtoint.c", "src/strlib/strtoint64.c"],
  [("division loop", "numberToString, itoa, utoa"), ("weighted digit sum", "strtoint, strtoint64")],
  ["returned text", "parsed value"])

p("C21", "Base64 and hex coding round-trip and reject malformed input",
  "Encoding any bytes as base64 or hex gives the standard text (padded base64, lower-case hex) with the documented length, and decoding it gives the bytes back; hex decoding also accepts upper case and an odd number of digits (an implied leading 0). "
  "Base64 decoding returns 0 for text that is empty, has a length not divisible by 4, contains a character outside the alphabet, or has misplaced or more than two '=', and, like the bounded string encoder, reports failure when the output buffer is too small, never writing past the given length; what the bounded string encoder then leaves is a terminated prefix of the encoding.",
  ["inputs"],
  "all byte strings, all candidate base64 texts, all destination sizes",
  "base64_test has a fixed list of samples with generous buffers; raw2hex/hex2raw have three.",
  ["src/strlib/base64enc.c", "src/strlib/base64enc_str.c", "src/strlib/base64dec.c", "src/strlib/base64_tbl.c", "src/strlib/raw2hex.c", "src/strlib/hex2raw.c", "src/strlib/hexval.c"],
  [("24-bit groups", "base64enc*, base64dec"), ("nibble tables", "raw2hex, hex2raw, hexval")],
  ["output bytes and return values"])

p("C22", "MD5 and SHA-512 equal the standards for any chunking",
  "The MD5 digest of a message is the RFC 1321 value however the message is split over update calls (including empty and unaligned chunks), taking a digest does not disturb the running state, and the one-call text form is its lower-case hex. "
  "The SHA-512 digest is the FIPS 180 value for every split into chunks that are multiples of 128 bytes followed by one final chunk of any size.",
  ["inputs", "histories"],
  "all messages and lengths (all padding cases, beyond 2^29 bytes), all admissible chunkings, interleaved independent contexts",
  "md5 tests use a few whole messages; sha512_test compares one random split per run with the same code.",
  ["src/md5/md5.c", "src/md5/md5str.c", "src/sha512/sha512.c"],
  [("64-byte block buffer and bit count", "md5_update/md5_end"), ("128-byte blocks with tail kept for end", "sha512_update/sha512_end")],
  ["digest bytes"],
  [("count/buf/val", "bytes seen, partial block, chaining value", "include/md5.h")])

p("C23", "CRC-32, CRC-32C and RC4 are exact, streaming and reversible",
  "CRC-32 (IEEE) and CRC-32C (Castagnoli) of a byte stream are the standard values in little-endian order, independent of how the stream is split over updates, of alignment, and of other contexts and of the other polynomial being used in between. "
  "RC4 output is the standard key stream xor the input for every key length from 1 to 256 and every data length, also in place, and applying it twice with the same key restores the input.",
  ["inputs", "histories"],
  "all byte strings, chunkings, keys and lengths, interleaved contexts",
  "crc32_test and rc4_test check a few vectors fed in one piece.",
  ["src/crc32/crc32_impl.c", "src/crc32/crc32.c", "src/crc32/crc32c.c", "src/strlib/rc4.c"],
  [("four-table slicing plus byte tail", "CRC32*_Update"), ("KSA/PRGA", "rc4")],
  ["checksum bytes", "cipher bytes"])

p("C24", "IPv4 text conversion round-trips and is validated",
  "Every 4-byte address converts to its canonical dotted decimal text (at most 15 characters plus NUL), that text is recognised as a numeric IPv4 address, and parsing it, also with leading zeros, gives the same 4 bytes. "
  "Parsing text with fewer than four fields fails; recognition accepts only text of exactly four non-empty groups of decimal digits separated by single dots, at most 12 digits in total.",
  ["inputs"],
  "all 2^32 addresses, all texts",
  "ipv4fromstring_test parses two addresses.",
  ["src/strlib/ipv4fromstring.c", "src/strlib/stringfromipv4.c", "src/strlib/isnumericipv4.c"],
  [("field scan", "ipv4fromstring, isnumericipv4"), ("digit emission", "stringfromipv4")],
  ["text, bytes, return values"])

p("C25", "Text search and character classification are exact",
  "The case-insensitive search (upper-case needle), the wildcard search ('*' matches any one character) and the whole-word search return the leftmost matching position and NULL exactly when there is none, including when a partial match overlaps the real one; suffix and character-containment tests are exact. "
  "The ASCII classification and case conversion functions agree with the ASCII letter and digit ranges for all 256 byte values and change only letters. "
  "The switch-case lists for letters, digits, alphanumerics and operators are exactly those sets; the C-literal-safe list contains neither quote, backslash nor a non-printable character, and the shell-safe list neither quote, dollar, backquote nor backslash.",
  ["inputs"],
  "all texts and needles (self-overlapping, longer than the text, at the end), all 256 characters",
  "No test calls these functions.",
  ["src/strlib/strstr_uc.c", "src/strlib/strstar.c", "src/strlib/findword.c", "src/strlib/strends.c", "src/strlib/containsChar.c", "src/strlib/isAlpha.c", "src/strlib/isLetter.c", "src/strlib/isLower.c", "src/strlib/isUpper.c", "src/strlib/isNumber.c", "src/strlib/makelower.c", "src/strlib/makeupper.c", "include/strswitch.h"],
  [("scan with restart", "strstr_uc, strstar"), ("word boundary tests", "findword"), ("case tables", "strswitch.h")],
  ["returned offsets and flags"])

p("C26", "Option lookup finds exactly the given options",
  "Looking up a named option (a non-empty name without = and leading dash) returns the text after '=' of the first argument of the form -name=value (or --name=value when the name is longer than one character), or the following argument if -name or --name is given without '=' and is not last, and NULL otherwise; arguments that merely share a prefix with the name, or have no leading dash, never match. "
  "A flag is reported present exactly when some argument is -flag (or --flag for flags longer than one character). Names count by their length. Printing all options writes every argument in order, each followed by a newline, to standard output.",
  ["inputs"],
  "all argument vectors and option names",
  "optparser_test does not compile against the current API, so nothing is tested.",
  ["src/optparser/op_get.c", "src/optparser/op_hasflag.c", "src/optparser/op_init.c", "src/optparser/op_printall.c"],
  [("argv scan", "op_get, op_hasflag")],
  ["returned pointers / flags", "standard output"])

p("C27", "Child processes get clean pipes and are reaped with their exit code",
  "A started child has the given arguments and its standard input, output and error connected to the three descriptors handed to the caller and no other pipe end, so each side sees end-of-file when the other closes, also while other children are running (the caller itself having its descriptors 0 to 2 open); closing it closes those descriptors, waits for the end of the child (also of one stopped and continued meanwhile, and through signals), reaps it and returns its exit code. "
  "After close, and after a failed start (-1 with errno), the caller's descriptor table and child list are as before.",
  ["histories", "fault_sequences", "schedules"],
  "all interleavings of opening, using and closing several children; failure of any pipe/spawn step; interrupted waits",
  "process.c's own test is not run (it hangs here); nothing tests several children, failures or descriptor leaks.",
  ["src/proclib/process.c", "include/proclib.h"],
  [("pipe + posix_spawn file actions", "process_open"), ("close, waitpid", "process_close")],
  ["open descriptors of parent and child", "EOF propagation", "exit status"])

p("C28", "Temporary directories are fresh, private and correctly named",
  "On success a temporary directory maker has created a directory that did not exist before, accessible only to the owner, whose name keeps the template or prefix and replaces only the last six characters by letters and digits; existing names are skipped and never reused. "
  "On failure it reports it (NULL or 0), a template shorter than six characters or a buffer too small for the longest candidate is refused, nothing is written beyond the buffer, and the second location is tried when the first cannot be used; the returned length is the path's length.",
  ["inputs", "fault_sequences", "histories"],
  "all prefixes, templates, buffer sizes and sequences of mkdir outcomes (exists, denied, ok)",
  "The mktempdir test makes one directory with one prefix.",
  ["src/filelib/ulz_mkdtemp.c", "src/filelib/mktempdir.c", "src/strlib/conv_cypher.c"],
  [("mkdir is the atomic claim, retry on EEXIST", "ulz_mkdtemp"), ("fallback location", "mktempdir")],
  ["path, mode and mkdir calls"])

p("C29", "Directory listing returns exactly the matching entries",
  "A directory search returns exactly the entries of that directory whose names match the mask, directories marked with a trailing slash, with or without their path as requested, and '.', '..' and hidden names only as the flags say (a mask that itself starts with a dot may list them too), also when the directory's own name contains wildcard characters or backslashes; an empty directory argument means the current directory. "
  "No match or an unreadable place is reported as an error, and a path that would not fit the limit is refused.",
  ["inputs", "configurations"],
  "all directory contents and names, all masks, all 16 flag combinations",
  "Two examples list one small tree with a fixed mask and flags.",
  ["src/filelist/filelist.c", "include/filelist.h"],
  [("escaped glob pattern", "filelist_search, cpystr_escape"), ("dot filtering", "filelist_search")],
  ["list entries and return code"])

p("C30", "Sleeps last the full requested time despite signals; time arithmetic",
  "A millisecond or microsecond sleep returns 0 only after the full requested duration has been slept in total, however many signals interrupt it and whenever, and reports other errors as -1. "
  "Time differences and timestamps are exact: elapsed milliseconds and nanosecond differences equal the difference of the two instants (also negative, across second boundaries, over centuries or behind 2038), the microsecond clock is the system time, and the timestamp text is the local time as YYYY-MM-DD hh:mm:ss.",
  ["schedules", "fault_sequences", "inputs"],
  "all durations, all sequences of interruptions with arbitrary remaining time, all pairs of instants",
  "No test calls these functions.",
  ["src/timelib/*.c", "include/timelib.h"],
  [("restart with remaining time", "msleep, microsleep"), ("timersub / field-wise difference", "mspassed, timespec_diff")],
  ["nanosleep requests", "returned numbers and text"])

p("C31", "Logger writes exactly the requested bytes in order",
  "Each logging call writes to its descriptor exactly the bytes of its arguments in order: strings by their length, C strings up to NUL, signed and unsigned 32/64-bit numbers in exact decimal, then the newline where documented, and nothing for NULL or empty strings. "
  "The error logger prints the message, ': ', and the description of the error that was current at the call.",
  ["inputs"],
  "all argument lists of the variant types with all values",
  "No test calls these functions.",
  ["src/logger/*.c", "include/logger.h", "include/vario.h", "src/optparser/op_printall.c"],
  [("tagged variant dispatch", "log_put"), ("number conversion", "log_putd")],
  ["bytes written to the descriptor"])

p("C32", "List and key-value lookups return the first exact match",
  "Searching a string list returns the index of the first entry whose length and bytes equal the needle and -1 if none, containment agrees with it, and key lookup in a key-value list yields the value stored with the first equal key and success exactly when such a key exists, leaving the result variable untouched otherwise. "
  "String, pointer and key-value lists return stored entries unchanged by index, report their size and emptiness, insert a string at the given position or at one that keeps a sorted list sorted, and duplicating entries in place keeps every entry's bytes.",
  ["inputs", "histories"],
  "all lists (duplicates, prefixes, embedded NULs, empty strings), all needles",
  "sptrlist_test appends two pointers; lookups are untested.",
  ["src/kvlist/kvlist.c", "include/kvlist.h", "src/stringptrlist/stringptrlist_find.c", "src/stringptrlist/stringptrlist_contains.c", "src/stringptrlist/stringptrlist_dup_entries.c", "src/stringptrlist/stringptrlist_add_strdup.c", "include/stringlist.h", "include/sptrlist.h", "include/stringptrlist.h"],
  [("linear scan with stringptr_eq", "stringptrlist_find, kv_find")],
  ["returned index / value"])

p("C33", "Bit arrays and byte swapping are exact",
  "Setting or clearing a bit of a bit array changes exactly that bit, reading returns what was last stored for that index, the required size holds exactly the bits asked for, the swapped read mirrors the bit order within each byte, and a byte built from eight bits has exactly those. "
  "Byte swapping of 16, 32 and 64-bit values reverses the byte order and is its own inverse.",
  ["histories", "inputs"],
  "all histories of bit writes, all indices, all word values",
  "No test calls these macros directly.",
  ["include/bitarray.h", "include/endianness.h"],
  [("byte/bit addressing", "BA_* macros"), ("shift/mask swaps", "byteswap16/32/64")],
  ["array bytes", "swapped values"])

p("C34", "A daemonized process is fully detached",
  "After daemonizing, the calling process image continues in a child that leads a new session without a controlling terminal, whose descriptors 0, 1 and 2 are all open on /dev/null for reading and writing (and stay so in programs it starts) and which holds no other open descriptor (below the process's descriptor limit), while the original process exits with status 0. "
  "If no child can be created the process exits with status 1 after reporting it.",
  ["configurations", "fault_sequences"],
  "all initial descriptor tables (any subset of 0..n open or closed), fork success or failure",
  "No test calls daemonize.",
  ["src/proclib/daemonize.c"],
  [("fork, setsid, close all, /dev/null x3", "daemonize")],
  ["session id, descriptor table, exit statuses"])

p("C35", "The stdio replacement header prints like stdio, unbuffered and in order",
  "With include/stdio-repl.h, printf, fprintf to stdout or stderr, dprintf, snprintf and vsnprintf produce the text of the supported conversions, up to 4095 bytes per printing call, puts writes its text and a newline to standard output and perror writes the text and the error's message to standard error. "
  "Each call's text has reached the file when the call returns: nothing is buffered or lost when the process dies, and the order of calls is the order of the text also when standard output and error are the same file.",
  ["inputs", "histories", "crash_points"],
  "all sequences of printing calls over all formats and arguments, with separate or shared output files, ended at any point",
  "No test includes the header.",
  ["include/stdio-repl.h", "src/format/ulz_vsnprintf.c", "src/format/ulz_fprintf.c", "src/logger/log_puterror.c", "src/logger/log_put.c"],
  [("stdio names mapped onto fd writers", "printf, fprintf, puts, perror")],
  ["bytes in the files on descriptors 1 and 2 after each call"])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for x in P:
        assert len(x["title"]) <= 80, (x["id"], len(x["title"]))
        f.write(json.dumps(x) + "\n")
print(len(P))
