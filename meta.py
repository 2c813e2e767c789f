"""Texts of the properties and of the checks; gen.py turns them into properties.jsonl and MANIFEST.json, check.py puts bounds into the evidence."""
P = {}
def p(id, title, statement, over, quant, why, files, mech, bounds, outside, assume=()):
    assert len(title) <= 80, id
    P[id] = dict(title=title, statement=statement, over=over, quant=quant, why=why, files=files, mech=mech, bounds=bounds, outside=outside, assume=list(assume))
T = 'The tests run one fixed sequence of calls with fixed data; '

p('C01', 'Block list behaves as a sequence of fixed-size items',
  'A list of fixed-size items behaves as a sequence: add/insert/set/delete/pop/get/search by position have the effect they have on an array of byte strings, out-of-range positions are refused without touching memory, and growing never loses or alters an item. This holds for every item size, growth step (including automatic) and initial contents. Freeing (including freeing the stored pointers) releases exactly what was allocated.',
  ['histories','inputs','configurations'], 'all sequences of operations with arbitrary positions and item bytes, for several item sizes / growth steps / fill levels around a reallocation',
  T + 'growth, insertion in the middle and out-of-range positions meet only a few sizes.',
  ['src/sblist/sblist.c','src/sblist/sblist_insert.c','src/sblist/sblist_delete.c','src/sblist/sblist_pop.c','src/sblist/sblist_addi.c','src/sblist/sblist_new_from_data.c','src/sblist/sblist_free_values.c','include/sblist.h'],
  [('sblist_grow_if_needed','src/sblist/sblist.c'),('sblist_insert','src/sblist/sblist_insert.c'),('sblist_delete','src/sblist/sblist_delete.c')],
  'histories of up to 4 operations (add, insert, set, delete, pop, get, clear, search) with symbolic positions and bytes after 0..7 prefilled items, item sizes 1..5000 and growth steps 0,1,2,3,7 as listed per harness; one operation with symbolic position after 33, 40 and 64 items; scripted histories of 160 to 700 operations on up to 300 items (fixed kinds of operations and positions, symbolic bytes), item sizes 1 to 300, growth steps 0, 1, 16, 64', 'longer histories (the state is the array plus count/capacity, and prefills put the capacity boundary within reach), item sizes near SIZE_MAX')
p('C02', 'Containers survive every allocation failure',
  'When any memory allocation made by a container operation fails, the operation reports failure, the container keeps exactly its previous contents and stays usable, and nothing is leaked, freed twice or accessed out of bounds. Once memory is available again operations succeed. This holds for every container of the library (block list, generic lists, maps, hash list, linked list, string lists).',
  ['fault_sequences','histories'], 'every pattern of failing allocations over a bounded sequence of insertions and creations, with symbolic data',
  'No test makes an allocation fail.',
  ['src/sblist/sblist.c','include/tglist.h','include/tgilist.h','include/bmap.h','include/hbmap.h','src/tlist/tlist.c','src/hashlist/hashlist.c','src/stringptrlist/stringptrlist_add_strdup.c'],
  [('allocation results checked before use','all container sources')],
  'every subset of failing allocations in sequences of 4 to 6 operations per container; scripted histories of 100 to 150 operations on up to 60 items with one to three consecutive allocations failing at every point of the growth (the first 10 to 70 allocations), per container', 'longer sequences; overcommit (allocation success is taken at its word)')
p('C03', 'Sorted insertion and binary search agree with the order',
  'Inserting into a sorted list keeps it sorted, keeps all items, puts the new item at a correct position and returns it; binary search returns an equal item exactly when one exists and otherwise reports none. This holds for every total preorder given as comparison callback, with or without context argument.',
  ['inputs','configurations'], 'all sorted contents up to the bound with arbitrary (also equal) keys and every key to insert or find',
  T + 'ties, ends and every length parity need all contents.',
  ['src/sblist/sblist_insert_sorted.c','src/sblist/sblist_insert_sorted_r.c','src/sblist/sblist_bsearch.c','src/sblist/sblist_bsearch_r.c','src/sblist/sblist_sort.c'],
  [('binary search','src/sblist/sblist_bsearch.c'),('binary search for the insertion point','src/sblist/sblist_insert_sorted.c')],
  'lists of 0..6 items with symbolic keys, all keys; building from empty with 4 insertions; ascending and descending orders, context variant; symbolic contents of 7, 10, 15 and 17 items (31 and 33 in the thorough tier); given contents of 31 to 66 items with every key', 'more than 6 items', ['qsort of the C library sorts correctly (modelled by insertion sort)'])
p('C04', 'Generic typed lists behave as sequences',
  'The macro-generated typed lists (owning and inline variants) behave as sequences under add, insert, remove, access and resize: contents and size equal those of a reference array after every operation at positions inside the list (or at its end, for insertion). Growing and shrinking keep all other items intact, and releasing the list releases everything exactly once.',
  ['histories','inputs'], 'all operation sequences up to the bound with arbitrary items and positions, for several element types and fill levels around a reallocation',
  T + 'insertion and deletion at the capacity boundary are not met.',
  ['include/tglist.h','include/tgilist.h'], [('tglist grow/insert/delete macros','include/tglist.h'),('tgilist','include/tgilist.h')],
  'histories of 2..4 operations after 0, 3 or 7 prefilled items; element types of 1, 4, 8 and 12 bytes; one operation at any position after 32 items; scripted histories of 300 to 700 operations on up to 280 items', 'longer histories, huge elements')
p('C05', 'Ordered map behaves as a finite map',
  'The array map behaves as a finite map from keys to values under insert, overwrite, lookup, delete and index access: lookups find exactly what was last stored, deletion removes exactly one key, the number of entries and the iteration by index agree with the contents. This holds whatever the fill level and key order, and with the flags that make the map own its keys or values every key and value is released exactly once.',
  ['histories','inputs'], 'all operation sequences up to the bound with symbolic keys (equal or different) and values',
  T + 'colliding, repeated and absent keys in all orders are not enumerated.',
  ['include/bmap.h'], [('bmap_find/insert/delete','include/bmap.h')],
  'histories of 4 operations from empty and 2 after 3 entries, 8-bit symbolic keys in 32-bit keys, owning and inline item storage; one operation with any key after 33 entries; scripted histories of 420 operations on up to 140 entries; ownership flags with 3 entries', 'longer histories; more than 5 live keys')
p('C06', 'Hash map behaves as a finite map for every hash function',
  'The hash map behaves as a finite map under insert, lookup, delete and iteration for every hash function and bucket count, including hash values that are equal or at the ends of the value range. Iteration visits every live entry exactly once, and iterators returned by insert and find designate their entry.',
  ['histories','inputs','configurations'], 'all operation sequences up to the bound with symbolic keys; several hash functions including constant ones and bucket counts',
  T + 'bucket collisions and extreme hash values do not occur.',
  ['include/hbmap.h'], [('hbmap bucket selection and iteration','include/hbmap.h')],
  'histories of 3 operations from empty or 2 after 2 entries, 1..4 buckets, 4 hash functions; one operation with any key after 24 entries; scripted histories of 200 to 240 operations on up to 60 entries in 7 and 300 buckets, with the documented deletion during iteration; 2 to 3 operations with an arbitrary (symbolic) hash function in 2 and 4 buckets', 'longer histories, more buckets')
p('C07', 'Linked list behaves as a sequence',
  'The linked list behaves as a sequence under append, insert at position, delete and access; out-of-range positions yield nothing and change nothing. Its size always equals the number of linked items and freeing releases every node, and with the deep variants every stored pointer, exactly once.',
  ['histories','inputs'], 'all operation sequences up to the bound with arbitrary positions and items', T + 'positions at both ends and past the end are not all met.',
  ['src/tlist/tlist.c'], [('tlist node links and cached position','src/tlist/tlist.c')],
  'histories of 4 operations from empty and 2 after 4 items in 4 build orders; item sizes 3 and 4; one operation at any position after 40 items; scripted histories of 420 to 700 operations on up to 280 items', 'longer histories')
p('C08', 'Hash list finds exactly the stored entries; iteration is complete',
  'The chained hash list returns for a hash the bucket holding exactly the entries added with hashes of that bucket, in order of addition, and iterating from the start visits every entry exactly once, whatever the bucket count and distribution. A failed addition is reported and leaves the list, its iteration and later additions intact.',
  ['histories','inputs','fault_sequences'], 'all hash values and additions up to the bound, all failing allocations', T + 'empty and overfull buckets in all patterns are not enumerated.',
  ['src/hashlist/hashlist.c','src/hashlist/hashlist_iterator.c'], [('bucket lists','src/hashlist/hashlist.c'),('iterator','src/hashlist/hashlist_iterator.c')],
  '3 or 4 additions with symbolic hashes in 1, 3 and 4 buckets, every allocation failing or not; scripted histories of 140 to 300 additions in 1, 16 and 100 buckets', 'more entries or buckets')
p('C09', 'Pool allocator hands out disjoint slots and reuses freed ones',
  'The static pool allocator never hands out overlapping or out-of-pool slots, returns nothing only when all slots are in use, makes every freed slot available again, and refuses to free pointers that are not slots of the pool without corrupting it.',
  ['histories','inputs'], 'all sequences of allocations and frees (any slot or foreign pointer) up to the bound', 'The library has a single test with a fixed history.',
  ['include/ssalloc.c'], [('bitmap of used slots','include/ssalloc.c')], '3..4 operations after 0..16 allocations in pools of 2,4,8,16 slots; scripted histories of 200 to 2600 operations in pools of 16, 64, 128 and 512 slots', 'longer histories, larger pools')
p('C10', 'Guarded allocation is exact for every size',
  'A guarded allocation of n bytes yields n usable bytes that end right before (or at the alignment before) an inaccessible page, and freeing it releases everything that was reserved; sizes that cannot be satisfied are refused.',
  ['inputs','fault_sequences'], 'all sizes around page multiples and close to the maximum; failing system calls', 'The test uses one size.',
  ['include/guard_alloc.c'], [('page rounding and mprotect','include/guard_alloc.c')], 'every 64-bit size and base address, mmap and mprotect failing or not', 'page sizes other than 4096', ['mmap/mprotect/munmap behave as specified by POSIX (recorded by stand-ins)'])
p('C11', 'Bit arrays and byte-order helpers are exact',
  'Setting, clearing and testing bit i of a bit array affects and reports exactly bit i and no byte outside the array of the documented size. Byte-order conversions reverse or keep the bytes of every value exactly.',
  ['inputs'], 'all bit positions up to the bound over arbitrary contents; all 16/32/64-bit values', 'No test covers them.',
  ['include/bitarray.h','include/endianness.h'], [('bit index arithmetic','include/bitarray.h'),('byte swaps','include/endianness.h')], 'arrays up to 40 bits with arbitrary contents; all values; arrays of 24 to 1000 bits', 'longer arrays')
p('C12', 'String slices: core operations match their definition',
  'Comparison, search of characters, sub-slices, shifts, chomping, copying, concatenation, hashing and conversion of length-counted strings have exactly the effect of their definition for every content, including NUL and high bytes, never read or write outside the string, and report failing allocations.',
  ['inputs','fault_sequences'], 'all contents and positions up to the bound, all allocation failures', T + 'high bytes, empty strings and out-of-range positions are missing.',
  ['src/stringptr/stringptr_concat.c','src/stringptr/stringptr_copy.c','src/stringptr/stringptr_here.c','src/stringptr/stringptr_rchr.c','src/stringptr/stringptr_chomp.c','src/stringptr/stringptr_eq.c','src/stringptr/stringptr_shiftleft.c','src/stringptr/stringptr_shiftright.c','src/stringptr/stringptr_contains.c'],
  [('bounds arithmetic on size','src/stringptr')], 'strings of 0..9 arbitrary bytes; strings of 15 to 257 bytes; concatenations of up to 6 strings', 'longer strings')
p('C13', 'Split, join and replace are exact inverses and replacements',
  'Splitting at a character or string yields exactly the maximal pieces between the non-overlapping left-to-right occurrences of the delimiter, so that joining them with it gives the original; joining lists (with any of the line ends) is exact; replacing substitutes exactly those occurrences. Failing allocations yield failure, never truncated results or leaks.',
  ['inputs','fault_sequences'], 'all texts and delimiters up to the bound, all allocation failures', T + 'overlapping, adjacent and trailing delimiters in all positions are not enumerated.',
  ['src/stringptrlist/stringptr_splitc.c','src/stringptrlist/stringptr_splits.c','src/stringptrlist/stringptr_replace.c','src/stringptrlist/stringptrlist_tostring.c'], [('delimiter scan','src/stringptrlist/stringptr_splits.c'),('two-pass join','src/stringptrlist/stringptrlist_tostring.c')],
  'texts of 0..8 arbitrary bytes, delimiters of 0..3; 18/19-byte texts with at least 15 delimiters for list growth; scripted texts of 17 to 520 bytes with five delimiters of 1 to 5 characters', 'longer texts and delimiters')
p('C14', 'String lists and key-value lists find the first match',
  'Looking up a string in a string list (exactly, by containment or with index) or a key in a key-value list returns the first matching entry and only a matching one; stored copies are independent of the originals and released exactly once.',
  ['inputs','histories','fault_sequences'], 'all list contents and needles up to the bound, all allocation failures', T + 'duplicate, empty and prefix keys are missing.',
  ['src/stringptrlist/stringptrlist_find.c','src/stringptrlist/stringptrlist_contains.c','src/kvlist/kvlist.c','src/stringptrlist/stringptrlist_dup_entries.c','src/stringptrlist/stringptrlist_freeall.c'], [('linear search','src/stringptrlist/stringptrlist_find.c'),('kvlist','src/kvlist/kvlist.c')],
  'lists of up to 4 strings of up to 2 bytes; scripted lists of 40 to 50 strings of up to 18 bytes with symbolic characters: replacing, inserting, sorted insertion, lookup, duplication with every failing allocation', 'longer lists and strings')
p('C15', 'Base64 encoding and decoding are exact inverses within the buffer',
  'Base64 encoding produces the RFC 4648 text of the input and decoding it gives the input back; decoding any text, valid or not, with any destination size never accesses memory outside the given buffers and refuses invalid or too long texts. The stated output lengths are exact.',
  ['inputs'], 'all byte strings / texts and destination sizes up to the bound', 'The test encodes a few fixed strings.',
  ['src/strlib/base64enc.c','src/strlib/base64dec.c','src/strlib/base64enc_str.c','src/strlib/base64_tbl.c'], [('tables','src/strlib/base64_tbl.c'),('group loop','src/strlib/base64dec.c')],
  'inputs of 0..9 bytes, texts of 0..9 characters with destinations of 0..8 bytes; inputs of 12 to 256 bytes and texts of 12 to 100 characters', 'longer inputs (groups of 3/4 are processed independently)')
p('C16', 'Hexadecimal conversion is exact',
  'Converting bytes to hexadecimal and back gives the bytes; every hexadecimal digit of either case has its value; conversion of any text never reads past its end or writes more than the documented output size.',
  ['inputs'], 'all byte strings and hex texts up to the bound', 'The test converts fixed strings.',
  ['src/strlib/raw2hex.c','src/strlib/hex2raw.c','src/strlib/hexval.c'], [('digit values','src/strlib/hexval.c')], '0..9 bytes, texts of 0..9 digits; 15 to 256 bytes', 'longer inputs')
p('C17', 'Number formatting is exact for every number of the type',
  'Every conversion of an integer to text yields exactly its shortest representation in the requested base with sign, letter case and zero padding as requested, terminated inside a buffer of the documented size. This includes the extreme values of every type; unsupported bases are refused.',
  ['inputs','configurations'], 'all values of each type, all flag combinations, supported bases (per-base digit bound)', 'The tests print a few numbers.',
  ['src/strlib/itoa.c','src/strlib/utoa.c','src/strlib/numberToString.c','src/strlib/intToString.c','src/strlib/int64ToString.c','src/strlib/uintToString.c','src/strlib/uint64ToString.c'], [('digit extraction loop','src/strlib/numberToString.c')],
  'all int, unsigned, int64_t and uint64_t values in base 10; bases 2,8,10,16,36,62 with 5..10 digits and all flags; all 64-bit values in bases 2, 4, 8, 16 and 32; all numbers of 5 to 12 digits in bases 6, 10, 12, 20, 26, 34 to 38, 52, 60 and 62; 12 to 16 digits with every third one symbolic in bases 10, 16, 32 and 36; 4 digits in every other even base; explicit lengths up to 100', 'longer numbers in the other bases')
p('C18', 'Number parsing returns the value of the text',
  'Parsing the decimal text of any number in the range of the result type, given with its length and without terminator, returns exactly that number; empty or missing text gives 0 and nothing outside the text is read.',
  ['inputs'], 'all digit strings whose value fits the type, with and without sign', 'No test covers it.',
  ['src/strlib/strtoint.c','src/strlib/strtoint64.c'], [('positional accumulation','src/strlib/strtoint.c')], 'all texts of 1..10 (32 bit) and 1..19 (64 bit) digits with optional minus sign', 'texts that are not numbers or exceed the type (unspecified)')
p('C19', 'Formatted output equals printf and stays in the buffer',
  'For every format made of the supported conversions and every argument, formatting produces the text POSIX printf specifies (pointers as plain hexadecimal), truncated to the buffer, terminated, and returns the number of bytes stored, or the full length when only measuring. Unsupported conversions are refused; nothing is ever written outside the buffer; printing and string-returning variants deliver exactly the same text.',
  ['inputs','configurations','fault_sequences'], 'all formats of up to three items (literals, conversions with and without precision), all argument values, all buffer sizes around the length', 'The test compares a few fixed formats.',
  ['src/format/ulz_vsnprintf.c','src/format/ulz_snprintf.c','src/format/ulz_printf.c','src/format/ulz_fprintf.c','src/stringptr/stringptr_format.c'], [('format interpreter','src/format/ulz_vsnprintf.c')],
  'one conversion with all argument values and precisions none,4,12,34,100; two with 2-digit numbers; three with 1-digit numbers; buffer sizes 0..5 and length-1..length+2; scripted formats of 8 to 12 items with values of 3 to 20 digits; texts of 100 to 5000 characters around the sizes of the internal buffers (prefix beyond them)', 'more items, precision with %s and %c beyond being ignored, precision 0, embedded %c of NUL', ['x86-64 variadic calling convention'])

p('C20', 'IPv4 text conversions are exact',
  'Every dotted quad is parsed to exactly its four bytes and recognised as numeric address; every address is printed as its shortest dotted quad, which parses back to it. Texts that are not four groups of digits separated by dots are not recognised as numeric addresses, parsing texts with fewer than four parts is refused, and no text makes the parser read or write out of bounds.',
  ['inputs'], 'all addresses; all dotted quads with 1 to 3 digits per part; all texts up to the bound', 'The test converts a few addresses.',
  ['src/strlib/ipv4fromstring.c','src/strlib/stringfromipv4.c','src/strlib/isnumericipv4.c'], [('digit accumulation','src/strlib/ipv4fromstring.c'),('dot and digit counting','src/strlib/isnumericipv4.c')],
  'all 2^32 addresses, all quads of 1..3 digits per part up to 255, arbitrary texts of 0..8 characters; six texts of up to 15 characters with one or two arbitrary characters replaced, inserted or appended', 'longer arbitrary texts; values above 255 in texts (unspecified); isnumericipv4 for groups of more than three digits')
p('C21', 'String search, comparison and character classes match their definition',
  'The search functions (case-insensitive, with wildcard, whole word) return the first position at which the needle matches and nothing if there is none, whatever partial matches precede it. Suffix test, character test, character classes (functions and switch macros), case conversion and length-limited duplication have exactly the result of their definition for every byte and never access memory outside their arguments.',
  ['inputs','fault_sequences'], 'all texts and needles up to the bound', 'No test covers these functions.',
  ['src/strlib/strstr_uc.c','src/strlib/strstar.c','src/strlib/findword.c','src/strlib/strends.c','src/strlib/containsChar.c','src/strlib/strdup_n.c','src/strlib/isAlpha.c','src/strlib/isLetter.c','src/strlib/isLower.c','src/strlib/isUpper.c','src/strlib/isNumber.c','src/strlib/makelower.c','src/strlib/makeupper.c','include/strswitch.h'],
  [('restart after a partial match','src/strlib/strstr_uc.c'),('wildcard matching','src/strlib/strstar.c'),('word boundaries','src/strlib/findword.c')],
  'texts of 0..5 arbitrary characters with needles of 1..2, texts of 0..7 over small alphabets with needles of 1..4; all bytes; copies of 0..6 bytes; scripted texts of 20 to 200 characters containing beginnings of the needle, with three arbitrary characters, and needles of 1 to 15 characters; suffixes of 7 to 65 characters; copies of 15 to 257 bytes', 'longer texts and needles; needles of strstr_uc and findword in lower case (documented as upper case)')
p('C22', 'Path normalisation equals its component-wise definition',
  'Normalising an absolute path removes empty and "." components and resolves ".." against the preceding component, leaves names that merely start or end with dots alone, and yields no trailing slash; relative paths and paths that climb above the root are refused. Both variants agree, never access memory outside the path and output buffer, and the in-place variant leaves a refused path unchanged.',
  ['inputs'], 'all paths up to the bound', 'The test checks only whether a dozen paths are accepted, not the result.',
  ['src/filelib/normalizepath.c','src/filelib/normalizepath_cstr.c'], [('single-pass scanner','src/filelib/normalizepath.c'),('single-pass scanner','src/filelib/normalizepath_cstr.c')],
  'arbitrary paths of 0..8 characters; paths of up to 5 components of six kinds with arbitrary letters; long paths around PATH_MAX; scripted paths of 60 to 4000 characters with up to 4 arbitrary letters', 'longer paths; paths with embedded NUL; the PSP path variant')
p('C23', 'File names, path differences and temporary directories are exact',
  'File name and extension are what follows the last slash or dot; the path difference exists exactly when the second path, normalised, is the first or lies below it at a component boundary, and is the exact rest. Temporary directories are created privately under a fresh name made of the given beginning and random letters or digits, retried with another name as long as, and only when, the name exists, and the result says whether and how the directory was made. File size and modification time are those of the file, or 0.',
  ['inputs','fault_sequences'], 'all names and path pairs up to the bound, all results of the system calls and random numbers', 'No test covers these functions.',
  ['src/filelib/getfileext.c','src/filelib/getfilename.c','src/filelib/getpathdiff.c','src/filelib/mktempdir.c','src/filelib/ulz_mkdtemp.c','src/filelib/getfilesize.c','src/filelib/getfilemodtime.c'], [('boundary comparison','src/filelib/getpathdiff.c'),('retry loop','src/filelib/ulz_mkdtemp.c')],
  'names of 0..6 bytes; path pairs of up to 4 and 5 arbitrary characters; templates of 0..8 characters; up to 3 failing attempts, up to 40 names that exist already; scripted path pairs of 60 to 300 characters, names in paths of 60 to 1000', 'longer names and paths; more retries', ['mkdir, stat and rand behave as specified (stand-ins with arbitrary results)'])
p('C24', 'Directory listing: the directory is literal, the list complete',
  'Listing a directory asks glob for exactly the given directory, taken literally whatever characters it contains, followed by one slash and the given mask, with directories marked, results sorted and hidden files on request only. The list holds every result except unwanted "." and "..", with or without path as requested, plus the requested "./" and "../"; errors of glob are returned; failing allocations yield failure with everything released, never a shortened list. Over-long directories never overflow the pattern buffer; freeing the list releases everything.',
  ['inputs','configurations','fault_sequences'], 'all directories and masks up to the bound, all flag combinations, all kinds of results, all allocation failures', 'The test lists one real directory and prints the result.',
  ['src/filelist/filelist.c'], [('pattern escaping','src/filelist/filelist.c'),('filter of . and ..','src/filelist/filelist.c')],
  'directories of 0..3 and masks of 0..2 arbitrary characters; lists of 1..2 results with names of up to 3 characters; directories of 2040..2050 and 4088..4096 characters (memory safety); scripted directories of 20 to 3000 characters with special characters; lists of 30 results', 'more results; what glob itself returns', ['glob behaves as specified (stand-in with arbitrary results)'])
p('C25', 'Line reader delivers every line with its exact content',
  'Reading a file line by line delivers every line with exactly its content and length, terminated, in order, whether or not the last line ends in a newline, then reports the end. A line that does not fit the buffer is reported as such with its beginning delivered, and can be read again with a larger buffer; measuring the next line returns its length without consuming it. Failing opens, reads and seeks are reported as errors, never as lines or as the end; the file is closed exactly once and missing arguments are refused.',
  ['inputs','histories','fault_sequences'], 'all file contents up to the bound, all buffer sizes, line lengths around the internal buffer size, all failing reads and seeks', 'The tests read one small file; line ends at buffer boundaries and failing calls do not occur.',
  ['src/fileparser/fileparser_readline_userbuf.c','src/fileparser/fileparser_readline.c','src/fileparser/fileparser_getnextlinelength.c','src/fileparser/fileparser_getline.c','src/fileparser/fileparser_open.c','src/fileparser/fileparser_close.c'],
  [('buffer and file position','src/fileparser/fileparser_readline_userbuf.c'),('measure and seek back','src/fileparser/fileparser_getnextlinelength.c')],
  'files of 0..6 arbitrary bytes with buffers of 1..4 bytes; two lines of 0,1023,1024,1025,2048 characters with the internal buffer; scripted files of 30 lines of 0 to 500 and 8 lines around 1024 and 2048 characters, read and measured in any mixture, with three arbitrary characters', 'longer files with symbolic content; reads that return less than available; descriptor 0', ['regular-file read, lseek and open (model)'])
p('C26', 'Whole files are read and written completely or not at all',
  'Reading a file into a string yields exactly its content, terminated, however the system splits the reads; reading it into a list yields exactly its lines up to the first empty one. Writing a string or list writes exactly its bytes (for lists: each string followed by a newline), however short the single writes. Any failing open, stat, read, write or allocation yields failure, never a truncated success; descriptors and memory are released on every way out.',
  ['inputs','fault_sequences'], 'all contents up to the bound, all splits into short reads and writes, every failing call', 'The tests use files that are read and written at once and never fail.',
  ['src/stringptr/stringptr_fromfile.c','src/stringptr/stringptr_tofile.c','src/stringptrlist/stringptrlist_fromfile.c','src/stringptrlist/stringptrlist_tofile.c'], [('read loop','src/stringptr/stringptr_fromfile.c'),('write loop','src/stringptr/stringptr_tofile.c')],
  'contents of 0..8 bytes with any short reads and writes; sizes of 65535..131072 bytes in chunks; lines of 1022..2048 characters; scripted files of 1 to 196609 bytes in transfers of pseudo-random lengths; lists of 40 lines', 'longer symbolic contents; what follows the first empty line in a list file (documented behaviour)', ['regular-file system calls (model with arbitrary short transfers and errors)'])
p('C27', 'Ini sections and values are those of the file',
  'Looking up a section returns exactly the lines between the first header of that name and the following header or the end; looking up the next one continues behind the given section. Looking up a value in a section returns the rest of the first line there that begins with exactly the key and "=", whatever other keys share a prefix with it, and nothing from outside the section; from a given line on, also its position. The number of sections is the number of header lines; a missing section or key yields the empty result.',
  ['inputs'], 'all files, section names and keys up to the bound, all section ranges', 'The test reads one small file; prefix keys, duplicate sections and bracket lines are missing.',
  ['src/iniparser/iniparser.c','src/iniparser/iniparser_count_sections.c'], [('section scan','src/iniparser/iniparser.c'),('header test','src/iniparser/iniparser_count_sections.c')],
  'files of 0..3 lines of 0..4 arbitrary bytes, names and keys of 0..2 bytes; scripted files of 40 lines with names and keys sharing prefixes and arbitrary characters', 'longer lines and files; counting lines consisting of "[]" only')
p('C28', 'Command line options are found exactly as spelled',
  'Getting an option returns the text behind "=" of the first argument that spells it, or the argument following it when it is spelled without value, and nothing otherwise; options sharing a prefix are never confused. A flag is present exactly if an argument is the flag behind one dash, or behind two for names of more than one letter; the program name is never taken for an option. Printing lists every argument on its own line.',
  ['inputs'], 'all argument lists and option names up to the bound', 'The tests use a handful of command lines.',
  ['src/optparser/op_get.c','src/optparser/op_hasflag.c','src/optparser/op_init.c','src/optparser/op_printall.c'], [('argument scan','src/optparser/op_get.c'),('flag comparison','src/optparser/op_hasflag.c')],
  'up to 2 arguments of 0..5 arbitrary characters, names of 1..3 characters; scripted command lines of 15 arguments with names sharing prefixes and arbitrary characters', 'more and longer arguments; empty names and names beginning with a dash or containing "="')
p('C29', 'CRC-32 and CRC-32C are the polynomial remainders',
  'From every intermediate state and for every data the checksum update yields the remainder of the bitwise polynomial division with the reflected polynomial (IEEE 802.3 or Castagnoli); hence the checksum of a message does not depend on how it is cut into pieces and equals the standard value.',
  ['inputs','histories'], 'all states, all data up to the bound, all cuts into three pieces', 'The test computes few fixed sums; 256-entry tables are only reached in part.',
  ['src/crc32/crc32.c','src/crc32/crc32c.c','src/crc32/crc32_impl.c','include/crc32.h'], [('lookup tables','src/crc32/crc32.c'),('update loop','src/crc32/crc32_impl.c')],
  'any 32-bit state with 0..4 bytes; messages of 0..5 bytes in three pieces (the update is one step per byte from an arbitrary state, so longer data repeat it)', 'longer data at once')
p('C30', 'MD5 is the RFC 1321 digest of the data',
  'However a message is cut into updates, including empty ones, the digest is that of RFC 1321 for the whole message; from any context state and any number of bytes processed so far, including beyond 2^32, updates and finalisation behave as RFC 1321 prescribes; nothing outside the data, context and result is accessed. The hexadecimal form is the digest in lower case.',
  ['inputs','histories'], 'all contents of messages of the lengths around the block and padding boundaries, the cuts around them, any state and byte count', 'The test hashes fixed strings; padding boundaries, pieces and long streams are not reached.',
  ['src/md5/md5.c','src/md5/md5str.c'], [('block buffering','src/md5/md5.c'),('padding and length','src/md5/md5.c')],
  'message lengths 0,1,55,56,63,64,65,119,120,128,130 cut at 0,1,63,64,65; from any state and 58-bit block count with 0,1,55,56,63 pending bytes and 0,1,8,64,70 more; all lengths up to 199 at once; all 64 pending counts with 0, 3 and 64 more', 'other lengths and cuts')
p('C31', 'SHA-512 is the FIPS 180-4 digest of the data',
  'However a message is cut into updates, including empty ones, the digest is that of FIPS 180-4 for the whole message; from any context state and any number of blocks processed so far, updates and finalisation behave as FIPS 180-4 prescribes; nothing outside the data, context and result is accessed.',
  ['inputs','histories'], 'all contents of messages of the lengths around the block and padding boundaries, any state and block count', 'The test hashes fixed strings.',
  ['src/sha512/sha512.c'], [('block buffering','src/sha512/sha512.c'),('padding and length','src/sha512/sha512.c')],
  'message lengths 0,1,111,112,127,128,129,239,240,256,257 in up to three pieces of 0,1,127,128,129 bytes; from any state and block count with 0,1,111,112,127 pending and 0,1,16,17,128,129 more bytes; 32 further pending counts with 0 or 3 more', 'other lengths and cuts')
p('C32', 'RC4 produces the standard key stream',
  'Encrypting any text with a key of any length from 1 to 256 bytes yields the text combined with the RC4 key stream of that key, in place or into another buffer, without touching anything else; decrypting with a fresh context gives the text back.',
  ['inputs'], 'all texts up to the bound for the sampled key lengths; symbolic key bytes at the end of a full-length key', 'The test uses a fixed key and text.',
  ['src/strlib/rc4.c'], [('key schedule','src/strlib/rc4.c'),('stream generation','src/strlib/rc4.c')],
  'texts of 0..70 arbitrary bytes with fixed keys of 19 lengths from 1 to 256 bytes; 256-byte keys with the last 3 bytes arbitrary and 5 bytes of text', 'arbitrary values of earlier key bytes (array indices depend on them throughout the 256 steps)')
p('C33', 'Time helpers compute exactly',
  'Sleeping requests exactly the given time as a valid time specification and continues with the remaining time after every interruption, reporting other errors. Current time, microseconds, elapsed milliseconds and differences of time specifications are exact. Time stamps are the local date and time in the form "YYYY-MM-DD hh:mm:ss", truncated to and terminated within the given buffer.',
  ['inputs','fault_sequences'], 'all durations and clock values up to the bound, all sequences of up to three interruptions, all buffer sizes', 'The tests print times or sleep once; carries, interruptions and small buffers are not reached.',
  ['src/timelib/msleep.c','src/timelib/microsleep.c','src/timelib/getutime.c','src/timelib/mspassed.c','src/timelib/timespec_diff.c','src/timelib/timestamp.c','src/timelib/gettimestamp.c'], [('restart after interruption','src/timelib/microsleep.c'),('carry','src/timelib/mspassed.c')],
  'durations up to 2^32 seconds, clock values of 40 bits; up to 40 interruptions; years 1000..9999; buffers of 0..23 bytes', 'negative durations; further interruptions', ['clock, sleep and calendar functions (stand-ins with arbitrary results)'])
p('C34', 'Log output is exactly the given text on the given descriptor',
  'Every log function writes exactly its text (strings, numbers of every type and value in decimal, the error text belonging to errno at the time of the call, the current time stamp) in argument order, followed by a newline where documented, to the given descriptor and nothing else; missing strings write nothing.',
  ['inputs'], 'all strings up to the bound, all numbers, all orders of up to three arguments of eight kinds', 'The test prints a few values and does not look at them.',
  ['src/logger/log_put.c','src/logger/log_putd.c','src/logger/log_puts.c','src/logger/log_putc.c','src/logger/log_puterror.c','src/logger/log_putln.c','src/logger/log_timestamp.c'], [('variadic dispatch','src/logger/log_put.c'),('digit extraction','src/logger/log_putd.c')],
  'strings of 0..5 characters; one argument of any value; two with numbers up to 2 digits, three with 1 digit; extreme values of all types; texts of 31 to 5000 characters', 'more arguments; failing writes')
p('C35', 'Child processes get the given descriptors, none are leaked',
  'Opening a process connects exactly the requested standard descriptors of the child with pipes to the parent and leaves nothing else of them open in either; when any system call fails, failure is returned and every descriptor and resource acquired so far is released. Closing closes the pipes and returns the exit status, waiting again when interrupted. Becoming a daemon detaches the standard descriptors, leaves no other descriptor open, and a failing fork ends the process with an error message.',
  ['inputs','fault_sequences','configurations'], 'all combinations of requested pipes, every failing system call, interrupted waits', 'The test starts one process; failing calls and interruptions do not occur.',
  ['src/proclib/process.c','src/proclib/daemonize.c'], [('pipe and file-action set-up','src/proclib/process.c'),('descriptor redirection','src/proclib/daemonize.c')],
  'every single system call failing, up to 40 interruptions, descriptors with numbers up to 70000, descriptor tables of 16 to 70000', 'processes started with closed standard descriptors; children ended by signals', ['POSIX process and descriptor calls (model with a descriptor table)'])
p('C36', 'Reading a line of standard input delivers the whole line',
  'Reading a line from standard input delivers exactly the next line, with or without its newline as requested, or as much of it as fits the buffer; it is terminated, its size is exact, and nothing outside the buffer is written. At the end of the input the result is empty.',
  ['inputs'], 'all inputs up to the bound, all buffer sizes', 'No test covers it.',
  ['src/stringptr/read_stdin_line.c'], [('line and newline handling','src/stringptr/read_stdin_line.c')],
  'inputs of 0..6 arbitrary characters, buffers of 2..7 bytes; inputs of 60 to 300 characters with newlines at any of a few places, buffers of 2 to 400 bytes', 'longer lines', ['fgets behaves as specified (stand-in)'])
p('C37', 'Typed lists and iteration macros visit every item once in order',
  'String lists and pointer lists return their items as stored, copies where a copy was requested, NULL behind the last one; adding fails exactly when memory is short and then leaves the list unchanged. The iteration macros visit every item exactly once in order with its position, nested and while the current item is deleted as documented, and do nothing on empty lists.',
  ['inputs','histories','fault_sequences'], 'all histories up to the bound, all allocation failures', T + 'nested and deleting iteration are not sampled.',
  ['include/stringlist.h','include/sptrlist.h','include/sblist.h','src/sblist/sblist.c'], [('iteration macros','include/sblist.h'),('copying add','include/stringlist.h')],
  'three additions with strings of 0..2 bytes and a deletion; pointer lists of 0..4 items', 'longer lists')
p('C38', 'Replacements of stdio functions print what the originals print',
  'With stdio-repl.h included, puts, printf, fprintf to stdout or stderr, dprintf, snprintf and perror print exactly the text, including the newline where the original adds one, to the same descriptor as the functions they replace.',
  ['inputs'], 'all strings up to the bound, digits and formats of two items', 'No test covers the header.',
  ['include/stdio-repl.h'], [('macros','include/stdio-repl.h'),('descriptor choice','include/stdio-repl.h')],
  'strings of 0..4 and 0..2 arbitrary characters, one-digit numbers', 'other formats (see C19); other streams than stdout and stderr')
for _i in 'C01 C04 C05 C06 C07 C08 C09 C11 C12 C13 C14 C15 C16 C19 C21 C22 C23 C24 C25 C26 C27 C28 C29 C30 C31 C32 C34 C36 C37'.split():
    P[_i]['bounds'] += '; sizes past 2^16 (about 70000 items or bytes, scripted contents with a few arbitrary ones)'
P['C38']['bounds'] += '; strings of 30 to 4085 characters, four of them arbitrary'
for _i in 'C03 C09 C12 C13 C14 C21 C34'.split():
    P[_i]['bounds'] += '; convenience macros of the public headers'
for _i in 'C05 C06 C07 C08'.split():
    P[_i]['bounds'] += '; items, keys and values of 65535, 65536 and 70001 bytes'
P['C14']['bounds'] += '; stored null values'
P['C19']['bounds'] += '; precisions up to 70001'
P['C23']['bounds'] += '; temporary names of 31 to 65536 characters'
P['C34']['bounds'] += '; error numbers 0, -1 and 70000 besides the usual ones'
P['C24']['bounds'] += '; results longer than PATH_MAX'
P['C25']['bounds'] += '; file positions around 2^31 and 2^32'
for _i in ('C05','C06'):
    P[_i]['bounds'] += '; macro arguments that are expressions (a lookup as position, maps in arrays, computed flags)'
