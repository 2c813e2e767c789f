"""Per property: how it is decided (oracle, what is symbolic) and why this goes beyond the tests; printed into DESIGN.md by gen.py."""
H = {
'C01': 'Oracle: a plain array of byte strings in the harness, updated in parallel; after every operation size, every item, return values and the number of live blocks are compared. Positions are arbitrary 64-bit values (split into in/out of range by the solver), so an off-by-one or truncated index is found directly.',
'C02': 'Oracle: the same arrays; `vp_oom=1` lets each allocation of the history fail or not (every subset), the long versions move a burst of one to three failures over the first N allocations. After a reported failure the contents must be the previous ones, and finally no block may be live.',
'C03': 'Oracle: sortedness and multiset equality over symbolic keys; the comparison functions return results of arbitrary magnitude and the right sign (a symbolic factor), ascending, descending and with context. For each path the number of equal items is decided by the solver.',
'C04': 'Like C01 for the macro lists; the element types differ in size and alignment, both variants (`tglist`, `tgilist` with index table) are instantiated in the harness.',
'C05': 'Oracle: association list in the harness; keys are symbolic bytes, so the path condition is the order type of all keys. Ownership: keys and values are heap blocks whose release is counted for each flag combination.',
'C06': 'Like C05; the hash functions are constant, parity tables with extreme values, multiplicative, and *arbitrary* (`anyhash`: each new key gets a fresh symbolic 32-bit hash, equal keys the same). Iteration must show each live entry exactly once.',
'C07': 'Like C01 with lists built in different orders; the deep variants count released pointers.',
'C08': 'Hashes are symbolic; the expected bucket is computed by the harness, iteration is compared with the concatenation of the expected buckets, also after failed additions and after the end.',
'C09': 'Oracle: set of live slots; sizes and foreign pointers are arbitrary (any offset around the pool, inside slots, before it). All remaining slots must be obtainable afterwards. Memory around the pool is checked for changes.',
'C10': 'One query per assertion over an arbitrary 64-bit size and an arbitrary page-aligned mapping address; mmap, mprotect and munmap are recorded. This covers all sizes at once.',
'C11': 'Arbitrary contents, arbitrary index; every other bit is compared. All 16/32/64-bit values for the byte swaps.',
'C12': 'Oracle: definitions in the harness on (pointer, length) pairs; blocks have exactly the length of the string, so each byte read or written outside is caught. Allocation failures in all subsets.',
'C13': 'Oracle: a naive scanner for non-overlapping occurrences; the path condition fixes which positions match. List growth is forced by texts with 15 and more delimiters, and the scripted texts are built from parts of the delimiter.',
'C14': 'Oracle: the first index whose length and bytes agree; values are addresses of tags. Copies are checked to be private, and released exactly once in every failure pattern.',
'C15': 'Oracle: RFC 4648 written as bit arithmetic; the destination has exactly the given size. Table look-ups with symbolic index become if-then-else terms.',
'C16': 'Oracle: nibble arithmetic; all byte values, both letter cases, odd and empty lengths.',
'C17': 'The harness chooses the *digits* symbolically and computes the number from them, so that division by the base is undone by the simplifier instead of by a solver for division: all 64-bit values in base 10 including the extremes, and the listed digit counts in the other bases.',
'C18': 'Inverse of C17: digits symbolic, the value is their polynomial.',
'C19': 'Oracle: text assembled while the format is generated; conversions, precisions and buffer sizes are case-split, arguments and literals symbolic. Variadic calls are executed through the x86-64 va_list as compiled.',
'C20': 'All 2^32 addresses via symbolic digits; arbitrary texts for the predicates and memory safety.',
'C21': 'Oracle: naive first match, for arbitrary short texts; for long texts pieces of the needle are laid out by the script with arbitrary characters in between.',
'C22': 'Oracle: split into components and a stack; both implementations are compared with it and so with each other.',
'C23': 'Oracles: the component definition of C22 for differences; last slash/dot; for temporary directories the recorded sequence of mkdir calls with arbitrary errors and arbitrary random numbers.',
'C24': 'glob is a stand-in which records the pattern; it is parsed back (escapes removed) and must be the directory literally plus mask. Results are arbitrary names; allocation failures in all subsets.',
'C25': 'Oracle: line boundaries computed from the symbolic file; open/read/lseek/close are a one-file model with arbitrary failures. The internal 1 KB buffer boundaries are met exactly (1023…2048).',
'C26': 'The same file model with arbitrary short reads and writes and failures of each call; contents compared byte by byte; descriptors and blocks must be released on every way out.',
'C27': 'Oracle: definitions on the list of lines; contents arbitrary for short files, scripted with prefix-sharing names for long ones.',
'C28': 'Oracle: definition of spelling; arguments arbitrary.',
'C29': 'Arbitrary 32-bit state, arbitrary bytes, against the bit-serial division: an inductive step, so the per-byte update is proved for streams of every length; the initial value, the final inversion and the cuts are checked separately. Table look-ups are decided through SAT sweeping.',
'C30': 'Reference implementation written from the RFC, executed symbolically next to the real one. Both end in the same terms after normalisation, so equality of digests is decided for all contents at once. Arbitrary chaining state and 64-bit length make it an inductive step over the number of blocks.',
'C31': 'As C30, after FIPS 180-4.',
'C32': 'Concrete keys of all interesting lengths with symbolic texts; 256-byte keys with the last bytes symbolic (arrays with symbolic indices).',
'C33': 'Clock, sleep and calendar are stand-ins with arbitrary results; arithmetic is compared in 64 bits, time stamps via symbolic digits.',
'C34': 'write is a stand-in that collects bytes per descriptor and clobbers errno; numbers via symbolic digits; all kinds of `vario` arguments in all orders.',
'C35': 'A model of the descriptor table, of pipes, file actions, posix_spawn, fork and waitpid; each call may fail. After each outcome the tables of parent and child are compared with the specification.',
'C36': 'fgets is a stand-in according to the C standard; lines compared with the symbolic input.',
'C37': 'Each macro is expanded in the harness and executed symbolically on lists of every length.',
'C38': 'Each macro is expanded with the header and its output collected by the write stand-in.',
}
