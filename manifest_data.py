TECH = 'contract-based deductive verification: VC generation from the LLVM IR of the real sources, discharged by z3/cvc5'
NOTES = ('Every check compiles /repo\'s current sources to LLVM IR, generates verification conditions from the contracts in props/ and discharges them; '
         'functions out of the verifier\'s reach are covered by a bounded stand-in that runs the real code against an oracle, reported as bounded.')
CHECKS = {}
NA = {}
CHECKS['C01'] = dict(note='all inputs of every length: encoder equals RFC 4648 at an arbitrary position, decoder inverts it, malformed texts rejected, memory safe; loops by invariant')
CHECKS['C02'] = dict(note='every alignment, width and value: write then read is the identity, earlier bits unchanged, exact consumption; stream attach/flush only by the bounded stand-in')
CHECKS['C03'] = dict(note='every byte string of every length and every 32-bit value: decoder, encoder, validity test, sanitiser and the string conversions; loops by invariant')
CHECKS['C18'] = dict(note='representation invariant over prefix sums for every tree size, index and increment; recursion by contract with a termination measure')
CHECKS['C21'] = dict(note='every value of every integer type and byte arrays of every length')
CHECKS['C22'] = dict(note='all normalised operands; calendar conversions over assumed contracts of mktime/localtime_r')
CHECKS['C28'] = dict(note='all addresses; parsing and printing over assumed contracts of sscanf/sprintf; exact texts only by the bounded stand-in')
CHECKS['C05'] = dict(note='monitor rule on the compiled template: every operation is one atomic queue transition under the lock, waits re-check, every change is notified; schedules of the real code explored as stand-in')
CHECKS['C06'] = dict(note='monitor rule on the compiled template with the content as an abstract optional value')
CHECKS['C07'] = dict(note='monitor rule on one channel plus a loop invariant over the walk of all linked channels with an arbitrary designated member')
CHECKS['C08'] = dict(note='monitor rule on the unit counter')
CHECKS['C09'] = dict(note='pthread operations with arbitrary results; bookkeeping of recursive mutexes arbitrary while not held; deadline arithmetic over IEEE doubles')
CHECKS['C10'] = dict(note='every result of every system call over ghost tables of descriptors and mappings; invariant: closed objects are as newly constructed')
CHECKS['C04'] = dict(note='every message length: padded block stream, 64-round transform equal to the RFC terms, chaining by loop invariant; text form over ostream contracts; stream-iterator input only by the bounded stand-in')
CHECKS['C12'] = dict(note='every byte string: encoder exact at an arbitrary position, decoder exact on any text and inverse to the encoder; loops by invariant over an uninterpreted position function')
CHECKS['C27'] = dict(note='every byte string: html_encode and text elements exact; tag elements with any number of attributes and children, compact and pretty: the output read by an automaton for the markup')
CHECKS['C16'] = dict(note='representation invariant between the key map, the time index and the clock, instantiated at arbitrary keys; std::map and unordered_map by contract')
CHECKS['C17'] = dict(note='bijection invariant between table and vector at arbitrary keys and ids; serialisation only by the bounded stand-in')
CHECKS['C26'] = dict(note='every operation run over an arbitrary element type whose copies may throw, with a ghost table of live elements')
CHECKS['C24'] = dict(note='every seed and stream position: seeding and block recurrences proved word by word over named words; every bound by IEEE facts; sampling by a permutation invariant over an arbitrary table')
CHECKS['C15'] = dict(note='every row of every length: position automaton as ghost functions, field and character loops by invariant, buffer growth and row copies by contract; memory safety on any text; iterators other than const char* only by the bounded stand-in')
CHECKS['C19'] = dict(note='every byte string: strips by first/last non-space ghost positions, split/join/replace by position functions over an arbitrary piece and character, loops by invariant; std::search and std::equal by contract; containers other than the verified iterators only by the bounded stand-in')
CHECKS['C14'] = dict(note='every string and code point stream: printing by an invariant over an arbitrary character, string parsing by token functions over an arbitrary token, numbers, words, arrays and objects accepted exactly when well formed, each parser function against the contracts of its callees; the value tree and floating-point text only by the bounded stand-in')
CHECKS['C23'] = dict(note='all integers whose results fit: gcd by the invariant that the common divisors stay the same (int and long long), reduction, signs and the value equation of each operation over the integers; coprimality of products and quotients only by the bounded stand-in')
CHECKS['C31'] = dict(note='strings of every length: each table cell equals the defining recurrence, nested loops by invariants over an arbitrary cell; that the recurrence is minimal/maximal is the textbook theorem; longest_increasing_subsequence only by the bounded stand-in')
CHECKS['C25'] = dict(note='kmp for patterns and texts of every length: table entries are the longest borders, find returns the leftmost occurrence, by invariants over an arbitrary border and an arbitrary occurrence; the Aho-Corasick automaton only by the bounded stand-in')
CHECKS['C20'] = dict(note='all scalar codecs proved exact little-endian for every value, stream position and stream state; vector, deque, list, string, map, set and the hash tables proved for every size and content against the contract of the element codec, so nesting follows by composition; long double, reflected member names and embedded streams only by the stand-in')
CHECKS['C13'] = dict(note='every parse function proved to succeed exactly on its RFC 3986 production and to end where the component ends, for texts of every length, against grammar functions unfolded at loop iterations; callers use callee contracts; the constructor ties the components to the substrings')
CHECKS['C30'] = dict(note='append_row (vector, map) and get_row (vector, map, unordered_map) proved for rows of every length over the token contract of the byte-aligned codes (C02); the offset table (prefix sums, its file) and open/close only by the bounded stand-in')
CHECKS['C11'] = dict(note='send_all, flush, write, read, getc, getline, puts and shutdown proved for every buffer state, size and sequence of partial, interrupted, failing and end-of-stream results of send and recv, over ghost sequences of the bytes accepted and delivered by the kernel; connect/accept, the destructor and the iostream adaptor only by the bounded stand-in')
CHECKS['C29'] = dict(note='counted and chunked stream buffers proved for every body, chunk split, fault and call history: the invariant ties the buffer to a ghost of the framing on the wire, every socket read is checked to be in step with it; name comparison proved for names of every length; and lookup in any header; header parsing and message serialisation only by the stand-in')
