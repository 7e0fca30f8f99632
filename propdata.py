"""Property texts (source of properties.jsonl and MANIFEST.json, written by gen.py)."""
P = []


def prop(id, title, statement, over, qtext, why, files, mech, observe=None, state=None):
    d = dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=qtext), why_tests_cant=why,
             anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech]))
    if state: d['anchors']['state'] = [dict(name=n, meaning=m, where=w) for n, m, w in state]
    if observe: d['anchors']['observe_at'] = observe
    d['anchors']['hook_needed'] = None
    P.append(d)


prop('C01', 'Base64 text is exactly RFC 4648 and decoding inverts encoding',
     'Encoding any byte string yields its RFC 4648 base64 text (standard alphabet, "=" padding to a multiple of four), and decoding that text returns exactly the original bytes. '
     'Decoding a text whose length is not a multiple of four, or that has a character outside the alphabet before any padding, raises an invalid-argument error. Neither direction reads outside its input.',
     ['inputs'], 'all byte strings of every length; all candidate base64 texts',
     'The tests round-trip a few fixed strings; the claim is about every length class and every byte value in every position.',
     ['src/data/encoding/base64.cpp'], [('three-bytes-to-four-characters loop and padding tail', 'base64_encode'), ('character classification and four-to-three loop', 'base64_decode, toint')],
     ['pfi::data::encoding::base64_encode', 'pfi::data::encoding::base64_decode'])

prop('C02', 'Bit-level integer codes are prefix-free and read back what was written',
     'Any sequence of values written to the bit encoder with the fixed-width, gamma, delta, rice, byte and byte-aligned prefix codes is read back unchanged by issuing the same sequence of reads on the decoder, at every bit alignment and in every mix of codes. '
     'Writing a value never alters bits written earlier, and reading one consumes exactly the bits its write produced.',
     ['inputs', 'histories'], 'all values in each code\'s domain, all widths 0..32, all rice parameters, all starting alignments, all sequences of calls',
     'The tests write a few thousand values one code at a time; mixed codes at every alignment with extreme values are not sampled.',
     ['src/data/code/code.cpp', 'src/data/code/code.h'], [('bit cursor and partial last byte', 'encoder::word_with_length'), ('64-bit window read', 'decoder::word_with_length, decoder::gamma')],
     ['encoder::get_bytes / flush', 'decoder return values'],
     [('bit cursor', 'number of bits used in the last byte', 'encoder::bit, decoder::pos/bit')])

prop('C03', 'UTF-8 conversion is exact: valid text round-trips, invalid text is rejected',
     'Decoding accepts exactly the well-formed UTF-8 sequences of Unicode scalar values and yields the code point they denote; overlong forms, surrogates, values above U+10FFFF, truncated and stray bytes are reported (an exception, or U+FFFD where the caller asked for replacement), and no byte past the given end is read. '
     'Encoding a scalar value yields its unique well-formed sequence, so decode after encode is the identity. The whole-string validity test holds exactly for well-formed strings, and the sanitiser\'s output is always well-formed.',
     ['inputs'], 'all byte strings and all 32-bit code point values',
     'Tests list some dozens of sequences; the claim quantifies over every byte combination at every truncation point.',
     ['src/data/string/ustring.cpp', 'src/data/string/ustring.h'], [('per-lead-byte decoder with continuation checks', 'chars_to_uchar_impl'), ('encoder', 'uchar_to_chars'), ('validity check', 'check_utf8, sanitize_utf8')],
     ['string_to_ustring', 'ustring_to_string', 'check_utf8', 'chars_to_uchar'])

prop('C04', 'MD5 digests equal RFC 1321 for every message',
     'The digest of any byte string equals the RFC 1321 MD5 of those bytes, whether it is given as a string, an iterator range or an input stream. Printed to a stream with default formatting, a digest is its 32 lower-case hexadecimal digits and the stream\'s format settings are left as they were; digests are ordered lexicographically by their four words.',
     ['inputs'], 'all messages of every length, in particular around the 56/64-byte block boundaries',
     'The only digest test uses the empty string.',
     ['src/data/digest/md5.cpp', 'src/data/digest/md5.h'], [('block transform', 'md5sum::calc'), ('padding, length accounting and end of stream', 'itr_buf::get'), ('text form', 'operator<<')],
     ['md5sum constructors', 'md5sum a/b/c/d', 'operator<<'])

prop('C05', 'The producer-consumer buffer is a bounded FIFO under every schedule',
     'Under every interleaving of producers and consumers, items leave the buffer in the order they entered, none is lost, duplicated or invented, and it never holds more than its capacity. A timed operation returns true exactly when its effect took place and otherwise changes nothing, and it gives up only if it found the buffer full (push) or empty (pop). '
     'No blocked operation is left waiting for a wake-up that has already become due: every change that can unblock a waiter is followed by a notification.',
     ['schedules', 'inputs'], 'all capacities, all numbers of producer and consumer threads, all interleavings, all spurious wake-ups and time-outs',
     'The tests run a few timed two-thread scenarios on one scheduler; interleavings at the waits are not enumerated.',
     ['src/concurrent/pcbuf.h'], [('mutex-protected queue with condition-variable waits', 'pcbuf::push/pop'), ('notify after every change', 'cond.notify_all')],
     ['push/pop/size results'], [('queue', 'current contents, oldest first', 'pcbuf::q')])

prop('C06', 'A synchronising variable hands each value over exactly once',
     'A synchronising variable is either empty or holds exactly one value: put waits until it is empty and fills it, take waits until it is full and empties it, read leaves it full, and swap exchanges the value in one atomic step. The non-blocking forms succeed exactly when the blocking ones would not wait. '
     'No value is lost, duplicated or overwritten under any interleaving, and every change of fullness notifies the waiters.',
     ['schedules'], 'all interleavings of any number of threads over all operations, including spurious wake-ups',
     'There are no tests for this component.',
     ['src/concurrent/mvar.h'], [('mutex and condition around an optional cell', 'mvar::take/put/read/swap/try_take/try_put')])

prop('C07', 'A channel delivers every write to every duplicate, in order, exactly once',
     'Each write to a channel is appended once to that channel and to every duplicate that exists at that moment, and each reader receives its items in that order, with un-got items first. Under every interleaving no item is lost, duplicated or reordered, a reader blocks only while its queue is empty, and every arrival notifies waiting readers.',
     ['schedules', 'histories'], 'all interleavings of reads, writes, ungets, duplications and destructions',
     'There are no tests for this component.',
     ['src/concurrent/chan.h'], [('per-channel queue with mutex/condition', 'chan::put/read/unget'), ('shared set of linked channels', 'chan::dup/write')])

prop('C08', 'A quantity semaphore never grants more than is available',
     'For non-negative quantities, waiting for q units blocks until at least q units are available and then takes exactly q; signalling adds exactly q and notifies every waiter. At every point the units granted and not yet returned equal the difference between all units supplied and the units available, which is never negative.',
     ['schedules', 'inputs'], 'all initial quantities, request sizes and interleavings',
     'There are no tests for this component.',
     ['src/concurrent/qsem.h'], [('mutex-protected counter with condition waits', 'qsem::wait/signal')])

prop('C09', 'Lock operations report success exactly when the lock was acquired',
     'Every lock, try-lock, timed lock, unlock and timed wait of the mutexes, the recursive mutex, the read-write mutex and the condition variable performs exactly one matching system operation (a nested lock or unlock of a recursive mutex by its holder only counts) and reports success exactly when that operation succeeded. A wait releases the mutex completely and restores holder and depth. '
     'A timed form waits until now plus the given delay expressed as a normalised absolute time. A scoped lock that reports itself held is released exactly once when it goes out of scope, and one that failed is never released.',
     ['schedules', 'fault_sequences', 'inputs'], 'all outcomes of the system operations, all delays, all current times',
     'Tests only use uncontended locks; the failure and time-out results are never exercised.',
     ['src/concurrent/mutex.cpp', 'src/concurrent/rwmutex.cpp', 'src/concurrent/condition.cpp', 'src/concurrent/lock.h', 'src/concurrent/rwmutex.h'],
     [('thin wrappers over pthread operations', 'mutex_impl, rw_mutex, condition'), ('absolute deadline computation', 'condition::wait(m,sec), rw_mutex timed locks')])

prop('C10', 'File mappings never leak, dangle or misreport under any fault',
     'Whatever the outcome of each system call, opening a file mapping either succeeds with the whole file mapped and the reported size equal to the file size, or fails leaving the object as it was and nothing new open or mapped; closing, re-opening, moving and destruction release every descriptor and mapping exactly once. After close the object reports itself closed, with no address and size zero.',
     ['fault_sequences', 'histories'], 'all results of open, fstat, mmap, munmap and close, and all sequences of open/close/destroy',
     'Tests open real files only; none of the failure branches is taken.',
     ['src/system/mmapper.cpp', 'src/system/mmapper.h'], [('open/fstat/mmap sequence with cleanup', 'mmapper::open'), ('release', 'mmapper::close')],
     ['system calls issued', 'is_open/size/begin/end'])

prop('C11', 'Socket streams deliver exactly the bytes sent, whatever the transfer sizes',
     'Bytes written through a stream socket reach the peer complete, in order and once, and reads return exactly the bytes received, however the kernel splits, shortens or interrupts the individual transfers. A write or flush reports success only if every byte was accepted, a line read returns the bytes up to the next newline, and an error closes or reports rather than silently dropping data.',
     ['fault_sequences', 'inputs', 'histories'], 'all sequences of partial, interrupted, failing and end-of-stream results of the socket calls and all sequences of reads, line reads, writes and flushes',
     'Tests only go through loopback RPC with small messages, where transfers are never split.',
     ['src/network/socket.cpp', 'src/network/socket.h', 'src/network/iostream.h'], [('write buffer and flush loop', 'stream_socket::write/flush/send_all'), ('read buffer', 'stream_socket::read/getc/getline')])

prop('C12', 'URI percent-encoding is invertible and leaves only safe characters',
     'Percent-encoding any byte string keeps the unreserved characters (letters, digits, "-", "_", ".", "~"), writes a space as "+" and every other byte as "%" with two upper-case hexadecimal digits, and decoding that text returns the original bytes. '
     'Decoding any text turns "%" with two hexadecimal digits into the byte they denote and "+" into a space, passes everything else through (also a "%" with fewer than two characters after it), and never reads outside its input.',
     ['inputs'], 'all byte strings (below 2^31 bytes)',
     'Tests use a few strings; every byte value and truncated escape is quantified over here.',
     ['src/network/uri.cpp', 'src/network/uri.h'], [('character class and hex conversion', 'uri_encode, uri_decode')], ['uri_encode', 'uri_decode'])

prop('C13', 'URI parsing splits a reference into the components RFC 3986 defines',
     'Parsing a URI succeeds exactly for the strings of the RFC 3986 URI-reference grammar, and the scheme, user information, host, port, path, query and fragment it reports are exactly the corresponding substrings of the input; for every other string, one with a NUL character included, all components are empty. No parse reads outside the string.',
     ['inputs'], 'all strings',
     'Tests list a handful of URIs.',
     ['src/network/uri.cpp'], [('recursive-descent matcher', 'parse_* functions')])

prop('C14', 'JSON text round-trips: parsing what was printed gives an equal value',
     'Printing any JSON value and parsing the text gives a value equal to the original, for every nesting of objects, arrays, 64-bit integers, booleans, null and strings of any Unicode characters including quotes, backslashes, NUL and other control characters, printed with or without escaping (floating-point numbers to the 12 significant digits printed). Parsing consumes exactly one value, so that several may follow in one stream, whose end is reported as end of data. Unbalanced or misplaced brackets, commas, colons and quotes, unknown words and escapes, lone surrogate escapes, raw control characters in strings and numbers lacking digits are rejected with an error and never yield a value, and no text makes the parser leave its buffers.',
     ['inputs'], 'all JSON values, all well-formed texts and all texts as to memory safety; leading zeros, further white space characters and numbers out of range are not judged',
     'Tests parse fixed documents.',
     ['src/text/json/base.h', 'src/text/json/parser.cpp', 'src/text/json/parser.h'], [('escaping printer', 'json_string::print'), ('recursive-descent parser', 'json_parser')])

prop('C15', 'CSV parsing recovers exactly the fields, for any content and length',
     'Writing fields as CSV (quoting those with commas, quotes or line breaks and doubling quotes; rows ended by LF, CR LF or the end of the text) and parsing the text returns exactly those fields row by row, whatever their non-NUL bytes and lengths, through the iterator and copied rows alike. Parsing any text, well-formed or not, stays within the memory of the text and of its own buffers.',
     ['inputs'], 'all byte strings as input; all field contents and lengths, in particular around the internal buffer sizes',
     'Tests parse a few short rows.',
     ['src/text/csv.h'], [('growing field buffer and quote automaton', 'parser_impl::next')])

prop('C16', 'The LRU cache keeps exactly the most recently used entries',
     'After any sequence of operations a cache of positive capacity holds at most that many entries, every entry maps its key to the value stored when the key was added (storing a key that is present changes nothing) or written through operator[], and an entry leaves only by removal, clearing or as the one whose last use is oldest when a new key finds the cache full. Lookups through get and operator[], and touch, make an entry the most recently used; no operation affects any other entry.',
     ['histories', 'inputs'], 'all operation sequences over all keys, values and capacities',
     'Tests run a few fixed sequences.',
     ['src/data/lru.h'], [('time-stamped index mirrored with the key map', 'lru::set/touch/remove')])

prop('C17', 'Interning is a stable bijection between keys and dense ids',
     'Each distinct key receives one id, ids are handed out as 0, 1, 2, ... without gaps, the same key always maps to the same id, and mapping the id back gives the key. Queries that do not create never change the table and report an unknown key as -1, and the correspondence survives clear, swap and serialisation.',
     ['histories', 'inputs'], 'all sequences of interning, lookup, clear, swap and save/load operations over all keys',
     'Tests intern a few keys.',
     ['src/data/intern.h'], [('hash table plus reverse vector', 'intern::key2id/id2key')])

prop('C18', 'The Fenwick tree answers every prefix and range sum exactly',
     'After any sequence of point increments, the sum reported for any prefix or inclusive range equals the sum of the increments applied to the indices in it, for every tree size. Updates and queries touch only indices inside the tree.',
     ['histories', 'inputs'], 'all sizes, indices, increments and operation sequences',
     'There are no tests for this component.',
     ['src/data/fenwick_tree.h'], [('node i stores the sum of the block ending at i', 'fenwick_tree::query/increase')])

prop('C19', 'String utilities split, join, replace, strip and compare exactly',
     'Stripping removes exactly the leading and/or trailing ASCII white space; prefix and suffix tests agree with comparison of the corresponding substring; splitting at a character or a non-empty string yields, in order, the pieces between consecutive non-overlapping occurrences found from the left (at least one piece), splitting at an empty string yields nothing; joining concatenates with the separator between neighbours, so joining the pieces of a split restores the string; replacing substitutes every such occurrence and nothing else, an empty pattern changing nothing. All of this holds for every byte string, including empty ones, and leaves the arguments unchanged.',
     ['inputs'], 'all byte strings and separators',
     'Tests list fixed strings.',
     ['src/data/string/utility.h'], [('iterator-pair scans', 'strip/lstrip/rstrip, split, join, replace, starts_with, ends_with')])

prop('C20', 'Serialised values read back equal, in a fixed little-endian layout',
     'Writing any value of the supported types (integers, floating point, strings, pairs, arrays, vectors, deques, lists, sets, maps, hash tables, nested combinations and structures, of fewer than 2^32 elements) to a binary archive and reading it back, into a fresh or a used object, yields an equal value and consumes exactly the bytes written. Numbers are stored little-endian in their own width, containers as a 32-bit count followed by their elements in order. Reading a number from a truncated archive leaves the target unchanged and the archive in the failed state.',
     ['inputs'], 'all values of the supported types',
     'Tests round-trip a few values per type.',
     ['src/data/serialization/base.h', 'src/data/serialization'], [('little-endian raw write/read', 'binary_iarchive/binary_oarchive'), ('length-prefixed containers', 'serialize templates')])

prop('C21', 'Byte-order conversions are exact and self-inverse',
     'Reversing the byte order of a value of any width reverses exactly its bytes, converting to and from big- or little-endian order are mutually inverse, and on every host the converted representation has the stated byte order in memory.',
     ['inputs', 'configurations'], 'all values of all supported widths',
     'No test covers them directly.',
     ['src/system/endian_util.h', 'src/system/endian_util.cpp'], [('byte permutation', 'reverse<N>'), ('host-dependent selection', 'to_big/to_little/from_big/from_little')])

prop('C22', 'Clock-time arithmetic is exact and keeps microseconds normalised',
     'Adding or subtracting two normalised times gives the exact sum or difference with a microsecond part in [0, 1000000), comparison orders times as real numbers, and (a+b)-b equals a. Converting a time to calendar form and back gives the same time, and a calendar time built from fields denotes the local time they name.',
     ['inputs'], 'all second counts and all normalised microsecond values',
     'Tests check single instances (and some calendar tests are unstable).',
     ['src/system/time_util.h', 'src/system/time_util.cpp'], [('carry/borrow loops', 'clock_time::operator+=, -=')])

prop('C23', 'Rational numbers stay in lowest terms and compute exactly',
     'Every rational built from a numerator and a non-zero denominator or computed from such has a positive denominator coprime to its numerator, the four operations and the equality test give the exact mathematical result whenever it and the intermediate sums and products fit the integer type, whatever that type, and equal values have equal representations.',
     ['inputs'], 'all integer numerators and non-zero denominators whose results fit the integer type',
     'Tests check a few fractions.',
     ['src/math/ratio.h'], [('normalisation by the greatest common divisor', 'ratio')])

prop('C24', 'The random generator is the reference MT19937 and samples stay in range',
     'For every seed the 32-bit outputs are those of the reference MT19937 generator, at every position of the stream. Bounded integers always lie in the requested non-empty half-open range and uniform reals in [0,1). Sampling k values from [0,n) returns k values of the range, distinct ones when sampling without replacement, and reports failure exactly when n is not positive, k is negative, or k exceeds n without replacement.',
     ['inputs', 'histories'], 'all seeds, all positions in the stream, all bounds',
     'Tests look at short prefixes and statistics.',
     ['src/math/random/mersenne_twister.cpp', 'src/math/random.h'], [('state recurrence and tempering', 'mtrand'), ('range reduction', 'random::next_int, sample_without_replacement')])

prop('C25', 'Substring search finds every occurrence and nothing else',
     'Searching with a prepared pattern (kmp) returns the position of the first occurrence at or after the given non-negative offset, or npos when there is none, for all patterns (an empty one included) and texts over all bytes; searching with a set of distinct, non-empty, NUL-free words (aho_corasick) appends exactly the pairs of word number and end position of all their occurrences, overlapping ones included, ordered by end position. Searches read only the text they were given.',
     ['inputs'], 'all patterns, pattern sets and texts',
     'Tests use a few fixed words; single-pattern search has none.',
     ['src/data/string/kmp.h', 'src/data/string/aho_corasick.cpp', 'src/data/string/aho_corasick.h'], [('failure function', 'kmp'), ('goto/failure automaton', 'aho_corasick')])

prop('C26', 'An optional value owns its content like a value',
     'An optional is either empty or holds one live copy of a value; copy, conversion, assignment, swap and comparison behave as for plain values with emptiness as the least value. Every contained object is constructed once and destroyed once, also under self-assignment; when copying an element throws, both sides keep their contents and nothing is leaked.',
     ['histories', 'inputs', 'fault_sequences'], 'all sequences of operations, including element copies that throw',
     'Tests do not count constructions or inject exceptions.',
     ['src/data/optional.h'], [('owned heap copy, copy-and-swap assignment', 'optional')])

prop('C27', 'Escaped text cannot break out of HTML content',
     'Escaping any string for HTML output leaves no raw less-than, greater-than, double-quote or apostrophe and no ampersand other than the ones of the entities it writes, changes no other character, and is undone exactly by resolving the entities. '
     'Rendering an element tree, compact or pretty, yields markup from which tag names, attribute names and values and text content are read back unchanged.',
     ['inputs'], 'all byte strings (below 2^31 bytes); all element trees',
     'There are no tests for this component.',
     ['src/text/xhtml.cpp', 'src/text/xhtml.h'], [('character-wise entity substitution', 'html_encode'), ('escaping of every name, attribute and text on output', 'tag_elem::render/pretty, text_elem::render')], ['html_encode', 'html_elem::render', 'html_elem::pretty'])

prop('C28', 'IPv4 addresses convert exactly between text, numbers and octets',
     'Constructing an address from four octets or dotted text and converting it back to text loses nothing, comparison orders addresses numerically, and text that does not begin with four decimal numbers from 0 to 255 separated by dots yields the none address.',
     ['inputs'], 'all 2^32 addresses and all candidate texts',
     'Tests use a few addresses.',
     ['src/network/ipv4.cpp', 'src/network/ipv4.h'], [('octet packing', 'ipv4_address')])

prop('C29', 'HTTP bodies are delivered exactly as framed',
     'Reading a message body returns exactly the bytes the framing (content length or chunked coding) delimits, every byte value included, and then end-of-file; header fields are found case-insensitively with the value that was set. A truncated or malformed chunk never yields invented bytes.',
     ['inputs', 'fault_sequences'], 'all bodies, chunk splits and header sets',
     'There are no tests for this component.',
     ['src/network/http/base.cpp', 'src/network/http/base.h'], [('chunk state machine', 'basic_httpbody_chunked_streambuf'), ('counted reads', 'basic_httpbody_streambuf'), ('header map', 'header')])

prop('C30', 'Compressed sparse matrices read back the rows that were written',
     'Every matrix written row by row (each row a sequence of column and one-byte value, columns not negative and strictly increasing) and then closed or destroyed is read back with the same number of rows and the same rows, for every gap between columns and every value, in whatever order the rows are asked for; reading into a vector replaces its contents with the row, reading into a map adds exactly the columns of the row.',
     ['inputs'], 'all matrices',
     'Tests write a few small matrices.',
     ['src/data/sparse_matrix/sparse_matrix.cpp', 'src/data/sparse_matrix/sparse_matrix.h'], [('gap and value compression', 'bytecode encode/decode'), ('row offsets', 'matrix_offsets')])

prop('C31', 'Edit distance and common-subsequence results are exact',
     'The reported edit distance of two sequences is the minimum number of insertions, deletions and substitutions that turns one into the other, the longest-common-subsequence result is the greatest length of a common subsequence, and the longest-increasing-subsequence result is the greatest length of a strictly increasing subsequence, for sequences of every length and any elements; the arguments stay as they are.',
     ['inputs'], 'all pairs of sequences',
     'Tests compare a few pairs of words.',
     ['src/data/string/algorithm.h'], [('dynamic programming table', 'edit_distance, longest_common_subsequence, longest_increasing_subsequence')])

prop('C32', 'A remote call behaves like a local call with the same arguments',
     'A remote call returns the value, or raises an error for the exception, that the registered handler produces for the same arguments; requests for unknown methods, mismatched signatures or wrong protocol versions are answered with an error and never run a handler. Each accepted request produces exactly one reply, over any number of calls on one connection.',
     ['inputs', 'histories', 'fault_sequences'], 'all argument values of the supported types, all sequences of calls, all malformed requests',
     'Tests call a few methods with fixed arguments over loopback.',
     ['src/network/rpc/base.cpp', 'src/network/rpc/base.h', 'src/network/rpc/invoker.h', 'src/network/rpc/caller.h'], [('request/response framing and version check', 'rpc_server/rpc_client'), ('typed argument reflection', 'invoker/caller')])
