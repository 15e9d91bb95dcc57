
H, I, C, S = 'histories', 'inputs', 'configurations', 'schedules'

prop('C01', 'Error numbers print as their own errno macro name',
     'For every int, the errno-to-name lookup terminates and returns a valid C string: for a number that the platform headers name it is one of the macro names with exactly that value, '
     '0 gives "0", and any number without a name gives the fixed "unknown" text. It never reads outside its table.',
     [I], 'every 32-bit error number, positive, negative and zero', 'No test calls it; a shifted or truncated table shows only at the numbers that moved.',
     ['src/strerrno.cxx'], [('table index check and table order', 'src/strerrno.cxx')],
     note='Proved for every int against the names in <errno.h>, read from the preprocessor on every run. Trusted: the VC generator, z3, clang front end.')
prop('C02', 'Every byte is printed in one documented escape form',
     'Printing a character or buffer through the escaping helpers writes, for every byte and in order, exactly: the byte itself when it is printable ASCII other than backslash, the two-character C escape for '
     'a, b, t, n, v, f, r, escape (\\e) and backslash, and otherwise \\x with two upper-case hexadecimal digits. A buffer of n bytes is read from its first to its last byte and no further.',
     [I], 'every byte value, every buffer length and content', 'No test prints escapes; 256 values times all lengths.',
     ['src/utils/char2str.cxx', 'src/utils/buf2str.cxx', 'include/libcwd/char2str.h', 'include/libcwd/buf2str.h'], [('char2str / buf2str printing', 'src/utils/')],
     note='Proved for all bytes and all lengths (loop invariants found by Houdini). Trusted: ostream put/write semantics, VC generator, z3.')
prop('C03', 'Channel name masks match exactly the wildcard language',
     'A mask matches a channel name exactly when the name is obtained by replacing each asterisk in the mask with some (possibly empty) text and every other character matches itself. '
     'The matcher terminates and reads no byte outside the mask and the name, for all masks and names.',
     [I], 'all masks of any length and all NUL-terminated names', 'Backtracking matchers go wrong on particular mask/name combinations; the tests use a handful of channel names.',
     ['src/utils/match.cxx', 'include/match.h'], [('recursive wildcard matcher', 'src/utils/match.cxx')],
     note='Proved with a recursion contract, a termination measure and two lemmas proved by induction in the same run.')
prop('C04', 'The rc file switches exactly the channels its lines name',
     'Each rc file line is parsed as keyword = value with surrounding white space ignored and comment lines skipped; a channels_on, channels_off or channels_toggle line applies, in order, to exactly the channels whose '
     'upper-cased name up to the first blank matches one of the listed masks, and a channel already in the requested state is left alone. gdb and xterm set the command they name, other keywords change nothing.',
     [I, H], 'all rc file texts, channel sets and prior on/off states', 'Only one fixed rc file is used in tests; the product of masks, labels and prior states is unbounded.',
     ['src/utils/rcfile.cxx', 'include/libcwd/RcFile.h'], [('line parsing', 'RcFile::read'), ('mask application', 'RcFile::process_channel(s)')],
     note='Proved for one mask and any one channel, label, state and action, and for turning all channels on or off, and for splitting lists of any length into masks. Splitting the text into lines and keywords is a labelled bounded check of whole files. One defect found and repaired.')
prop('C05', 'Margin and marker strings hold exactly the text given to them',
     'After any assign, append, prepend, reserve, swallow or copy, a margin or marker string holds exactly the resulting text, reports its exact length, is NUL-terminated and never reads or writes outside its own memory. '
     'Its capacity never drops below its reserved default nor below its length, and popping a pushed margin or marker brings back the text that was pushed.',
     [I, H], 'all texts, lengths, capacities and reserve sizes; every reachable string state', 'Grow and shrink paths depend on the ratio of three sizes; tests use short fixed strings.',
     ['include/libcwd/DebugString.h', 'include/libcwd/DebugString.inl.h', 'src/debug.cxx'], [('capacity doubling and shrinking', 'DebugString::calculate_capacity, internal_*')],
     note='Proved for every state the representation invariant allows. Assumes texts without embedded NUL that do not alias the string itself.')
prop('C06', 'Owning smart pointers delete each object exactly once',
     'In any history of construction, copying, assignment, locking, release and reset of the lockable pointer, each object owned is deleted exactly once, by whichever pointer owns it last, and never while a pointer still owns it. '
     'Copying or assigning moves ownership unless the source is locked, in which case the source keeps it; release gives ownership away without deleting.',
     [H], 'all states of the operands (owner, locked, null, aliasing the same object) and all operations', 'The test covers a fixed sequence of types; ownership bugs need particular aliasing.',
     ['include/libcwd/lockable_auto_ptr.h'], [('owner/locked flags', 'lockable_auto_ptr')],
     note='Proved per operation from an arbitrary state, including operands that alias. One defect found and repaired (see known-findings.json).')
prop('C07', 'A source location reports exactly what lookup found, and owns its file name',
     'A location built from an address is in one of the documented states: known with the file, line and function that lookup found; unknown with a function or placeholder name and the object file when there is one; or not yet initialized. '
     'Copying, assigning, clearing and locking keep the reported fields equal to those of the source, give exactly one owner to the stored path, free it exactly once, and printing or asking for a file never reads a field that this state does not have.',
     [I, H], 'all lookup results (null or not, any path text, line 0 or not), all ownership states of two locations', 'Tests look up a few addresses of one binary; the combinations of missing function, file, line, object file and ownership are not reachable from there.',
     ['src/location.cxx', 'include/libcwd/Location.h', 'include/libcwd/Location.inl.h'], [('pc_location', 'src/location.cxx'), ('copy, operator=, clear', 'src/location.cxx')],
     note='Proved per operation from every ownership state. The lookup layer (dwarf.cxx) is replaced by its contract: it may return any result.')
prop('C08', 'Type information names a type completely and gives its exact sizes',
     'For every type T the name reported by type_info_of<T>() is the complete encoded name of T: its reference and cv-qualifiers (for an array those of its elements) followed by everything the compiler encodes for the unqualified type, whatever text that is; '
     'asked by object, top-level qualifiers are ignored. The demangled name is exactly the demangled form of that name, size() is the size of T, ref_size() that of what a pointer points to and 0 otherwise, and asking again gives the same information.',
     [I], 'all encoded type names: any qualifiers, any number of array bounds, any text', 'Tests instantiate a handful of types; what goes wrong depends on the text of the encoded name (identifiers, substitutions, array bounds).',
     ['src/type_info.cxx', 'include/libcwd/type_info.h'], [('extract_exact_name', 'src/type_info.cxx'), ('make_label', 'src/type_info.cxx'), ('type_info_of', 'include/libcwd/type_info.h')],
     note='Name extraction and label proved for all texts; the templates for 30 representative types. The demangler is replaced by its contract (any text). One defect found and repaired.')
prop('C09', 'Demangling never reads or writes outside its buffers, whatever the input',
     'For every input, demangling a type or symbol never reads outside the input or the decoder\'s tables, vectors and strings, never writes past a buffer and never overflows in arithmetic; '
     'every part of the decoder stops inside the input, and template parameters that refer to themselves do not recurse without limit.',
     [I], 'all byte strings', 'Tests demangle a list of well-formed names; malformed and truncated ones are what a debugger meets in stripped or damaged objects.',
     ['include/cwd_demangle.h', 'src/demangle.cxx'], [('recursive-descent decoder', 'include/cwd_demangle.h')],
     note='All 23 decoders proved, each against the contract of the others; printing of reals bounded. Three defects found and repaired.')
prop('C10', 'A name that cannot be demangled is returned unchanged',
     'When the decoder does not accept an input as a whole mangled name, the text that demangling adds to the output is exactly the input itself, behind whatever was in the output before; no partial decoding remains. '
     'A name that is accepted is left as decoded, and names of global constructors and destructors are described by the name behind their prefix.',
     [I], 'all inputs that fail to decode, after any amount of partial output, with any previous content of the output', 'Needs failures at every depth of the decoder.',
     ['src/demangle.cxx', 'include/cwd_demangle.h'], [('failure path', 'demangle_symbol / demangle_type')],
     note='Proved for all inputs and all results of the decoder, which is replaced by its contract (proved in C09).')
prop('C12', 'Debug channels and objects are on exactly when on and off calls balance',
     'A channel or debug object is on exactly when it has been turned on once more than it has been turned off (counting from its initial state); n calls of off followed by n calls of on restore the previous state, '
     'and a forced-on period ends in exactly the state it started from. Turning one channel on or off never changes another, and calling on too often is a fatal error, not silent.',
     [H], 'all reachable counter states and all sequences of on, off, force and restore', 'Counters are per thread and per channel; tests use a few fixed nestings.',
     ['src/debug.cxx', 'include/libcwd/Channel.h', 'include/libcwd/Channel.inl.h', 'include/libcwd/DebugObject.inl.h'], [('off counters', 'ThreadSpecificData')],
     note='Proved per operation from arbitrary counters below INT_MAX; sequences follow by induction.')
prop('C13', 'Nested and continued output is written once, in order and marked',
     'Every debug message that is started is written to the stream exactly once, contiguous except where an interruption is marked, with interrupted continued output ended by the unfinished marker and resumed under the same prefix with the continued marker; '
     'nesting indents by four and returning from it restores the previous message and indentation.',
     [H], 'all interleavings of plain, continued, finishing and nested messages with all control flags', 'Histories are unbounded; tests contain fixed ones.',
     ['src/debug.cxx', 'include/private_DebugStack.h', 'include/private_DebugStack.inl.h'], [('start / finish', 'DebugObject_ThreadSpecificData'), ('Buffer::writeto', 'src/debug.cxx')],
     note='start, finish, Buffer::writeto and the stack proved from an arbitrary state of one message each; whole histories additionally executed and compared with an oracle (bounded).')
prop('C14', 'Each debug line starts with margin, padded label, marker and indentation',
     'A message starts with the color-on text, then the margin, the channel label padded to the common label width, the marker and as many spaces as the indentation; each blank flag replaces its own part by as many spaces, '
     'the no-label flag drops label, marker and indentation, and the no-prefix flag drops everything after the color-on text.',
     [I, C], 'all margins, markers, labels, colors, indentations and all control flag combinations', 'The product of flags and string contents is far beyond the tests.',
     ['src/debug.cxx'], [('start', 'DebugObject_ThreadSpecificData::start')],
     note='start proved for all strings, flags, label widths and indentations; histories executed for failing inputs (bounded).')
prop('C15', 'Registered channels stay sorted, uniquely indexed and findable by prefix',
     'After any sequence of channel registrations every channel has its own nonzero index, each label is its given text padded with blanks to the length of the longest label so far (those of dc::core and dc::fatal included), the public list is in label order, '
     'and lookup by a case-insensitive prefix returns the last listed channel that has it, or nothing. Only a channel named WARNING starts turned on.',
     [H, I], 'all registration orders and label texts', 'Tests register a few channels in one order.',
     ['src/debug.cxx', 'include/libcwd/Channel.h'], [('initialize_channel', 'src/debug.cxx'), ('find', 'src/debug.cxx')],
     note='Registration proved for lists of any length through an arbitrary element, for every label width and every label text; lookup and iteration likewise. Histories of registrations executed for failing inputs (bounded).')
prop('C16', 'Overlapping symbol ranges are resolved deterministically, never losing coverage',
     'However symbol ranges overlap and in whatever order they are inserted, stored ranges stay disjoint, nonempty and sorted, an address is covered exactly when an inserted range covers it, and it is attributed to the range that wins there under the documented preference.',
     [H, I], 'all sets of ranges, all insertion orders, all addresses', 'A unit test inserts a few overlaps; the splitting code has many cases and is order dependent.',
     ['include/dwarf_symbol_ranges.h'], [('insert_function_symbol_range', 'include/dwarf_symbol_ranges.h')],
     note='Proved for maps of any size at one arbitrary address (specification containers for std::map and std::vector); histories of insertions are also executed against an oracle with the real containers for failing inputs (bounded).')
prop('C17', 'An address is attributed to the object file and symbol that contain it',
     'Looking up an address returns the loaded segment or function whose half-open range contains it and nothing otherwise; a symbol is accepted only when it is a defined, named, nonempty function whose range does not wrap; '
     'unloading an object removes exactly its own ranges, and an object opened and closed with dlopen and dlclose stays registered until the close that unloads it.',
     [I, H], 'all address maps, addresses and symbol table entries', 'Tests look up addresses in the middle of functions; boundaries, gaps and adjacent ranges are not sampled.',
     ['src/dwarf.cxx'], [('find_object_file, find_symbol, add_function_symbol_range', 'src/dwarf.cxx')],
     note='Lookup, registration, unloading, dlopen/dlclose bookkeeping and symbol filtering proved pointwise (one arbitrary address or handle); fake address spaces and real shared objects executed (bounded). What libdw reports is trusted. One defect found and repaired.')
prop('C18', 'The output lock is held during every write and released after it',
     'When a lock is attached to the output stream, every byte written to the stream is written with that lock held, the lock is released exactly once afterwards on every path, and without contention it is never requested while already held by the same thread.',
     [H], 'all message kinds, flags and stream/lock configurations of one thread', 'Tests check that output comes out, not that each write is covered.',
     ['src/debug.cxx', 'include/libcwd/private/Lock.h', 'include/libcwd/DebugObject.h'], [('get_locked_os / unlock', 'src/debug.cxx')],
     note='Every write and flush in writeto, start and finish carries a lock-held obligation; histories with a checking stream and lock executed for failing inputs (bounded).')
prop('C19', 'An error report names the errno that the message was started with',
     'A debug message with the error flag, nested and interrupting ones included, ends with the name and the text of the error number that was current when the message (or its last continued part) was started, whatever happened to errno since; without the flag none is reported.',
     [I, H], 'all error numbers, flags and nestings', 'Needs an errno change in the middle of an expression being printed.',
     ['src/debug.cxx', 'src/strerrno.cxx'], [('OutputState::err', 'src/debug.cxx')],
     note='start, finish and the resumption of a message proved for all errno values with arbitrary changes of errno by output; histories executed for failing inputs (bounded).')
prop('C20', 'Muted debug output evaluates nothing and writes nothing',
     'When the debug object or the selected channels are off, the expression of a debug statement is not evaluated and nothing is written; when any selected channel is on (or is always on), it is evaluated exactly once.',
     [I, H], 'all channel combinations, on/off states and control flags', 'All combinations of channel states and operators are needed.',
     ['include/libcwd/macro_Libcwd_macros.h', 'include/libcwd/ChannelSet.h', 'src/debug.cxx'], [('ChannelSetBootstrap operators', 'include/libcwd/ChannelSet.h')],
     note='Each operator proved from an arbitrary set and continued-message stack; the macro proved on statements of one and two channels with start and finish replaced by counting contracts.')
prop('C21', 'Concurrent debug output of different threads never mixes within a line',
     'When several threads write debug output to one stream with a lock, every line is written whole and each thread has its own margin, indentation and on/off state.',
     [S], 'all thread schedules', 'Tests run a few threads for a short time.',
     ['src/threading.cxx', 'src/debug.cxx'], [('thread specific data', 'src/threading.cxx'), ('stream lock', 'include/libcwd/DebugObject.h')],
     na='The claim quantifies over schedules. The contract verifier used here is sequential (no ownership or rely/guarantee logic over pthreads and atomics); its sequential part, that each write of one thread happens under the lock, is C18.')
prop('C22', 'A fatal message terminates the program even when several threads fail at once',
     'After a fatal or core dump message the process ends, and only the first of several failing threads performs the termination.',
     [S], 'all schedules of failing threads', 'Tests have one fixed race.',
     ['src/debug.cxx'], [('claim_fatal_termination_ownership', 'src/debug.cxx')],
     na='A liveness property over schedules (the other threads wait forever by design); a sequential contract cannot state it.')
