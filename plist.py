"""The property list (source of properties.jsonl and MANIFEST.json)."""
PROPS = []


def P(id, title, statement, over, qtext, why, files, mech, technique=None, level='proof', note=None, observe=(), na=None, state=()):
    d = dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=qtext), why_tests_cant=why,
             anchors=dict(files=files, state=[dict(name=n, meaning=m, where=w) for n, m, w in state],
                          mechanism=[dict(name=n, where=w) for n, w in mech], observe_at=list(observe), hook_needed=None))
    if na:
        d['na'] = na
    else:
        d.update(technique=technique, level=level, note=note)
    PROPS.append(d)


AI = 'abstract interpretation (disjunctive dataflow to a fixpoint) over LLVM IR'
AINOTE = ('Covers every path and every input value of the listed drivers through a finite abstract domain; trusts clang, '
          'the IR transfer functions and the models of library calls in vf/. ')
TQ = ['include/bcl/transparent_queue.h']

P('Q01', 'TransparentQueue is a FIFO whatever its internal representation',
  'For every history of push, emplace, pop, front, back, size and empty on a TransparentQueue, elements leave in exactly the order they entered, none lost, duplicated or invented; front and back refer to the oldest and newest stored element (and can be written through), size and empty report the number stored, and pop on an empty queue returns null. '
  'The switch between the single-element and the multi-element representation is never observable.',
  ['histories', 'inputs'], 'all finite histories of operations on one queue, all element pointers including null',
  'The five tests compare a handful of fixed queues; the property ranges over unbounded operation histories and representation switches.',
  TQ, [('single/multi representation switch', 'include/bcl/transparent_queue.h: push, emplace, pop, size, empty, front, back')],
  AI + ' with an abstract sequence domain; FIFO specification as product typestate', note=AINOTE + 'std::queue is modelled as an abstract sequence.',
  state=[('mIsSingle/mIsEmpty', 'which member of the union is active', 'include/bcl/transparent_queue.h')])
P('Q02', 'TransparentQueue copies, moves and swaps contents and owns its storage',
  'Copying a TransparentQueue (construction or assignment) yields an independent queue with the same elements, moving transfers the elements and leaves an empty usable source, and swap exchanges the contents, in every combination of representations, including self-assignment and self-swap; assignment returns its target. '
  'No such operation, nor destruction, leaks, doubly releases or uses released storage.',
  ['histories', 'inputs'], 'all pairs of queues reachable through the API, every copy/move/assign/swap form followed by further use and destruction',
  'No test copies, moves or swaps a queue; leaks and stale storage show no wrong result in a sample.',
  TQ, [('special members and swap', 'include/bcl/transparent_queue.h: copy/move constructors, assignments, destructor, swap')],
  AI + ' with abstract sequences and heap ownership', note=AINOTE)
P('Q03', 'TransparentQueue comparisons are elementwise and lexicographic',
  'For any two TransparentQueues, == and != decide elementwise equality of the stored pointers and <, >, <=, >= their lexicographic order, independent of which representation each queue happens to be in.',
  ['histories', 'inputs'], 'all pairs of queues reachable by push and pop (including drained queues in the multi-element representation), all element values',
  'Tests compare five fixed pairs; mixed representations of drained queues are never compared.',
  TQ, [('comparison operators', 'include/bcl/transparent_queue.h: operator==, operator<, free operators')],
  AI + ' with abstract sequences', note=AINOTE)

IC = ['include/bcl/IntrusiveConnection.h']
ICNOTE = AINOTE + ('Messages are bounded to 2 requests each (4 in the thorough run) with unknown contents; the number of messages, answers and the '
                   'thread interleaving (at synchronisation operations, with spurious wakeups) are unbounded. ')
P('I01', 'IntrusiveConnection gives every request exactly one response, in order',
  'Whatever way a socket splits or joins messages at delimiters, and whenever the server stops, every request delivered to IntrusiveConnection reaches the server at most once and in order, and before the receive callback returns exactly one response has been sent for it: the result of the function passed to answer() if that was called with it, otherwise REJECT, each followed by the delimiter. '
  'A request is rejected only once the server has given the connection up; nothing is sent after the socket was closed, and answer() fails only on a closed connection without calling its function.',
  ['schedules', 'inputs', 'histories'], 'all interleavings of the socket thread with the server thread, all sequences of messages, delimiters and answers, server leaving at any point',
  'There is no test of IntrusiveConnection; the orders of a request with the end of the server depend on the scheduler.',
  IC, [('request hand-over', 'IntrusiveConnection::connect receive callback'), ('answer', 'IntrusiveConnection::answer'), ('rejection', 'IntrusiveConnection::~IntrusiveConnection')],
  AI + ' with threads, locks and the request/response protocol as product typestate', level='other', note=ICNOTE,
  state=[('mIsReceive/mIsSend/mClose/mReject', 'mailbox flags of the connection', 'IntrusiveConnection::Status')])
P('I02', 'IntrusiveConnection never deadlocks or loses a wakeup',
  'While the server keeps answering or ends, every call of answer() and every receive and closed callback of IntrusiveConnection returns: a thread that waits is always notified after the condition it waits for became true, no thread waits for a lock for ever, and closing the socket ends a server waiting for a request.',
  ['schedules', 'histories'], 'all interleavings of the socket thread and the server thread, including spurious wakeups',
  'A lost wakeup needs one particular interleaving that a test cannot force.',
  IC, [('wait/notify pairs', 'IntrusiveConnection::answer, connect, ~IntrusiveConnection')],
  AI + ' with threads, locks and condition variables (deadlock = state without enabled thread)', level='other', note=ICNOTE)
P('I03', 'The status shared by an IntrusiveConnection is race free and released once',
  'All accesses of the server thread and the socket thread to the status of an IntrusiveConnection that may conflict are ordered by its locks, none happens after the status was released, and the status and the rejection flag are released exactly once for every connection.',
  ['schedules', 'histories'], 'all interleavings of the socket thread and the server thread over the whole life of a connection',
  'Data races and late uses of the released status do not change the result of a sampled run.',
  IC, [('release of Status', 'closed and receive callbacks in IntrusiveConnection::connect'), ('locks', 'mReceiveMutex, mSendMutex')],
  AI + ' with happens-before sets per access and heap ownership', level='other', note=ICNOTE)
P('I04', 'Moving an IntrusiveConnection transfers it and closes what it replaces',
  'After move construction or assignment only the target serves the connection and the source does nothing; a connection that is overwritten by assignment is closed exactly like a destroyed one, so that its requests are rejected and its socket can be closed; assignment returns its target.',
  ['schedules', 'histories'], 'all interleavings of a server that moves its connection or replaces it by another one with the socket threads',
  'No test moves a connection.',
  IC, [('move operations', 'IntrusiveConnection move constructor and move assignment')],
  AI + ' with threads and locks', level='other', note=ICNOTE + 'The two-connection case interleaves threads only where one may block. ')

RD = ['include/bcl/RedirectIO.h']
RDNOTE = AINOTE + 'Every library call may succeed or fail at any point; file contents are symbolic. '
P('R01', 'RedirectIO owns its target file exactly once',
  'A RedirectIO constructed for a descriptor opens the target in the requested mode and redirects exactly that descriptor to it, or leaves no file open; through every sequence of its operations, failures and moves the file is closed exactly once (when its owner is destroyed, is overwritten or failed to set up), is never used afterwards, and a default constructed or moved-from object redirects nothing and is safe to query.',
  ['histories', 'faults'], 'all sequences of operations and moves with any of fopen, dup2, fgetc, ftell, fseek, fread, fflush, fclose failing at any call',
  'The repository has no test of RedirectIO; leaks and double closes only show under injected faults.',
  RD, [('constructor and clean up', 'RedirectIO::RedirectIO'), ('ownership transfer', 'RedirectIO::operator=(RedirectIO&&)')],
  AI + ' with stdio typestate and failure forks', note=RDNOTE)
P('R02', 'RedirectIO records every failure and nothing else',
  'Whenever an operation behind a RedirectIO member function fails, that function reports it softly: errors() gains a diagnostic with the error number of this failure, hasErrors() becomes true and the result is empty or false; hasErrors() never becomes true without a failure.',
  ['faults', 'histories'], 'every library call failing at any point of every history',
  'Faults such as a failing ftell or fclose cannot be produced by ordinary tests.',
  RD, [('error recording', 'RedirectIO::storeErrNo and its call sites')],
  AI + ' with stdio typestate and failure forks', note=RDNOTE)
P('R03', 'RedirectIO::diff() returns exactly the data after the mark',
  'isDiff() is true exactly if the file position moved since the mark, and diff() returns byte for byte everything in the target file from the mark to its end (nothing if there is no change); the mark is the position at redirection (the end in append mode) until setDiffPos() moves it, and resetDiffPos() restores it.',
  ['inputs', 'histories'], 'file contents of any length including null characters, all histories of output, marks and comparisons',
  'Tests could compare some texts; data of every length and content at every mark is out of their reach.',
  RD, [('comparison', 'RedirectIO::isDiff, diff, setDiffPos, resetDiffPos')],
  AI + ' with abstract file contents', note=RDNOTE)

DG = ['include/bcl/Diagnostic.h']
DGNOTE = AINOTE + 'Texts are symbolic, snprintf() may fail at any call; histories are bounded to 3 (thorough: 5) operations per container, the vector is analysed from its library source. '
P('D01', 'Diagnostic stores exactly the formatted messages in order',
  'A Diagnostic holds for each successful insert(), in order, the text "<Kind> C<Code>(<Pos>): <Fmt with its arguments>" untruncated and null-terminated, for every kind, code, position, format and argument; insert() returns true exactly in this case and otherwise only increments internal_size(). '
  'size(), empty() and every form of iteration (forward, reverse, forwards and backwards) agree with the messages, clear() removes messages and failures, swap() exchanges both.',
  ['inputs', 'faults', 'histories'], 'texts and numbers of any value and length, formatting failing at any call, histories of insert, clear and swap',
  'The repository has no test of Diagnostic; formatting failures and extreme values are never exercised.',
  DG, [('formatting', 'Diagnostic::insert'), ('iteration', 'Diagnostic::iterator_wrapper')],
  AI + ' with abstract strings and symbolic lengths', level='other', note=DGNOTE)
P('D02', 'Diagnostic buffers are large enough and released once',
  'Whatever the length of the kind and the formatted text, insert() writes within the buffer it allocated; every buffer is released exactly once, by the operator that matches its allocation, also if formatting fails half-way.',
  ['inputs', 'faults', 'histories'], 'all text lengths, formatting failing at any call, all containers lifetimes including swap',
  'An off-by-one or a mismatched delete is silent in ordinary runs.',
  DG, [('buffers', 'Diagnostic::insert, mKind, mDiagnostics')],
  AI + ' with symbolic object sizes and heap ownership', level='other', note=DGNOTE)

CS = ['lib/Socket/CSocket/CSocket.cpp', 'include/bcl/CSocket.h', 'include/bcl/Socket.h']
CSNOTE = AINOTE + 'Every system call may succeed or fail at any point, sends may be partial; the thread of each connection is analysed with the state it was given, the other entries of the connection table are abstracted by their number. Threads are assumed to start, handlers and listeners not to throw. Only the POSIX branch is analysed. '
P('S01', 'The C socket server neither leaks nor reuses descriptors',
  'startServer() closes every socket it creates or accepts exactly once on every path (including each failure) and never uses a descriptor after closing it or one that belongs to another connection; its accesses to memory are valid for every buffer size and every amount of received data, also in the threads of connections.',
  ['inputs', 'faults', 'histories'], 'failure of any system call at any point, all buffer sizes, received lengths and sequences of connections',
  'There is no test of the network code; leaks appear only if particular system calls fail.',
  CS, [('setup and clean up', 'net::startServer'), ('connection', 'SocketImp::run, closeSocket')],
  AI + ' with descriptor typestate and failure forks', note=CSNOTE)
P('S02', 'The C socket server reports each event exactly once with the right connection',
  'For each thing that happens to the server (listening, accepting, receiving, sending, closing, and failure of each of these or of the setup) the status handler is called exactly once, with the matching status and the addresses and ports of the connection concerned, before the server goes on; a client that is gone leads to a reported send error and not to the end of the process.',
  ['faults', 'histories'], 'failure of any system call at any point of any sequence of connections and messages',
  'Faults of system calls and clients that disappear at a particular point are not reproducible in tests.',
  CS, [('events', 'calls of on and mOn in CSocket.cpp')],
  AI + ' with a queue of expected events', note=CSNOTE)
P('S03', 'Data passes the C socket unchanged',
  'Every receive listener gets exactly the bytes of each recv(), whatever they are; send() transfers all bytes of its message in order, exactly once, even if the system accepts only a part at a time, or reports a send error.',
  ['inputs', 'faults'], 'data of any content and length, partial sends of any size, failure at any point',
  'Null characters, full buffers and partial sends depend on data and timing.',
  CS, [('transfer', 'sendData, receiveData'), ('delivery', 'SocketImp::run, SocketImp::send')],
  AI + ' with abstract strings and buffers', note=CSNOTE)
P('S04', 'Listeners of a C socket are called once each and in order',
  'createServer() is called exactly once for each connection before data is received; for each piece of data every receive listener is called once in the order of registration, also if listeners register further ones or send; when the client leaves or an error occurs every closed listener is called once, after the socket was closed, with true only if the connection ended without an error.',
  ['histories', 'faults'], 'all sequences of registrations, data, failures and the end of the connection',
  'Registration during a call, and errors in the middle of a conversation, are histories that no test samples.',
  CS, [('listeners', 'SocketImp::run, receive, closed, closeSocket')],
  AI + ' with listener typestate', note=CSNOTE)
P('S05', 'The C socket server keeps its connection limit and stays responsive',
  'At most the requested number of connections is served at a time (unlimited for 0): accept() is not called while this number of entries exists; each connection has its own thread, and the accepting thread never waits for a connection that may be active, nor aborts, in particular when the system reuses a descriptor.',
  ['schedules', 'histories'], 'all sequences of accepted and ended connections with any maximum; threads that end at any time',
  'The limit, and a descriptor that is reused before its thread ended, need many connections with particular timing.',
  CS, [('connection table', 'ActiveSockets, sanitizeConnections in net::startServer')],
  AI + ' with the number of free entries as symbolic value', note=CSNOTE)
P('S06', 'The C socket server listens where it was asked to',
  'The server binds an IPv4 stream socket to the requested address and port (any address if it is empty) with address reuse enabled, and listens before it accepts; startServer() returns only after a failure of the setup that was reported.',
  ['inputs', 'faults'], 'all addresses and ports, failure of any system call',
  'Wrong byte order or an ignored failure shows only for particular ports, hosts and faults.',
  CS, [('setup', 'getAddressInfo, bindSocket, setSocketOptions, net::startServer')],
  AI + ' with symbolic addresses', note=CSNOTE)

DSNOTE = AINOTE + 'The driver compares every observation with a model it keeps itself. '
P('L01', 'Chain keeps intrusive lists consistent in both directions',
  'After any history of splice and merge operations on bcl::Chain nodes (through ChainTraits or iterators), getNext and getPrev of all nodes describe the same chains: splicing inserts a node after cutting it out of its chain, merging concatenates two chains and detaches what followed or preceded, null detaches; iterators walk exactly these nodes in both directions. '
  'Chains of one node that have different tags are independent.',
  ['histories', 'inputs'], 'all histories of operations on 3 nodes, and every single operation on 2 nodes with all their neighbours in chains and rings of 6 nodes',
  'There is no test of Chain; a wrong back link shows only after particular sequences of splices.',
  ['include/bcl/Chain.h'], [('links', 'Chain, ChainTraits::spliceNext, splicePrev, mergeNext, mergePrev'), ('iteration', 'ChainIterator')],
  AI + ' with a successor/predecessor model as product', level='other', note=DSNOTE + 'An operation concerns two nodes and their neighbours, hence 6 nodes; code that walked a chain would be analysed for chains of up to 6 nodes only.')
P('T01', 'TraitDescriptor implements its sets of alternatives and unions',
  'A TraitDescriptor contains after any history of set, unset, unset_group, unset_all and of transfers from other descriptors exactly the traits that follow from its declaration: setting a trait removes the conflicting ones (alternatives that no union joins) and only these; is, is_any, equality, for_each, for_each_available, keys and masks agree with the contained traits.',
  ['histories', 'inputs'], 'all histories of operations on a descriptor with single traits, alternatives, unions and alternatives of unions; transfer to a different descriptor',
  'There is no test of traits; conflicts depend on the combination of declaration and history.',
  ['include/bcl/trait.h'], [('bit set', 'TraitDescriptor'), ('conflicts', 'trait::is_conflict, find_group, find_union'), ('transfer', 'trait::set, trait::update')],
  AI + ' with a bit mask model as product; type-level obligations (static_assert)', level='other',
  note=DSNOTE + 'One declaration with all kinds of groups (8 traits) stands for all; descriptors of more than 64 traits, arguments that conflict with each other and printing are not covered.')
P('T02', 'TraitSet owns one description per set trait',
  'A TraitSet holds for each trait that is set the description given last and none for the others, in every history of set, unset, get, release and moves; conflicting traits lose their descriptions; each description is destroyed exactly once, and released ones belong to the caller.',
  ['histories', 'inputs'], 'all histories of operations on one set, moves between two sets',
  'Ownership errors (leak, double delete) do not change the results a test looks at.',
  ['include/bcl/trait.h'], [('descriptions', 'TraitSet::set, unset, get, release, move operations')],
  AI + ' with heap ownership and a model of the descriptions', level='other', note=DSNOTE + 'The map is one of the driver; setting the pointer that is already stored is a misuse and not covered.')
P('M01', 'Static maps give each key its own value',
  'In a StaticMap, StaticTypeMap and StaticTraitMap each key denotes one value of its type that no operation on another key changes; construction, copies and operator[] keep this association, for_each and for_each_key visit each cell exactly once with its key (StaticMap: in order) using the functor of the caller, not a copy; operations on types (merge, reverse, intersect, remove, index) satisfy their definition. '
  'Maps with duplicate keys and accesses with unknown keys are rejected by the compiler.',
  ['inputs', 'histories'], 'all values; representative maps of 3 and 4 cells of different types',
  'There is no test of the maps; most errors are in templates that no test instantiates.',
  ['include/bcl/cell.h', 'include/bcl/trait.h'], [('cells', 'StaticMap, Cell, StaticTypeMap'), ('traits', 'StaticTraitMap, TraitMapConstructor')],
  AI + '; type-level obligations and compile-fail witnesses', level='other', note=DSNOTE + 'Representative instances stand for all. The order in which StaticTypeMap takes its constructor arguments is not specified.')
P('M02', 'Functors copy, move, clear and delete the right cells',
  'CopyTo/CopyFrom/MoveTo/MoveFromCellFunctor give each key both maps contain the value of its source (moved where the name says so, otherwise the source keeps it) and leave all other cells alone; ClearCellFunctor destroys each object the pointers of a map refer to exactly once, InitCellFunctor makes exactly the pointers null.',
  ['inputs'], 'all values; maps which share some of their keys in different order',
  'There is no test; a copy in place of a move, or a cell that is missed, is visible only with suitable values.',
  ['include/bcl/cell.h'], [('functors', '*CellFunctor in cell.h')],
  AI + ' with move-tracking values and heap ownership', level='other', note=DSNOTE + 'Representative instances stand for all.')
P('G01', 'Tags denote their elements in tagged pairs and tuples',
  'Every tag or alias of a tagged_pair or tagged_tuple denotes exactly the element it was declared for, for reading and writing, also in constant objects; construction and assignment preserve the association, move if (and only if) the source is given up, otherwise the source keeps its elements; tags, indexes, sizes and types computed at compile time agree with it. for_each visits all elements of (tagged) tuples once and in order with their tag, forward_as_args passes them in order, convertible_pair converts to references to its own elements.',
  ['inputs'], 'all values; representative pairs and tuples with aliases and repeated types',
  'There is no test; with elements of one type a wrong association compiles.',
  ['include/bcl/tagged.h', 'include/bcl/tuple_utils.h', 'include/bcl/convertible_pair.h'], [('lookup', 'tags::get, tagged_pair::get, tagged_tuple::get'), ('visits', 'for_each, forward_as_args')],
  AI + '; type-level obligations (static_assert)', level='other', note=DSNOTE + 'Representative instances stand for all.')
P('A01', 'Elements of multidimensional arrays are distinct and in bounds',
  'For marray and marray_f of 1 (marray_f) or 2 to 5 dimensions of any sizes, elements with different valid indices are different objects inside the one allocation, which has exactly the required size; an element keeps its address while the array exists, also when it is moved to another array. Moves transfer the storage, which is released exactly once.',
  ['inputs', 'histories'], 'all sizes of the dimensions (as long as the product does not overflow), all indices, several element sizes',
  'Tests could only sample sizes; a wrong stride overlaps elements for some shapes only.',
  ['include/bcl/marray.h', 'include/bcl/marray_f.h'], [('strides', 'allocate, offset, msubarray::operator[]'), ('ownership', 'move construction and assignment')],
  AI + ' with addresses in polynomial normal form over symbolic dimensions', note=AINOTE + 'Addresses are polynomials over the dimensions; that a mixed radix number is injective and bounded is the (trusted) mathematical step.')
P('W01', 'Wrappers of values and iterators stay consistent',
  'The pointer registered with a ValuePtrWrapper always points to the value inside the wrapper that holds it, after construction, moves and assignments, and all access operators denote this value. IteratorDataAdaptor visits exactly the elements of the underlying range, combined with its data, compares equal exactly if position and data are equal, and has the traits of an iterator over its element type.',
  ['inputs', 'histories'], 'all values; sequences of moves and assignments; iteration, copies and comparisons',
  'There is no test; a stale pointer goes unnoticed until the old object is reused.',
  ['include/bcl/ValuePtrWrapper.h', 'include/bcl/IteratorDataAdaptor.h'], [('registration', 'ValuePtrWrapper constructors and assignment'), ('iteration', 'IteratorDataAdaptor')],
  AI + '; type-level obligations (static_assert)', note=AINOTE)
P('U01', 'Utilities compute what they promise for every value',
  'shrinkPair succeeds exactly if both values fit into half of the target, otherwise the target is unchanged, and restoreShrinkedPair returns the original values, within the bounds of all objects; swapMemory exchanges objects bytewise, staticForeach visits each argument once and in order, inserters and make_unique functions do what their names say, isWhitespace recognises exactly the blanks, attributes have distinct identifiers, bitPrint prints each bit from the highest to the lowest; binary literals, numbers of digits and of trailing zeros (of values other than 0) and unit masks have the value of their digits, lists of types their index and size.',
  ['inputs'], 'all values and bit patterns; all sizes of masks; literals of up to 64 digits',
  'There is no test; extreme values and unequal sizes are not sampled.',
  ['include/bcl/utility.h'], [('pairs', 'shrinkPair, restoreShrinkedPair'), ('memory', 'swapMemory'), ('constants', 'ToBinary, unitMask, index_of')],
  AI + ' with bytewise symbolic values; type-level obligations (static_assert)', level='other', note=DSNOTE + 'shrinkPair is analysed for representative combinations of types.')
P('J01', 'The JSON lexer finds exactly the tokens of the text',
  'From every position of every text, setPosition() and goToNext() move to the next token: brackets, comma, colon and unknown characters, quoted strings (a backslash escapes the next character), numbers (optional sign, digits, at most one dot) and the keywords true, false and null, skipping white space; start(), end(), next(), is(), isKeyword(), isIntegral(), isFloatingPoint() and discardQuote() describe that token. If there is no further token (or a string is not closed) goToNext() returns false and reports the unexpected end exactly once with its position. The checks report exactly one error at the token if it is of another kind. Stored positions are restored like a stack with the whole token. The text is never read out of bounds.',
  ['inputs', 'history'], 'texts of any length and content, any starting position inside; histories of stored positions up to depth 3 over all pairs of kinds of tokens',
  'There is no test of the JSON part; a token depends on arbitrarily many preceding characters.',
  ['include/bcl/Json.h'], [('reading', 'Lexer::goToNext, setPosition'), ('positions', 'storePosition, restorePosition, resetPosition'), ('checks', 'checkSpecial, checkIdentifier, checkValue')],
  AI + ' of texts as lazily revealed symbolic characters; a specification automaton reads along')
P('J02', 'JSON arrays and objects are traversed, counted and skipped element by element',
  'From an opening bracket, Parser::traverse() hands every element of the array or object over exactly once, in order, with its index or with the position of its key and with the lexer at the first token of the value; numberOfKeys() returns the number of elements and the greatest index (for an object the greatest key) and leaves the lexer where it was; skipInternal() ends at the bracket that closes the value, however deeply it is nested. All of them return true exactly if the tokens up to the closing bracket form an array or object (for skipInternal(): if the closing bracket matches), stop at the closing bracket, report exactly one error for a wrong or incomplete text, and never read behind the closing bracket.',
  ['inputs'], 'sequences of tokens of any length and nesting; one spelling for each kind of token (J01 covers the spellings); any result of the conversion of an element',
  'Nesting and the number of elements are not bounded; every token may be missing, surplus or wrong.',
  ['include/bcl/Json.h'], [('traversal', 'Parser::traverse'), ('counting', 'Parser::numberOfKeys'), ('skipping', 'Lexer::skipInternal')],
  AI + ' of token sequences that are revealed lazily; the monitor of the specification reads along, its counters are related to the loop variables')
P('J03', 'A JSON text creates the object it names and fills the cells it has keys for',
  'Parser::parse() finds the value of the name key in a text {key: value, ...} behind any values, nested ones included, and creates an object of the type with this name from the whole text; it returns no object if there is no such type, the text up to the name is wrong or ends, the conversion fails, or anything follows the converted value. Parser::parse(Obj) converts the whole text likewise. Conversion to a StaticMap gives the value of each key to the cell with this name, at the first token of the value, and skips the values of unknown keys; it fails exactly if the text is wrong or a conversion fails.',
  ['inputs'], 'sequences of tokens of any length and nesting; one spelling for each kind of token; any result of the conversions',
  'The name may stand behind any number of arbitrarily nested values; each token may be wrong.',
  ['include/bcl/Json.h'], [('name', 'Parser::parse, Parser::parseName'), ('conversion', 'Parser::ParseFunctor::parse'), ('cells', 'Traits<StaticMap>::parse, detail::ParseCellFunctor')],
  AI + ' of token sequences that are revealed lazily; the monitor of the specification reads along')
P('J04', 'JSON strings and characters survive being written and read',
  'For every string (or C string, or character) unparse() appends a quote, the string with \\n, \\t, \\v, \\f, \\r, quotes and backslashes escaped, and a quote, and leaves the text in front unchanged; a null pointer is written as nothing. For every string unescape() replaces each escape sequence, from the left, by the character it stands for (a backslash in front of any other character is dropped, one at the end stays) and keeps all other characters. Conversion of a token to a string, C string or character gives its unescaped contents (for a character: exactly if these are one character), in memory of the right size. All accesses stay inside the strings. Hence a written string is one token, and reading it gives the string.',
  ['inputs'], 'strings of any length and characters; any text in front of and behind the token',
  'Any character may stand at any place, in particular at the end of the string.',
  ['include/bcl/Json.h'], [('writing', 'Traits<std::string>::unparse, escape, Traits<char>, Traits<char *>'), ('reading', 'Traits<std::string>::unescape, parse, Traits<char>, Traits<char *>')],
  AI + ' of strings as lazily revealed symbolic characters; loop invariants of the form "the result so far is the conversion of the characters so far" are formed and checked at loop heads')
P('J05', 'JSON numbers, booleans and optional values are read in range and written exactly',
  'Conversion of a token of any kind, with or without quotes, to int, long, long long or an unsigned counterpart succeeds exactly if its contents start with a number that the type can hold, and gives that number (negative numbers for unsigned types are unspecified); to float or double exactly if the standard conversion succeeds, with its result; to bool exactly for true and false; to an optional value for null (empty, a previous value is dropped) and for everything the type accepts (the value), and fails for everything else. No exception escapes. unparse() appends the decimal representation of the number, the keyword, the value of the optional or null, and leaves the text in front unchanged.',
  ['inputs'], 'keywords and unknown texts of any length that denote no number, or any number of one of seven ranges; std::stoi etc. and std::to_string are modelled by their specification',
  'All numbers, in particular those at and beyond the limits of each type, and all texts that are no numbers.',
  ['include/bcl/Json.h'], [('numbers', 'Traits<int> ... Traits<double>'), ('boolean values', 'Traits<bool>'), ('optional values', 'Traits<std::optional>')],
  AI + '; contents of the token and numbers are symbolic, numbers split at the limits of the types')
P('J06', 'JSON arrays and objects fill arrays and containers with exactly their elements',
  'Conversion of an array [V0, V1, ...] or an object {"0": V0, ...} with any order of the keys to a pointer gives a new array (a null pointer if it is empty) in which each element is the value of its index, and conversion of any other value a single new element; conversion to a vector resizes it and fills it likewise. A gap in the keys is rejected with error 7, more values than the greatest key allows with error 8, keys that are no indices are rejected. Conversion to a set, map or multimap adds each element (with its key) and keeps what was there; a key that is already there is rejected with error 8 by set and map. The conversion succeeds exactly if all elements and keys can be converted, and leaves the lexer at the closing bracket; otherwise a pointer stays unchanged, no memory is lost or released wrongly, and a container has no element whose conversion failed.',
  ['inputs', 'history'], 'arrays with up to 3 elements and all keys below 3, maps with up to 2 and sets with up to 3 elements, an element may be there before; any text around the value, any result (also an exception) of each conversion of an element or key',
  'The order and gaps of keys and the failure of a particular conversion combine; leaks and wrong deallocation show in no result.',
  ['include/bcl/Json.h'], [('arrays', 'Traits<Ty *>, Traits<char *>, Traits<const Ty *>'), ('vectors', 'Traits<std::vector>'), ('sets and maps', 'Traits<std::set>, Traits<std::map>, Traits<std::multimap>')],
  AI + ' of the lexer, the traits and the containers of the standard library (trees without balancing)', level='other', note='Bounded number of elements.')
P('J07', 'JSON texts of containers and objects hold each element once, well separated',
  'unparse() appends to the text in front: for a vector [V0,V1,...], or {"0":V0,...} with the elements that have a text if another one has none; for a set [K0,K1,...]; for a map or multimap {"K0":V0,...} in the order of the container, each key in quotes exactly once; for a StaticMap {"name":V,...} in the order of its cells with the names escaped; elements without a text are left out with their key and comma; for a pointer the text of the element, nothing for a null pointer. Parser::unparse(Object) and unparseAsObject() write the object with the pair of the name key and the name of its type in front of its cells, and nothing for a type that the parser does not know.',
  ['inputs'], 'containers of up to 3 elements; any texts of elements and keys (also empty ones and such with brackets, commas or quotes at their ends), any text in front',
  'Which elements have an empty text decides about commas and brackets; the text in front may look like a part of the list.',
  ['include/bcl/Json.h', 'include/bcl/utility.h'], [('arrays', 'Traits<std::vector>::unparse, Traits<Ty *>::unparse'), ('sets and maps', 'Traits<std::set>::unparse, Traits<std::map>::unparse, quote'), ('objects', 'detail::UnparseCellFunctor, Parser::UnparseFunctor')],
  AI + '; the texts of elements and keys are unknown pieces, the result is compared with the specification as a sequence of pieces', level='other', note='Bounded number of elements.')
P('J08', 'JSON objects described with macros have exactly the cells described',
  'For every number of pairs from 1 to 30 JSON_OBJECT_PAIR[_N](Object, Name, Type, ...) and JSON_OBJECT_ROOT_PAIR[_N] between JSON_OBJECT_BEGIN and JSON_OBJECT_END define a class that is the StaticMap of exactly these cells in this order; Object[Object::Name] has the type given for this name, which may contain commas if it is wrapped into BCL_JOIN, and the name of the cell is the text of Name. The same holds for objects described with JSON_VALUE, JSON_OBJECT or JSON_OBJECT_ROOT and JSON_ACCESS. Only top-level (ROOT) objects are derived from json::Object, are named after their class and keep this name in copies; is<T>() holds exactly for types of this name and as<T>() is the object itself. JSON_INIT initialises the cells with the values in the order of the description, JSON_DEFAULT_TRAITS converts an object cell by cell.',
  ['inputs'], 'every size the macros support, a different type for each cell; types with commas in the first, a middle and the last cell',
  'The macros of each size are separate; tests (there are none) would use a few sizes.',
  ['include/bcl/Json.h', 'include/bcl/JsonObjectMacros.h'], [('macros', 'JSON_OBJECT_PAIR_2 ... JSON_OBJECT_ROOT_PAIR_30, JSON_VALUE_N, JSON_ACCESS_N'), ('objects', 'json::Object, JSON_INIT, JSON_INIT_ROOT, JSON_DEFAULT_TRAITS')],
  'compile-fail witnesses (static_assert over an object of each size) decided by the C++ type checker; names and initialisation by abstract interpretation of the LLVM IR', level='other', note='Sizes 1 to 30, one object each.')
P('H01', 'Public headers stand alone, in any order and in several translation units',
  'Each header of include/bcl (all but the legacy ones) can be included alone, without anything in front of it, and twice. What a header declares does not depend on which other headers of the library were included before it, and all of them can be included together in any order. No header defines a function or variable with strong external linkage, so any number of translation units of a program may include it.',
  ['inputs', 'history'], 'all headers, all ordered pairs of headers, with the C socket enabled; the installed libstdc++',
  'Tests include one header or a fixed order of headers, each in one translation unit.',
  ['include/bcl'], [('headers', 'include/bcl/*.h')],
  'type checking of each header alone, comparison of preprocessed texts for all ordered pairs of headers, linkage of the definitions in the LLVM IR')
P('E01', 'Equations are instantiated exactly where their guards hold',
  'A Row of a BinomialSystem stores its two monomials, its constant and the guards, inverse guards and computable monomials added to it: the ranges and sizes give exactly these, in order, also for copies. instantiate() keeps exactly the equations whose guards are all true and whose inverse guards are all false, and adds the value of each computable monomial (coefficient times value) to their constant; instantiated_size() is their number, instantiated_begin() to instantiated_end() visit each of them once and no others, begin() to end() visit all equations. printInstantiated() prints coefficients, constant and computed monomials of each equation once.',
  ['inputs', 'history'], 'any coefficients, constants and values; up to 3 equations with any results of their guards, rows with up to 3 guards, 2 inverse guards and 2 monomials',
  'No test covers Equation.h; which equations are discarded decides about their order.',
  ['include/bcl/Equation.h'], [('rows', 'milp::Row'), ('instantiation', 'BinomialSystem::instantiate, instantiated_begin, push_back, back, printInstantiated')],
  AI, level='other', note='Bounded number of equations.')
P('E02', 'Solutions of a binomial system satisfy its equations and comprise all solutions',
  'solve() returns the number of equations solved, in order; with IsSolvable = false it stops exactly at an equation the GCD of whose coefficients does not divide its constant. For all coefficients other than 0, getSolution() has one equation X + R * T = K with a parameter T for each variable X of the solved equations, these satisfy each instantiated equation for every value of the parameters, variables that depend on each other share a parameter, others do not, and every integer solution is obtained from some value of the parameter. Discarded equations have no influence. Logging does not change the result. (Without overflow.)',
  ['inputs'], 'one to three equations with unknown coefficients that are independent, share a variable (at any place) or form a chain, star or tree; an equation that relates already dependent variables; completeness for up to two equations',
  'The result is an identity between polynomials in the coefficients; tests (there are none) would sample them.',
  ['include/bcl/Equation.h'], [('solution', 'BinomialSystem::solve')],
  AI + ' over Laurent polynomials of the coefficients; euclidGCD() is replaced by its contract (E03), identities are compared in normal form', level='other', note='Up to three equations.')
P('E03', 'euclidGCD finds the greatest common divisor and its coefficients',
  'For all integers L and R (whose absolute values exist) euclidGCD(L, R) returns G, X and Y with G = X * L + Y * R, where G is not negative, divides L and R and is the greatest number that does (the absolute value of the other one if one of them is 0).',
  ['inputs'], 'all values; induction over the recursion',
  'All pairs of numbers, depth of the recursion not bounded.',
  ['include/bcl/Equation.h'], [('greatest common divisor', 'milp::euclidGCD, milp::detail::euclidGCD')],
  AI + ' over polynomials: the recursive call is replaced by the contract for smaller arguments, which are a unimodular combination of the given ones')
P('E04', 'Solutions of a binomial system are reversed and shifted consistently',
  'After reverseSolution() the variable X of each equation X + R * T = K of the solution is the parameter of an equation Y + C * X = D, where Y (the parameter that belongs to T) is the same positive multiple of T in all equations, so the values of the variables are unchanged. solutioWithPositiveConstant() then replaces the parameter exactly if a constant D is negative, adds the same number to all of them, leaves the coefficients unchanged, and no constant is negative afterwards. Both do nothing for an empty solution. (Without overflow.)',
  ['inputs'], 'solutions of one and two equations with unknown coefficients',
  'Signs and divisors of all coefficients combine.',
  ['include/bcl/Equation.h'], [('transformations', 'BinomialSystem::reverseSolution, solutioWithPositiveConstant')],
  AI + ' over Laurent polynomials of the coefficients; signs of numbers are decided from known signs of polynomials and their sums', level='other', note='Solutions with two and three variables.')
