#!/usr/bin/env python3
"""Single source of properties.jsonl and MANIFEST.json: run it after an edit."""
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []


def prop(pid, title, statement, over, text, tests, files, mech, state=(), observe=(), hook=None,
         technique='', note='', level='model_checking'):
    assert len(title) <= 80, (pid, len(title))
    P.append(dict(id=pid, title=title, statement=statement,
                  quantifier={'over': over, 'text': text}, why_tests_cant=tests,
                  anchors={'files': files,
                           'state': [dict(name=a, meaning=b, where=w) for a, b, w in state],
                           'mechanism': [dict(name=a, where=b) for a, b in mech],
                           'observe_at': list(observe), 'hook_needed': hook},
                  _t=technique, _n=note, _l=level))


TQ = 'The five stable tests compare a few fixed queues and touch no other part of the library. '
IC, CS, CSH = 'include/bcl/IntrusiveConnection.h', 'lib/Socket/CSocket/CSocket.cpp', 'include/bcl/CSocket.h'

prop('C01', 'Every request gets exactly one reply, in order, and the right one',
     'On a message connection every request that arrives is answered by exactly one message followed by the delimiter, and the replies are sent in the order of the requests. A reply is what the handler returned for that very request or, once the server side has dropped its end, the fixed message REJECT. No request reaches the handler twice, out of order or altered.',
     ['schedules', 'histories', 'inputs'],
     'all interleavings of the peer thread and the server thread, all batches of requests, all points at which the server stops answering',
     TQ + 'No test opens a connection; the guarantee ranges over thread interleavings.',
     [IC, 'include/bcl/Socket.h'],
     [('mailboxes under two mutexes and condition variables', IC + ': answer(), receive callback in connect()'),
      ('rejection flag set by the server side', IC + ': ~IntrusiveConnection(), answer()')],
     state=[('mIsReceive/mReceiveData', 'request handed to the server', IC), ('mIsSend/mSendData', 'reply handed back', IC),
            ('mReject', 'server side is gone', IC)],
     observe=['Socket::send', 'the handler passed to answer()', 'result of answer()'],
     technique='TLA+ spec of the two-thread handshake checked by TLC; schedules of the real code explored and each log validated against it',
     note='TLC: all interleavings for up to 2-3 chunks with liveness. Code: bounded-preemption DFS over synchronisation operations, random schedules for longer histories; assumes sequential consistency between synchronisation operations.')
prop('C02', 'Ending a connection never hangs and never touches released state',
     'Whichever side ends a connection first, and in every interleaving, closing completes as soon as the server side has dropped its end or seen the close, no thread waits forever, no released state is used and nothing is leaked. After the peer has gone an answer attempt returns false without calling the handler; ownership of a connection moves with move construction and assignment, and a connection that is replaced or destroyed rejects its peer.',
     ['schedules', 'histories'], 'all interleavings of closing, dropping, moving, replacing and answering',
     TQ + 'The defects found here (use after free on close) need one specific preemption.',
     [IC],
     [('hand-over of the shared status between the two sides', IC + ': closed callback, receive callback, ~IntrusiveConnection()')],
     state=[('mClose', 'the peer has gone', IC), ('mReject', 'the server has gone', IC)],
     observe=['result of answer()', 'return of the closed callback', 'memory and lock use (AddressSanitizer, scheduler)'],
     technique='TLA+ spec (safety and liveness) checked by TLC; controlled schedules of the real code with deadlock and use-after-free detection, logs validated',
     note='As C01; spurious wake-ups are injected. Freed memory is detected by AddressSanitizer and by checks at each pthread call.')
prop('C03', 'Requests are cut from received data exactly at the delimiters',
     'A received chunk is cut at every occurrence of the delimiter byte and each piece reaches the handler unchanged, whatever bytes it holds; an empty piece between delimiters is a request, an empty piece after the last delimiter is not, and an undelimited rest is a request of its own. Every message sent back is the reply followed by one delimiter, for every delimiter byte including zero.',
     ['inputs'], 'all chunks (any bytes, any length), all delimiters',
     TQ + 'Framing is a function of all byte strings.',
     [IC], [('std::getline loop over the chunk', IC + ': receive callback in connect()')],
     observe=['the handler passed to answer()', 'Socket::send'],
     technique='TLA+ definition of the framing; all chunks up to a bound and random chunks run through the real connection, logs validated by TLC',
     note='Exhaustive for chunks of up to 5 (6) bytes over delimiter/other byte for four delimiters, random above.')
prop('C04', 'The network server hands over exactly the bytes sent, to everyone concerned',
     'Every byte a client sends reaches every registered receive listener of its own connection, in order, in chunks no longer than the buffer, unchanged and once; nothing reaches a listener of another connection. A message sent by the server side leaves complete and in order however the system splits it. Each connection is reported accepted, is closed exactly once, and its closed listeners learn whether it ended orderly; a listener may add others whenever it runs; a broken peer ends its own connection only.',
     ['inputs', 'faults', 'schedules'],
     'all byte strings, message sizes, partial sends and receives, failures of any socket call, interleavings of connections',
     TQ + 'No test runs the server; partial sends, zero bytes and failing peers never occur in tests.',
     [CS, CSH, 'include/bcl/Socket.h'],
     [('send and receive loops', CS + ': sendData(), receiveData(), SocketImp::run(), SocketImp::send()'),
      ('close and notification', CS + ': SocketImp::closeSocket()')],
     state=[('mState', 'open, failing or closed', CS)],
     observe=['socket calls', 'receive and closed listeners', 'status handler'],
     technique='TLA+ spec of the server (TLC, safety and liveness); the real server run on a scripted network under controlled schedules, every log validated by TLC',
     note='The network is a stand-in for the C socket calls; real kernels and Windows code are not exercised.')
prop('C05', 'No more clients are served at once than allowed, and none is starved or mixed up',
     'With a limit of N connections at most N clients are being served at any moment, with no limit any number; a client that leaves frees its place and the server keeps accepting. Connections are independent: each has its own thread, descriptor and addresses even when the system reuses a descriptor, and no order of arrivals, failures and departures ends, blocks or confuses the server.',
     ['schedules', 'histories'], 'all orders of arrivals, departures and failures and all thread interleavings',
     TQ + 'Requires concurrent connections and descriptor reuse at a particular moment.',
     [CS],
     [('bookkeeping of connection threads', CS + ': ActiveSockets, sanitizeConnections(), accept loop in startServer()')],
     observe=['socket calls and their threads', 'createServer', 'status handler'],
     technique='TLA+ spec of accepting and serving (TLC); bounded-preemption and random schedules of the real server, every log validated by TLC',
     note='Up to 6 clients, limits 0-3; preemption bound 1-2 (quick) and 2-3 (thorough); sequentially consistent interleavings at pthread and socket calls.')
prop('C06', 'Setting up the server binds what was asked and reports every failure once',
     'The server binds the requested IPv4 address (any address when none is given) and port with address reuse enabled, and reports Listen with the actual address once it listens. If any step of setting up fails the matching error is reported, what was opened is closed with its outcome reported, and startServer returns without accepting anyone.',
     ['inputs', 'faults'], 'all addresses and ports, a failure of every step, with a successful or failing close',
     TQ + 'System call failures do not occur in tests.',
     [CS, CSH],
     [('sequence of socket calls', CS + ': startServer(), getAddressInfo(), createSocket(), bindSocket()')],
     observe=['socket calls', 'status handler'],
     technique='TLA+ spec of the set-up with every step failing (TLC); the real server run through all of these cases, logs validated by TLC',
     note='Stand-in socket calls. POSIX branch only.')
prop('C07', 'The pointer queue is a FIFO with value semantics',
     'Elements leave the queue in the order they were inserted, each exactly once, whatever mixture of insertions, removals, copies, moves, assignments (to itself too) and swaps led there; size, emptiness, front and back always agree with that order. A copy is independent of its source, a moved-from queue is empty, and removing from an empty queue yields a null pointer. A queue that never held more than one element allocates no memory, an operation that runs out of memory leaves its queues unchanged, and an argument may refer to an element of the queue itself.',
     ['histories'], 'all operation histories over several queues',
     TQ + 'They never assign, move, swap or emplace.',
     ['include/bcl/transparent_queue.h'],
     [('in-place value or heap container', 'include/bcl/transparent_queue.h: push, pop, emplace, swap, assignments')],
     state=[('mIsSingle/mIsEmpty', 'representation in use', 'include/bcl/transparent_queue.h')],
     observe=['public interface'],
     technique='TLA+ refinement (in-place/container representation refines FIFO) checked by TLC; one real execution per TLC transition, random histories validated by a trace spec',
     note='Transition coverage of the representation spec for 2-3 queues up to length 3-4; random histories over 3 queues.')
prop('C08', 'Queue comparison is one lexicographic total order on contents',
     'Comparing two queues depends only on the sequences of pointers they hold, never on how they came to hold them: they are equal exactly when the sequences are equal, and otherwise ordered by the first difference, a proper prefix being smaller. The six comparison operators agree with each other and leave both queues unchanged.',
     ['inputs', 'histories'], 'all pairs of contents and all representations of them',
     'The stable tests compare five fixed pairs; the representation depends on the history of both operands.',
     ['include/bcl/transparent_queue.h'],
     [('operator== and operator< by representation', 'include/bcl/transparent_queue.h')],
     observe=['comparison operators'],
     technique='TLA+ lexicographic order checked total by TLC; every reachable pair of representations compared on the real class, random histories validated',
     note='All pairs up to length 3 (4) over 3 element names in all representations reachable; random above.')

CH = 'include/bcl/Chain.h'
prop('C09', 'The links of intrusive chains stay symmetric and lose no node unasked',
     'After every history of splicing and merging, a node b follows a exactly if a precedes b, no node follows itself, and exactly the links an operation names have changed: splicing takes one node out and puts it next to another between its neighbours, merging joins two chains and cuts off only what was there before, a null node cuts. Chains with different tags never affect each other and node data is untouched. Iterators move one node along these links in either direction, compare by node, and their postfix forms return the old position.',
     ['histories'], 'all histories of operations over several nodes and tags',
     TQ + 'No test builds a chain; iterators did not even compile when used.',
     [CH],
     [('relinking', CH + ': spliceNext, splicePrev, mergeNext, mergePrev'), ('iteration', CH + ': ChainIteratorC, ChainIterator')],
     state=[('mPrev, mNext', 'links of a node for a tag', CH)],
     observe=['ChainTraits::getNext/getPrev', 'iterator positions'],
     technique='TLA+ spec of chains; every transition for up to 4 (5) nodes run on the real class and random histories recorded, validated by TLC',
     note='Nodes of destroyed objects are outside (the chain does not unlink on destruction).')
TR = 'include/bcl/trait.h'
prop('C10', 'A trait descriptor never holds traits that exclude one another',
     'For every layout of groups, alternatives and unions, and after every history of operations, a descriptor holds no two conflicting traits; setting traits removes exactly those conflicting with them, unsetting removes exactly the named traits or groups, and everything else stays. Queries and enumerations report exactly the traits that are set, keys are distinct bits grouped from the most significant end, and copying traits between descriptors of different layouts keeps these rules. Enumerations apply the given function object itself, not copies of it.',
     ['inputs', 'histories'], 'all layouts, all sequences of set, unset, copy and transfer operations',
     TQ + 'No test uses traits; layouts are types and the conflict rule is computed by templates.',
     [TR, 'include/bcl/utility.h'],
     [('compile-time keys, masks and conflicts', TR + ': getKey, getMask, TraitConflict, is_conflict, find_union'),
      ('bit operations', TR + ': TraitDescriptor::set, unset, unset_group, is, is_any, for_each*'),
      ('transfer between descriptors', TR + ': trait::set, trait::update')],
     state=[('mTD', 'bit per trait', TR)],
     observe=['is, is_any, for_each*, print*, operator=='],
     technique='TLA+ spec of layouts and descriptors; every transition of the specification run on the real class and random histories recorded, all validated by TLC',
     note='Six fixed and two (ten) random layouts per seed of up to six traits; layouts with more than 64 traits are outside.')
prop('C11', 'A trait set owns each description exactly as long as its trait is set',
     'A description attached to a trait stays attached, unchanged, until its trait is unset, displaced by a conflicting trait, replaced, released or its set ends; then it is destroyed exactly once, or handed to the caller when released. Setting a trait again keeps its description, only traits that are set have one, a missing description reads as null, and moving a set moves traits and descriptions together, destroying what the target held.',
     ['histories'], 'all histories of setting, describing, releasing, unsetting, assigning and moving over several sets',
     TQ + 'Leaks and double deletion depend on the history; no test uses trait sets.',
     [TR, 'include/bcl/tagged.h'],
     [('descriptions destroyed when displaced', TR + ': TraitSet::ConflictsResolver, set, unset, operator=, release')],
     state=[('mValues', 'descriptions by trait key', TR), ('mTD', 'traits that are set', TR)],
     observe=['get, release, live description objects, AddressSanitizer'],
     technique='TLA+ spec of sets with owned descriptions; every transition run on the real class and random histories recorded, validated by TLC',
     note='One set exhaustively for two layouts, three sets in random histories; std::map as the description map.')
JS = 'include/bcl/Json.h'
prop('C12', 'A value written as JSON reads back as the same value',
     'For every value of every supported type - integers, decimals of up to six places, logical values, characters, strings of any bytes, vectors, sets, maps, multimaps, optionals, objects with any number of members that the macros allow, pointers to one value - the text that json::Parser::unparse() writes denotes that value, and json::Parser::parse() reads that text back into an equal value without reporting an error.',
     ['inputs'], 'all values of the supported types, in particular all strings and keys',
     TQ + 'No test uses Json.h; escaping and nesting fail only for particular byte sequences.',
     [JS, 'include/bcl/JsonObjectMacros.h', 'include/bcl/cell.h', 'include/bcl/utility.h'],
     [('escape() and unescape() of strings', JS + ': Traits<std::string>'), ('Traits<T>::unparse() and parse() of each type', JS),
      ('visit of the cells of an object', JS + ': ParseCellFunctor, UnparseCellFunctor')],
     observe=['text returned by unparse()', 'value and result of parse()', 'hasErrors()'],
     technique='TLA+ definition of the syntax and of the typed meaning of texts; texts written by the real code and values read back validated by TLC',
     note='All strings of up to 4 (5) characters over quote, backslash, slash and a letter; all bytes; limits of the integer types; random nested values. Decimals: six places, as unparse() documents by its format.')
prop('C13', 'Reading JSON accepts exactly the texts of the type and reports the rest',
     'json::Parser::parse() of a type returns true exactly for the texts that denote a value of the type and then yields that value: white space between tokens is ignored, arrays may be written with brackets or with each index once, sets and maps must not repeat a key, members that an object does not have are ignored. For any other text it returns false and hasErrors() is true. No text makes it crash, hang, leak, throw or touch memory outside its data.',
     ['inputs'], 'all texts, all supported types',
     TQ + 'The malformed texts that matter are not the ones a test writer thinks of.',
     [JS],
     [('tokens', JS + ': Lexer::goToNext()'), ('traversal of compound values', JS + ': Parser::traverse(), numberOfKeys(), Lexer::skipInternal()'),
      ('conversion of scalars', JS + ': Traits<T>::parse()'), ('trailing text', JS + ': ParseFunctor::parse()')],
     state=[('mStart, mEnd, mNext, mToken', 'current token', JS + ': Lexer')],
     observe=['value and result of parse()', 'hasErrors()', 'memory use (AddressSanitizer)'],
     technique='TLA+ definition of tokens and typed values (read / wrong / too short); TLC generates all shortest wrong and all right texts up to a bound, real results validated by TLC',
     note='Generated per type up to 7-10 (9-12) tokens or 4-5 characters, plus random texts and mutations of them. Objects whose container member is repeated are left open.')
prop('C14', 'A named JSON object is recognised wherever its name stands',
     'json::Parser<Objects...>::parse() returns an object of the type whose name() is stored under the name key, wherever in the text that member stands and whatever the other members hold; the object equals what the text denotes. Without the key, for an unknown name or a malformed text it returns null and reports an error. unparse() of an object through its base class and unparseAsObject() write the name, and such texts read back as an object of the same type and value.',
     ['inputs'], 'all objects, all positions of the name, all name keys, all texts',
     TQ + 'No test uses named objects.',
     [JS, 'include/bcl/JsonObjectMacros.h'],
     [('search for the name', JS + ': Parser::parseName(), Lexer::skipInternal()'), ('choice of the type', JS + ': ParseFunctor, UnparseFunctor')],
     observe=['result of parse(), Object::is(), as()', 'hasErrors()', 'text returned by unparse()'],
     technique='TLA+ definition of the search for the name on top of the typed meaning of texts; real results validated by TLC',
     note='Random documents of three object types with other members of any shape, all their prefixes and single-byte changes for three documents.')
RD = 'include/bcl/RedirectIO.h'
prop('C15', 'Redirected output reaches the file completely and diff() returns what is new',
     'Everything written to a redirected descriptor is in the target file, in order and unchanged (any bytes and sizes; after what the file held before in append mode, in place of it in rewrite mode). isDiff() is true exactly when something has been written (read) since the last position, and diff() returns exactly the bytes written since that position, any number of times and without disturbing what is written or read later; setDiffPos() moves the position to the present end, resetDiffPos() back to where the redirection started. For redirected input diff() is what has not been read yet and leaves it readable.',
     ['histories', 'inputs'],
     'all histories of opening in every mode, writing, reading, position changes, diffs; all byte values and sizes around the buffer sizes',
     TQ + 'No test redirects anything; stdio buffering and positions interact over whole histories.',
     [RD], [('stdio stream that shares its offset with the redirected descriptor', RD + ': isDiff(), diff(), setDiffPos()')],
     state=[('mDiffPos', 'position of the last comparison', RD), ('mDiffStart', 'position at the redirection', RD)],
     observe=['diff(), isDiff()', 'content of the target file', 'bytes read from the descriptor'],
     technique='TLA+ spec of files, shared offsets and positions; every transition of a bounded universe and random histories executed on real files, each result and file content validated by TLC',
     note='Exhaustive for one file, one descriptor, one object and contents of up to 3 (4) bytes; random histories with two files, two descriptors, three objects and writes of up to 9000 bytes.')
prop('C16', 'A redirection has one owner, reports its failures and leaks no descriptor',
     'A redirection owns exactly one open file from its construction until it is destroyed, replaced by assignment or moved away, and then the file is closed once; the redirected descriptor stays redirected. A redirection that can not be made (missing path, descriptor that can not be redirected, target without positions) is closed again, keeps its file name and exactly the errors that occurred, and answers isDiff() with false and one more error; a default constructed object is not redirected and never reports a difference. A call of the system that fails in an operation is reported as exactly that one error and with the result false or empty; it loses no position, no data and no descriptor.',
     ['histories', 'faults'], 'all histories of constructing, failing, moving, assigning, destroying with several objects, files and descriptors',
     TQ + 'Ownership and error paths are properties of operation histories.',
     [RD], [('FILE* and error container moved between objects', RD + ': move operations, destructor'), ('errors of system calls', RD + ': constructor, storeErrNo()')],
     state=[('mFile', 'open target file', RD), ('mErrors', 'errors, absent when nothing is redirected', RD)],
     observe=['number of open descriptors of the process', 'mayRedirected(), hasErrors(), errors(), fileName()'],
     technique='TLA+ spec of objects, descriptors and open files; every transition of a bounded universe and random histories executed on the real class, also with system calls made to fail, open descriptors counted and each state validated by TLC',
     note='Every transition for two objects, two files and one descriptor (writing), a sample of those with appending and reading too, random histories above; the n-th library call of sampled operations fails, for each n. Thorough: all transitions.')
EQ = 'include/bcl/Equation.h'
prop('C17', 'A solved system of equations has exactly the solutions that it describes',
     'solve() of an instantiated system of equations a*x + b*y = c (any integer coefficients, zero included, any variables, dependent equations included) yields for each variable at most one equation x + k*t = d with a parameter t, such that every integer choice of the parameters solves all solved equations and every integer solution of them is obtained. It returns the number of equations solved: all of a solvable system, otherwise those before the first one that contradicts the previous ones. euclidGCD(a, b) is the non-negative greatest common divisor with coefficients u, v such that a*u + b*v equals it.',
     ['inputs'], 'all systems: number of equations and variables, coefficients, shared variables, order of equations',
     TQ + 'No test uses equations; correctness of a substitution depends on all orders and coincidences of variables.',
     [EQ], [('elimination with parameters and substitution', EQ + ': BinomialSystem::solve()'), ('extended Euclid algorithm', EQ + ': euclidGCD()')],
     state=[('mRows', 'equations, rewritten while solving', EQ), ('mSolution', 'solution found so far', EQ)],
     observe=['solve()', 'getSolution()', 'euclidGCD()'],
     technique='TLA+ definition of the solution set (sound and complete); systems enumerated by TLC and random ones solved by the real code, solutions validated by TLC',
     note='Soundness is decided exactly, completeness within a box around one solution. Quick: samples of all one- and two-equation systems with small coefficients and random systems of up to 6 equations over 5 variables; thorough: all of the former.')
prop('C18', 'Instantiation keeps the right equations, other forms keep the solutions',
     'instantiate() keeps exactly the equations all of whose guards hold and none of whose inverse guards hold, adds to each free term the computed monomials, and instantiated_begin()/end() range over exactly these; size() counts all. solutioWithPositiveConstant() shifts all variables by one common amount such that no free term is negative, and nothing when there is none; reverseSolution() rewrites x + a*t = b as y + p*x = p*b with y a common multiple of the parameter. The guards and monomials of an equation are those which have been added, in order. Printing shows exactly the kept and the discarded equations with their guards, monomials and values, and the solution.',
     ['histories', 'inputs'], 'all systems with guards and computed monomials, all values of them, all solutions',
     TQ + 'The guarantee ranges over all combinations of guards and solutions.',
     [EQ], [('partition of rows by guards', EQ + ': instantiate()'), ('substitutions in the solution', EQ + ': reverseSolution(), solutioWithPositiveConstant()')],
     state=[('mIdx, mInstantiatedSize', 'instantiated equations come first', EQ)],
     observe=['instantiated_begin()/end(), instantiated_size(), size()', 'getSolution()'],
     technique='TLA+ spec of the life of a system (build, instantiate, solve, shift, reverse); random histories of the real class validated by TLC',
     note='Random histories of up to 8 equations over 5 variables, two instantiations of the types of columns and values.')
DG = 'include/bcl/Diagnostic.h'
prop('C19', 'Diagnostics are kept in full, in order, and survive a round trip through JSON',
     'Each inserted diagnostic appears in its container exactly once, in the order of insertion, as the text "<kind> C<code>(<position>): <description>" with all arguments substituted, whatever the length and the values; an insertion that fails adds nothing, is counted and leaks nothing. Forward and backward iteration, size() and empty() agree; clear() removes everything including the count of failures, swap() exchanges kinds, diagnostics and counts. A container written as JSON is the array of its texts, and is read back unchanged into a container of its kind and rejected by a container of another kind.',
     ['histories', 'inputs'], 'all histories of several containers, all kinds, codes, positions, formats and arguments',
     TQ + 'No test uses diagnostics.',
     [DG, 'include/bcl/Json.h'], [('formatting into an exactly sized buffer', DG + ': insert()'), ('prefix recognised while reading', 'include/bcl/Json.h: Traits<bcl::Diagnostic>')],
     state=[('mDiagnostics', 'texts', DG), ('mInternalError', 'failed insertions', DG)],
     observe=['begin()/end(), rbegin()/rend(), size(), internal_size(), getKind()', 'json::Parser<>::unparse(), parse()'],
     technique='TLA+ spec of containers and of the format, with the JSON text spec; every transition of a bounded universe and random histories of the real class validated by TLC',
     note='Exhaustive for two containers of up to 2 (3) diagnostics, random histories with random texts, numbers up to 2^64-1 and eight signatures of arguments.')
CE, TRH = 'include/bcl/cell.h', 'include/bcl/trait.h'
prop('C20', 'A static map holds one value per key; functors transfer exactly the shared keys',
     'A static map (bcl::StaticMap, StaticTypeMap, StaticTraitMap) is a function from its keys to values: writing the value of a key changes that value only, however it is accessed (value<>(), operator[], for_each, constant or not). A StaticMap is constructed from one value per key in the order of its keys. for_each() and for_each_key() apply the given function object itself to every cell exactly once (in key order for StaticMap), empty maps included. The functors Copy/MoveTo and Copy/MoveFrom transfer exactly the keys both maps have, a moved value really is moved and a copied one is left alone; Clear deletes exactly the objects the map points to and Init forgets them. A TraitMapConstructor inserts into exactly the cells of the traits that are set, and a trait map written as JSON is read back equal.',
     ['histories', 'inputs'], 'all lists of keys, all histories of operations on several maps that share keys',
     TQ + 'No test uses static maps; two of the four transfer functors did not compile and one copied instead of moving.',
     [CE, TRH], [('inheritance chain of cells', CE + ': class StaticMap'), ('transfer functors', CE + ': CopyToCellFunctor ... MoveFromCellFunctor'),
                 ('trait keys', TRH + ': class StaticTraitMap')],
     state=[('mValue', 'value of a cell', CE)],
     observe=['value<>(), operator[]', 'arguments of functions given to for_each() and for_each_key()', 'objects alive'],
     technique='TLA+ spec of maps that share keys, checked by TLC; every transition of small worlds and random histories on generated map types of the real classes, each log validated by TLC',
     note='Map types are generated: seven fixed worlds exhaustively, random worlds of up to four maps over six keys (trait maps over eight traits). The order of keys of StaticTypeMap and StaticTraitMap is left open.')
MA, MAF, TG, CP, TU, UT = ('include/bcl/' + x for x in ('marray.h', 'marray_f.h', 'tagged.h', 'convertible_pair.h', 'tuple_utils.h', 'utility.h'))
NS, VP, ID = 'lib/Socket/NodeJSSocket/NodeJSSocket.cpp', 'include/bcl/ValuePtrWrapper.h', 'include/bcl/IteratorDataAdaptor.h'
prop('C21', 'Type lists are sequences: search, merge, intersect, filter follow list algebra',
     'The lists of types and of keys behave as sequences: is_contained/index_of/size_of and TypeList know exactly the types listed (the index is the first one), for_each applies the given function object to them in order, duplicates included, Merge concatenates (empty lists included), Intersect keeps the order of the first list, RemoveType removes every occurrence, RemoveDuplicate keeps the last of equal types. The same for the keys of a static map: merging maps without common keys concatenates them, Reverse reverses, CellFrom is the rest after a key, IsCellExist finds exactly the keys.',
     ['inputs'], 'all lists of types (duplicates, empty lists), all pairs of lists',
     TQ + 'Every list is an instantiation of its own; merging two empty maps did not compile.',
     [CE, UT], [('recursive templates over a list', CE + ': namespace CELL, TypeList'), ('is_contained, index_of, size_of', UT)],
     observe=['values of the constants and order of types visited'],
     technique='TLA+ spec of lists; TLC enumerates all pairs of small lists and checks laws, the real templates are instantiated for each of them and for random longer lists, TLC validates every result',
     note='All pairs of lists over 3 types up to length 3x2 (thorough 4x3), random lists of up to 8 of 6 types.')
prop('C22', 'An element of a multidimensional array is the one its indexes name, always',
     'In bcl::marray and bcl::marray_f of any rank and sizes every tuple of indexes within the sizes names an element of its own: a value assigned through operator[] (element by element or through a subarray) or operator() is read back through every form of access and no other element changes. Elements are created once and destroyed once; moving an array (construction or assignment) transfers all its elements and leaves nothing behind, and replaced arrays are released.',
     ['inputs', 'histories'], 'all ranks, sizes, index tuples and histories of assignments, moves and destruction',
     TQ + 'No test creates an array; move assignment leaked or copied a pointer twice.',
     [MA, MAF], [('row-major offset of indexes', MA + ': operator[]; ' + MAF + ': operator()'), ('ownership', MA + ': move constructor, operator=, destructor')],
     state=[('mData/mDims', 'elements and sizes', MA)], observe=['operator[], operator()', 'number of live elements', 'AddressSanitizer'],
     technique='TLA+ spec of arrays as functions from index tuples, checked by TLC; every transition of small worlds and random histories executed on the real classes, each log validated by TLC',
     note='Ranks 2 and 3 exhaustively with sizes up to 2 (zero included), ranks 2..5 with random histories. Rank 1 is not supported by marray.')
prop('C23', 'A tag names the same element of a tagged tuple however it is accessed',
     'In tagged pairs and tuples every tag and alias names exactly one element: get<Tag>(), is_contained, tagged_tuple_idx, tagged_tuple_alias and tagged_tuple_element agree on it, assignment through a tag changes that element only, and copying, moving, swapping and assignment transfer each element to its own position. for_each over a tagged tuple or an ordinary tuple passes every element once, in order, constant or not; the elements forwarded as arguments keep their order. A convertible pair is both of its elements.',
     ['inputs', 'histories'], 'all unambiguous lists of elements with tags and aliases, all histories of accesses, copies and moves',
     TQ + 'Each list of tags is an instantiation of its own; the index of a tag that is found in a later element did not compile.',
     [TG, CP, TU], [('search of a tag in elements', TG + ': tagged_tuple_idx, tagged_tuple_element'), ('access through the main tag', TG + ': get'),
                    ('for_each, forward_as_args', TU)],
     observe=['get<Tag>()', 'arguments of visitors', 'constants and types of the search'],
     technique='TLA+ spec of tagged objects checked by TLC; transitions of fixed worlds and random histories over generated worlds executed on the real templates, each log validated by TLC',
     note='Ten fixed worlds exhaustively and random worlds of up to ten elements and tags. A tag in two elements is ambiguous and out of scope.')
prop('C24', 'The Node.js addon passes every message, close and error to exactly its listeners',
     'A message or close of a connection created in JavaScript reaches every listener its server registered in C++, once, in the order of registration and with exactly the bytes (or the error flag) given, and no listener of another connection; what the server sends reaches the send function of that connection unchanged. Calls with wrong parameters throw a TypeError and change nothing. A closed connection releases its listeners and functions, the order of closing and collection does not matter, and nothing is used after it is released.',
     ['histories', 'inputs'], 'all histories of connecting, starting, sending, closing and garbage collection on several connections, all messages',
     TQ + 'No test loads the addon; it aborted on the first message on current versions of Node.js.',
     [NS, 'include/bcl/Socket.h'], [('mapping of JavaScript calls to listeners', NS), ('persistent functions of a connection', NS)],
     state=[('mReceiveCallbacks/mClosedCallbacks', 'listeners of a connection', NS)],
     observe=['calls of listeners in the server', 'calls of send and on in JavaScript', 'WeakRefs after collection', 'AddressSanitizer'],
     technique='TLA+ spec of connections and listeners checked by TLC; every transition and random histories executed by Node.js on the real addon under AddressSanitizer, each log validated by TLC',
     note='Three connections, up to six listeners of each kind and three more which a listener registers. Data after close, starting a connection twice are outside of the contract.')
prop('C25', 'A known pointer always points to its value; data stays attached to its iterator',
     'The pointer given to a ValuePtrWrapper points to the wrapped value for as long as the wrapper exists, wherever moves, swaps, insertions, erasures, sorting and reallocation take it; a value that has been replaced or erased never writes its pointer again, and a value is changed by explicit writes only. An IteratorDataAdaptor walks, compares and dereferences as the pair of its iterator and data: data follows the iterator through copies and increments, prefix and postfix increments return the new and the old position, and two adaptors are equal exactly if both parts are.',
     ['histories', 'inputs'], 'all histories of operations on vectors of wrappers and on iterators',
     TQ + 'No test includes these headers.',
     [VP, ID], [('update of the known pointer', VP + ': move constructor and assignment'), ('increment, comparison and dereference of the pair', ID)],
     state=[('mPtr', 'pointer to keep up to date', VP), ('mItr/mData', 'iterator and data', ID)],
     observe=['known pointers', 'values read in every way', 'elements passed by a walk'],
     technique='TLA+ specs of pools and iterators checked by TLC; every transition of small worlds and random histories executed on the real templates, each log validated by TLC',
     note='Pools of up to 3 (thorough 4) wrappers exhaustively and of up to 20 at random; iterators over lists, forward lists and vectors.')
prop('C26', 'Numbers, bits, texts and pairs survive the conversions of utility.h exactly',
     'The functions of utility.h compute what they say for every value of every integral type: numberOfDigits and numberOfLessZeros of any value in any base, unitMask and bitPrint of any width, binary literals of up to 64 digits; quote() adds quotes exactly when they are missing; shrinkPair succeeds exactly if both values fit into the halves and restoreShrinkedPair gives them back; swapMemory exchanges the bytes (an object with itself included); staticForeach, inserters and make_unique pass every argument, in order, without leaking.',
     ['inputs'], 'all values of all integral types, all texts, all pairs of values and sizes',
     TQ + 'No test calls these functions; shrinkPair read beyond its operands and long literals overflowed.',
     [UT], [('digits, masks, literals', UT + ': numberOfDigits, unitMask, ToBinary'), ('halves of a value', UT + ': shrinkPair, restoreShrinkedPair')],
     observe=['results of the functions', 'sanitizers'],
     technique='TLA+ spec of the functions over sequences of digits, bits, bytes and characters; TLC enumerates small inputs and checks laws, random wide inputs are added, and TLC validates every result of the real code',
     note='Small inputs exhaustively for nine integral types, 2500 (thorough 20000) random calls, every single bit and mask width. Endianness of the host.')
LC, LT, LE, LX = ('include/bcl/legacy/' + x for x in ('cell_legacy.h', 'tree.h', 'exception.h', 'text.h'))
prop('C27', 'A legacy collection of cells or tree maps each identifier to its own value',
     'A collection of cells (Base::Cell) and a tree of nodes (Base::Node) hold one value for each of their identifiers: Value<Id>(), operator[] and every walk (Foreach, ForeachDefinition, Visitor; for trees Visit; constant or not) see the same value, each identifier once, in a collection in its order; a tree made of another one of the same form has its values; an assignment changes that value only. Init and Clear reset exactly the values they own, copying between collections transfers exactly the common identifiers. The operations on types agree: IsCellExist finds exactly the identifiers, MergeCell concatenates, ReverseCell reverses, the rest after an identifier is what follows it; CELL_COLL_1 to CELL_COLL_100 define a collection of exactly the identifiers given, in their order.',
     ['inputs', 'histories'], 'all lists and binary trees of identifiers, all histories of assignments, copies and resets',
     TQ + 'No test includes the legacy part; the functor copying from a collection did not write its destination.',
     [LC, LT], [('recursive collection', LC + ': Cell'), ('functors and operations on types', LC), ('tree', LT + ': Node')],
     observe=['values read in every way', 'order of identifiers passed by walks', 'types'],
     technique='TLA+ spec of maps with ordered keys and of lists checked by TLC; every transition of fixed worlds and random histories over generated collections and trees executed on the real templates, each log validated by TLC',
     note='Five fixed worlds exhaustively, random worlds of up to four collections with up to six of six identifiers.')
prop('C28', 'A legacy error has one code, type and text, whoever of its users reports it',
     'Errors of an application are numbered 1..n, an error before those it is divided into; CodeOfError, RelativeCode and Code<App>() agree on the number; seen from any application that uses another one (directly or not) different errors have different codes. Type and description of a nested error are the most severe type and the joined descriptions on its path; brief, text and messages are composed of exactly these parts, an error of a cast keeps both types and has a message of its own. ToText of every integer is its decimal form, CopyString/CopyAnsi/CopyUnicode write a text that fits together with its end and nothing else, and report every other text by the error CopyString. The logic on types (Not, And, Or, If, IsIdentical) is Boolean logic.',
     ['inputs'], 'all trees of errors, all graphs of applications, all integers and texts with all sizes of buffers',
     TQ + 'No test includes the legacy part; the least integer had no text.',
     [LE, LX], [('numbering of errors', LE + ': CodeOfError, OffsetOfError'), ('texts', LX), ('logic of types', 'include/bcl/utility.h: namespace Utility')],
     observe=['codes, types, texts of thrown errors', 'texts and copied characters', 'sanitizers'],
     technique='TLA+ spec of forests of errors and of applications; TLC enumerates small ones and checks that the numbering is injective, the real templates are instantiated for them and for random larger ones, TLC validates every result',
     note='All forests of up to 3 (thorough 4) errors over 1 or 3 applications (a sample in the quick check), random ones of up to 9 errors and 4 applications.')
LV = 'include/bcl/legacy/value.h'
prop('C29', 'A legacy value is undefined or holds a value, and compares accordingly',
     'A weak value is undefined until it gets a value from a plain, strong or weak one, and again after undef (or an undefined weak value) is assigned; a strong value is always defined, and an undefined value assigned or copied to it is reported by the error Assign and changes nothing. Copies and assignments transfer definedness and value, and affect only their target; if copying the value fails, the target stays as it was. Two weak values are equal if both are undefined or both hold equal values; an undefined value is neither equal to a plain or strong one nor less nor greater than anything; all other comparisons, in both directions and between different types, are those of the held values; printing shows "undef" or the value. This holds for scalars, classes, texts and pointers. IsScalar, IsPointer, IsReference, IsIdentical, TypeTraits, Not, And, Or and If classify and choose types as Boolean logic says.',
     ['histories', 'inputs'], 'all histories of constructions and assignments of weak and strong values of any type, all comparisons between them, all terms of the type logic',
     TQ + 'No test includes the legacy part; the header did not compile, and comparisons of it had no result.',
     [LV], [('definedness and comparisons', LV + ': Value'), ('logic of types', 'include/bcl/utility.h: namespace Utility')],
     state=[('m_defined', 'whether there is a value', LV), ('m_value', 'the value', LV)],
     observe=['==, !=, <, <=, >, >=, <<', 'errors thrown', 'types and constants'],
     technique='TLA+ spec of weak and strong values with laws of comparison checked by TLC; every transition of small worlds over seven types (one whose copying may fail) and random histories executed on the real classes with all comparisons, each log validated by TLC; terms of the type logic instantiated and validated',
     note='Exhaustive transitions for 2 weak and 1 strong value over 2 values (thorough: 3, 2, 3); random histories and random terms above. Numbers of 4 types compared in all pairs, fractions and NaN included.')
prop('C30', 'A wrapper of an object owns or shares it as its kind says, and is defined or not',
     'A wrapper of an object (Utility::IObject) hides how the object is stored. A weak one is undefined until it is created by New or gets the object of a defined one, and again after Reset, Delete or after an undefined one is assigned to it; a strong one is always defined. Wrappers of static objects own them: a copy or an assignment transfers value and definedness to the target only, and every object is destroyed exactly once, with its wrapper. Wrappers of dynamic objects refer to them: New allocates exactly one, all copies refer to the same one and see every change of it, Delete destroys it exactly once and leaves the wrapper without it (a second Delete does nothing), Reset, copying and the end of a wrapper destroy nothing. The operators * and ->, constant or not, reach the same object; an assignment returns its target.',
     ['histories'], 'all histories of constructions, assignments, deletions and changes of weak and strong wrappers of objects of either kind',
     TQ + 'No test includes the wrappers; they did not compile when used.',
     ['include/bcl/utility.h'], [('wrappers of objects', 'include/bcl/utility.h: IObject'), ('storage', 'include/bcl/utility.h: Detail::IAccessorImp')],
     state=[('m_ptr', 'whether a static object is defined', 'include/bcl/utility.h: IObject<Object_, True>'), ('m_object', 'the object or a pointer to it', 'include/bcl/utility.h: IAccessorImp')],
     observe=['definedness, values and identities of objects', 'objects alive', 'AddressSanitizer'],
     technique='TLA+ spec of wrappers that own or share objects, checked by TLC (no dangling reference, independence, destruction on demand); every transition of small worlds and random histories executed on the real classes, each log validated by TLC',
     note='Exhaustive transitions for 2 weak and 2 strong static wrappers, 2 weak and 1 strong dynamic ones with 3 (thorough: 4) objects; random histories of up to 10 wrappers. Use of an undefined object, or of one destroyed through another wrapper, is outside of the contract.')
# PROPS-END


def main():
    from check import REG
    with open(os.path.join(V, 'properties.jsonl'), 'w') as f:
        for p in P:
            f.write(json.dumps({k: v for k, v in p.items() if not k.startswith('_')}) + '\n')
    checks = [dict(property=p['id'], quick_cmd='python3 tools/check.py %s quick' % p['id'],
                   thorough_cmd='python3 tools/check.py %s thorough' % p['id'],
                   technique=p['_t'], level=p['_l'], level_note=p['_n']) for p in P if p['id'] in REG]
    na = [dict(property=p['id'], reason=p['_n']) for p in P if p['id'] not in REG]
    m = dict(version=1, setup_cmd='python3 tools/setup.py', checks=checks, not_applicable=na,
             notes='TLA+/TLC specifications in specs/, C++ harnesses in harness/, runner in tools/check.py. '
                   'No hooks in /repo: the harnesses use the public interface, interpose pthread and socket calls, '
                   'and include the sources of /repo. Known findings: known_findings.txt.')
    with open(os.path.join(V, 'MANIFEST.json'), 'w') as f:
        json.dump(m, f, indent=1)
        f.write('\n')


if __name__ == '__main__':
    main()
