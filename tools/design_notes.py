REACH = {
'C01': dict(
  spec='`Connection.tla`: mailboxes, both threads of the hand-shake as separate actions at the granularity of lock operations visible to a user, rejection. `ConnectionMC.tla`: peer sends any chunks, server answers any number of times and drops its end at any point. Invariants: replies sent are the prefix of what the requests ask for; liveness under weak fairness: every request is answered. The scheduler also lets time pass (a slow handler, an idle server or client; a wait with a timeout may then end), and two connections are used at a time.',
  cost='25 s',
  why='a reply that belongs to another request needs one specific preemption between two mutexes.'),
'C02': dict(
  spec='`Connection.tla` with closing by both sides, move construction/assignment, replacement and destruction. Liveness: closing terminates, no thread waits forever. Oracle for released state: AddressSanitizer, and the scheduler, which knows which mutexes and condition variables exist. Time passes as in C01.',
  cost='40 s',
  why='use after release is visible in a few schedules only; the free schedule of a test hits none of them.'),
'C03': dict(
  spec='operator `Split(chunk, delimiter)` of `Connection.tla` and the form of replies; every chunk over {delimiter, other} up to the bound for the delimiters 0, newline, a letter and 0xFF.',
  cost='12 s', why='framing is a function of all byte strings; bytes that C++ streams treat specially are exactly the ones tests omit.'),
'C04': dict(
  spec='`CSocket.tla`: descriptors, per connection state, what has been received/sent so far, listeners (which may register others while they run, and try to send when the connection is closed) and their progress, the outcome of each socket call chosen by the environment (complete, partial, zero, error). `CSocketMC.tla` checks safety (nothing lost, nothing foreign, closed once) and liveness.',
  cost='18 s', why='partial sends, failing calls and listeners that send back while closing are environment choices no test makes.'),
'C05': dict(
  spec='`CSocket.tla`: accept loop, limit, sanitizing of finished threads, reuse of descriptor numbers by the kernel, threads the system refuses to create (`NoThread`, `CloseUnserved`); invariant: number served <= limit; liveness: a waiting client is accepted eventually when places become free.',
  cost='29 s', why='needs a departing and an arriving client at one moment and the same descriptor number.'),
'C06': dict(
  spec='`CSocket.tla`, set-up part: each step (startup, address, socket, option, bind, listen, getsockname, close) may fail; the sequence of status messages is determined.',
  cost='12 s', why='faults of system calls.'),
'C07': dict(
  spec='`Queue.tla` (FIFO contents) and `QueueImpl.tla` (in-place value / heap container flags) with the refinement QueueImpl => Queue checked by TLC; allocation counted; the n-th allocation of an operation may fail (`MayThrow`, the operation then changes nothing), arguments may refer to elements of the same queue.',
  cost='32 s', why='behaviour depends on the representation, i.e. on the history of both operands.'),
'C08': dict(
  spec='`Queue.tla`: lexicographic order, checked by TLC to be total, antisymmetric, transitive, consistent for all six operators.',
  cost='34 s', why='equal contents in different representations (drained containers, moved-from objects).'),
'C09': dict(
  spec='`Chain.tla`: function of links per tag; splice/merge as minimal relinking, iterators as positions.',
  cost='11 s', why='aliasing (neighbours, same node, null) in all combinations; second and third operations on the result of earlier ones.'),
'C10': dict(
  spec='`Traits.tla`: a layout is a list of traits, alternatives and unions; conflict relation derived from it; descriptor = set of traits. Layouts are generated as C++ types, up to 64 traits (every bit of a key in turn, both orders). Function objects carry state: the object given is the one applied.',
  cost='41 s', why='each layout is an instantiation of its own; the conflict rule is a template program.'),
'C11': dict(
  spec='`Traits.tla` with a map of owned descriptions, objects alive counted by the harness.',
  cost='32 s', why='ownership is a property of histories: leaks and double deletion appear after displacement, moves and releases.'),
'C12': dict(
  spec='`JsonText.tla`: tokens, escaping, typed meaning `Read(type, text)`; round trip: the text denotes the value and Read(text) = value; null pointers and numbers too large for the type included.',
  cost='12 s', why='all strings of bytes, all nestings.'),
'C13': dict(
  spec='`JsonText.tla`, `JsonGen.tla`: TLC extends prefixes as long as they can still become a text of the type and prints every accepted text and every shortest rejected one; each text is parsed twice with the same parser.',
  cost='27 s', why='the language of texts per type is infinite; shortest wrong texts are enumerated rather than thought up.'),
'C14': dict(
  spec='`JsonText.tla`: search of the name at the top level, choice of type, then the typed meaning.',
  cost='14 s', why='position of the member and content of the others are arbitrary.'),
'C15': dict(
  spec='`Redirect.tla`: files as byte sequences, descriptors, offsets (shared by duplicates), positions of objects.',
  cost='32 s', why='the answer depends on the shared offset, i.e. on everything written, read and asked before.'),
'C16': dict(
  spec='`Redirect.tla`: ownership of open files and the error list; open descriptors of the process are compared after every operation. What a failing library call may leave behind (`Outcomes`) is a set of states, and a trace is checked with the set of all states that agree with what was recorded.',
  bind='the C library calls of the class are wrapped at link time; the n-th call inside one operation fails with EIO (closing calls still close); in some histories messages about errors cannot be formatted either.',
  cost='41 s', why='leaks and wrong ownership only show after moves, replacement and failures.'),
'C17': dict(
  spec='`Equation.tla`: solution set over the integers, defined from the system alone (no algorithm); a result is right if it is sound for every choice of parameters and complete.',
  cost='19 s', why='any system; the result of an elimination step depends on all coincidences of variables with earlier ones.'),
'C18': dict(
  spec='`Equation.tla`: life cycle build/instantiate/solve/shift/reverse.',
  cost='10 s', why='all guards and values of variables.'),
'C19': dict(
  spec='`Diag.tla` (containers, format; `fault`: the n-th call of a formatting function fails) over `JsonText.tla`.',
  cost='17 s', why='lengths and values of arguments decide buffer sizes; swaps and clears decide counts.'),
'C20': dict(
  spec='`StaticMap.tla`: maps as functions on their keys, objects with a moved-from state, owned objects. Map types are generated. Function objects carry state: the object given is the one applied.',
  cost='23 s', why='each list of keys is another type; transfer depends on which keys are shared and their order.'),
'C21': dict(
  spec='`TypeList.tla`: the algebra of lists, laws checked by TLC (associativity, neutral element, idempotence, inverse). Function objects carry state: the object given is the one applied.',
  cost='8 s', why='each list is an instantiation.'),
'C22': dict(
  spec='`MArray.tla`: an array is a function from index tuples to elements; life of elements.',
  cost='19 s', why='all ranks and unequal sizes; strides that coincide for square arrays.'),
'C23': dict(
  spec='`Tagged.tla`: elements, tags, aliases; objects as functions from elements.',
  cost='15 s', why='each list of tags is an instantiation.'),
'C24': dict(
  spec='`NodeSocket.tla`: connections, listeners, functions given, what JavaScript holds and what has been collected. The addon is compiled from /repo and executed by Node.js with AddressSanitizer preloaded.',
  cost='10 s', why='garbage collection is an action of the environment in the specification, and histories decide when it may happen.'),
'C25': dict(
  spec='`Pool.tla` (vectors of wrappers and their known pointers) and `DataItr.tla` (pairs of position and data).',
  cost='20 s', why='reallocation, self-moves and sorting are reached by histories.'),
'C26': dict(
  spec='`Utility.tla`: digits, bits and bytes as sequences; TLC checks laws (restore after shrink, literal of printed bits).',
  cost='17 s', why='limits of nine integral types.'),
'C27': dict(
  spec='`StaticMap.tla` and `TypeList.tla` again, for collections of cells (`Base::Cell`) and trees (`Base::Node`, keys in preorder; visiting, and conversion between trees of any form). Each of the macros CELL_COLL_1 to CELL_COLL_100 is expanded with a random order of identifiers and its cells compared with it.',
  cost='32 s', why='every collection is an instantiation of its own.'),
'C28': dict(
  spec='`Legacy.tla`: an application is a forest of errors and the applications it uses; numbering as operators; `LegacyGen.tla` checks that codes are 1..n, grow downwards and never coincide between applications. Texts as sequences of characters. Every error is also thrown as an error of a cast.',
  cost='40 s', why='offsets of codes depend on the whole graph of applications.'),
'C29': dict(
  spec='`Value.tla`: weak values are 0 (undefined) or their value, strong ones always have one; comparisons and the logic of types as operators; `ValueGen.tla` checks the laws of comparison and that an operation changes one object. An operation may also fail in copying the value (then nothing changes); numbers of different types are compared by value, as `Numbers` says.',
  cost='15 s', why='definedness depends on the history, and every comparison is another overload.'),
'C30': dict(
  spec='`Object.tla`: a heap of objects and wrappers that own (static) or share (dynamic) them; `ObjectGen.tla` checks that no wrapper refers to a destroyed object, that static wrappers are independent and that dynamic objects are destroyed on demand only.',
  cost='20 s', why='ownership and aliasing depend on the history of all wrappers.'),
}
CAUGHT = {}
MORE = ''
