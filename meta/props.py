"""single source of properties.jsonl and MANIFEST.json (python3 meta/mk.py rewrites both)"""
S = 'src/icl_core/src/icl_core/'
P = []


def prop(id, title, statement, over, quant, why, files, mech, level='proof', note='', state=None, na=None, technique=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, quant=quant, why=why, files=files, mech=mech, level=level, note=note, state=state, na=na, technique=technique))


VC = 'All obligations of the listed functions (pre/postconditions, loop invariants, termination, memory safety, no signed overflow) are discharged by z3/cvc5 from the LLVM IR of the current sources; '

prop('C01', 'A ring buffer is a bounded first-in first-out sequence',
     'A ring buffer of any capacity behaves as a sequence of at most that many elements, oldest first: writing appends (refusing with an out-of-range error when full, or dropping exactly the oldest element when overwriting was asked for), reading and skipping remove the oldest elements, and element access, front, size, remaining room, emptiness and fullness always describe that sequence. Reading, skipping or looking into an empty buffer, or past the end, is refused with an out-of-range error and changes nothing. Clearing empties it, and copies and assignments hold the same sequence and leave the source alone.',
     ['inputs', 'histories'], 'every capacity, every wrap-around position, every element value, every sequence of operations (by induction over the class invariant)',
     'The unit test drives a few capacities through one fixed history; wrap-around defects need particular position/capacity combinations.',
     [S + 'RingBuffer.h', S + 'RingBuffer.hpp', S + 'tRingBuffer.h'], [('write/read/skip/at/size over the storage positions', S + 'RingBuffer.h')],
     note=VC + 'instantiated for 32-bit elements; std::vector is a trusted contract; allocation failure not modelled.')
prop('C02', 'Ring buffer capacity changes and bulk access keep the sequence',
     'Changing the capacity keeps exactly the newest elements that still fit, in their order, and reports the new capacity. The two readable stretches together are exactly the stored elements in order, and the two writable stretches together are exactly the free slots in the order in which they will be filled, so that filling them and declaring a number of elements written appends just those elements (never more than there is room for).',
     ['inputs', 'histories'], 'every old and new capacity, fill level, wrap-around position and count',
     'Tests resize a handful of buffers; the copy loop and the four range cases depend on where the content wraps.',
     [S + 'RingBuffer.h', S + 'RingBuffer.hpp', S + 'tRingBuffer.h'], [('setCapacity', S + 'RingBuffer.h'), ('fakeWrite and array ranges', S + 'RingBuffer.hpp')],
     note=VC + 'instantiated for 32-bit elements; std::vector is a trusted contract.')
prop('C03', 'Ring buffer iterators walk exactly the stored sequence',
     'Iterators of a ring buffer stand at positions of the stored sequence from its first element to its end: increments, decrements and jumps by any distance that stays inside the sequence move by exactly that many elements across the wrap-around point, differences count the elements between, equality means same position, and dereferencing yields the element at that position.',
     ['inputs', 'histories'], 'every storage size, wrap-around position, iterator position and jump distance that stays within the sequence',
     'Tests iterate over a few small buffers; jumps and differences across the wrap point in both directions are barely sampled.',
     [S + 'RingBuffer.h'], [('const_iterator arithmetic', S + 'RingBuffer.h')],
     note=VC + 'pointer comparison beyond the storage during a jump is treated as address arithmetic.')
prop('C04', 'Time arithmetic is exact and results are normalised',
     'Every time stamp or time span that is constructed or computed represents exactly the mathematically expected number of nanoseconds, with a sub-second part below one second in magnitude that never has the opposite sign of the seconds. This holds for construction from seconds and nanoseconds, system time structures and calendar time points, in-place and binary addition and subtraction (also of a value with itself), differences of stamps, absolute value, the current time, a point some milliseconds in the future, and the largest representable time.',
     ['inputs'], 'all second counts up to 2^61 in magnitude, all 32-bit sub-second counts (unnormalised ones too), all sign combinations',
     'Unit tests check a dozen positive examples; carries, borrows and mixed signs are a combinatorial space of 96-bit inputs.',
     [S + 'TimeBase.cpp', S + 'TimeSpan.cpp', S + 'TimeStamp.cpp', S + 'TimeStamp.h', S + 'TimeSpan.h', S + 'os_posix_time.cpp'], [('normalisation loop', S + 'TimeBase.cpp'), ('operators', S + 'TimeSpan.h')],
     note=VC + 'clock system call and boost date_time accessors are trusted contracts; RTAI, Darwin and DDS branches are not compiled.')
prop('C05', 'Time comparisons form one total order on the represented time',
     'For any two normalised times or time spans each of the six comparison operators answers according to the represented number of nanoseconds, so they are mutually consistent, total and transitive, and equality means the same represented time.',
     ['inputs'], 'all pairs of normalised values, including negative ones and ones that differ only below a second',
     'Tests compare a few hand-picked pairs.',
     [S + 'TimeBase.cpp', S + 'TimeSpan.cpp', S + 'TimeStamp.h'], [('comparison operators', S + 'TimeBase.cpp')], note=VC + 'operands assumed normalised (C04).')
prop('C06', 'Time unit conversions are exact',
     'Building a span from a count of seconds, milliseconds or microseconds and asking for the total in milliseconds, microseconds or nanoseconds is exact (truncating towards zero) for every count that fits, positive or negative. The day, hour, minute and second components are those of the represented time and add up to it, the sub-second accessors give the milliseconds, total microseconds and remaining nanoseconds of the sub-second part, and conversion to a system time structure keeps both parts.',
     ['inputs'], 'all 64-bit counts for construction, all values whose total fits 64 bits for the totals, all values for the components',
     'Tests convert a few small positive numbers.',
     [S + 'TimeSpan.cpp', S + 'TimeBase.h', S + 'TimeStamp.h', S + 'TimeBase.cpp'], [('from/to conversions', S + 'TimeSpan.cpp'), ('components', S + 'TimeBase.h')], note=VC + 'totals are required exact only where the result fits 64 bits.')
prop('C07', 'Union-find maintains exactly the partition given by the merges',
     'A union-find structure represents a partition of its elements: initially and after growing, new elements are alone; merging two elements unites exactly their two sets and leaves every other set unchanged; asking for the representative never changes the partition. Two elements have the same representative exactly when they are in the same set, and the representative is itself a member of that set. Requests for elements that do not exist are refused with an out-of-range error and change nothing.',
     ['inputs', 'histories'], 'every number of elements, every sequence of merges, queries and growth steps (by induction over the class invariant)',
     'Tests merge a handful of elements; rank ties, path compression and long chains depend on the whole history.',
     [S + 'UnionFind.h'], [('find with path compression', S + 'UnionFind.h'), ('merge by rank', S + 'UnionFind.h')],
     note=VC + 'up to 2^60 elements; std::vector is a trusted contract.')
prop('C08', 'Wrapping sequence numbers count and compare the short way around',
     'Incrementing a wrapping sequence number (before or after use) counts up by one and continues with the minimum after the last number below the maximum, and post-increment yields the old number. For any two numbers of the range that are not exactly half the maximum apart, one is less than the other exactly if counting up from it by less than half the maximum, possibly across the wrap, reaches the other, and the other five comparisons agree with that. Construction, copying and assignment keep the given value, and the configured initial value, minimum and maximum are the ones used and reported.',
     ['inputs'], 'all pairs of numbers in [minimum, maximum) that are not half the maximum apart, for seven instantiations of base type, maximum, minimum and initial value',
     'Tests compare a few pairs of one instantiation; the wrap-around boundary needs all pairs.',
     [S + 'SequenceNumber.h'], [('comparison', S + 'SequenceNumber.h'), ('increment', S + 'SequenceNumber.h')],
     note=VC + 'for the listed instantiations of the template.')
prop('C09', 'A two-dimensional array is width times height cells, row by row',
     'A two-dimensional array always has exactly width times height cells; access by column and row reaches the cell with linear index row times width plus column, distinct coordinates reach distinct cells, and the conversions between linear index and coordinates are inverse to each other. Construction, assigning a shape, resetting and setting all give every cell the stated (or default) value, resizing keeps the leading cells in linear order and gives the rest the stated (or default) value, and copying, assignment and swapping transfer shape and content completely. Size, emptiness and iteration describe exactly these cells.',
     ['inputs', 'histories'], 'all widths, heights and contents up to 2^60 cells, all coordinates',
     'Tests use a couple of small shapes; swapped or stale dimensions only show for particular shape sequences.',
     [S + 'Array2D.h'], [('index arithmetic', S + 'Array2D.h'), ('shape changes', S + 'Array2D.h')],
     note=VC + 'instantiated for 32-bit cells; std::vector is a trusted contract.')
prop('C10', 'A Z-buffer keeps the best value per position',
     'A Z-buffer starts with every position empty; offering a value stores it exactly if the position is empty or the value comes strictly before the stored one according to the buffer\'s own comparator, reports whether it was stored, and changes no other position. Resetting empties every position and keeps their number, and access tells for every position whether it holds a value and which.',
     ['inputs', 'histories'], 'every number of positions, every content, every value, any comparator (also with state)',
     'There is no test; ties, stateful comparators and reset on non-empty buffers have to be right for every history.',
     [S + 'ZBuffer.h'], [('update', S + 'ZBuffer.h'), ('reset', S + 'ZBuffer.h')],
     note=VC + 'instantiated for 32-bit values and an arbitrary comparator; std::vector is a trusted contract; positions inside the buffer are a precondition.')
prop('C11', 'A searchable stack is last in, first out and searched from the bottom',
     'A searchable stack holds exactly the elements pushed and not yet popped: push adds on top, pop removes the top only, top is the last one pushed, clearing empties it, and size and emptiness describe it. Forward iteration runs over all elements from bottom to top and reverse iteration from top to bottom. Searching yields the position of the bottommost element that equals the given one according to the stack\'s own equality, or the end if there is none.',
     ['inputs', 'histories'], 'every stack content, every searched value, any equality (also with state)',
     'Tests push and search a few distinct numbers; duplicates and custom equalities are not covered.',
     [S + 'SearchableStack.h'], [('find', S + 'SearchableStack.h'), ('push/pop/top', S + 'SearchableStack.h')],
     note=VC + 'instantiated for 32-bit elements; std::vector is a trusted contract.')
prop('C12', 'A value made final never changes again',
     'An object holding a finalizable value takes every assignment (from a value or from another such object) until it is made final; from then on every assignment is refused with a logic error and leaves value and state as they are. Assigning never changes whether an object is final, a copy has the same value and is final exactly if its original is, and a new object holds its value and is not final.',
     ['inputs', 'histories'], 'every value and every sequence of assignments, copies and finalizations',
     'There is no test; the refusal must hold after any history and must leave the value untouched.',
     [S + 'Finalizable.h'], [('assignment', S + 'Finalizable.h')], note=VC + 'instantiated for 32-bit values.')
prop('C13', 'A scope guard runs its action exactly once at the end of the scope',
     'A scope guard starts switched on; when it is destroyed it runs its action exactly once if it is switched on at that moment and not at all if it is switched off. Switching on or off never runs the action and can be repeated in any order, the last one counts.',
     ['inputs', 'histories'], 'every sequence of switching operations, every action',
     'There is no test; exactly-once has to hold for every sequence of operations.',
     [S + 'AtScopeEnd.h'], [('destructor', S + 'AtScopeEnd.h')], note=VC + 'boost::function is a trusted contract; actions are callable and do not throw; guards are not copied.')
prop('C14', 'Bit field helpers touch exactly the bits of the mask',
     'For bit fields of every integer width, signed or unsigned, and enumerations: setting bits gives the field with exactly the bits of the mask turned on, clearing gives the field with exactly those bits turned off, all other bits staying as they were, and testing tells whether at least one bit of the mask is set. The mask is the given integer converted to the type of the field.',
     ['inputs'], 'all field values of all widths from 8 to 64 bits, all masks',
     'There is no test; high bits of wide fields and sign bits are corner cases of the whole input space.',
     [S + 'BitfieldHelper.h'], [('setBits/clearBits/isBitSet', S + 'BitfieldHelper.h')], note=VC + 'bit-precise, for nine instantiations.')
prop('C15', 'The relation of two sets is classified exactly',
     'For any two ordered sets the relation reported is equality exactly if they have the same elements, proper superset or proper subset exactly if one contains the other and more, non-empty intersection exactly if they share an element but neither contains the other, and disjoint exactly otherwise.',
     ['inputs'], 'all pairs of finite sets, any strict total order of the elements',
     'There is no test; the merge walk has to be right for every interleaving of the elements of two sets of any size.',
     [S + 'SetHelper.h'], [('merge walk', S + 'SetHelper.h')], note=VC + 'std::set is a trusted contract.')
CR = 'src/icl_core/src/icl_core_crypt/'
TH = 'src/icl_core/src/icl_core_thread/'
LG = 'src/icl_core/src/icl_core_logging/'
prop('C16', 'A mutex is acquired exactly when the call says so',
     'Every call that locks a mutex (waiting, until an absolute time, for a time span, or without waiting) reports success exactly if the caller acquired the mutex by it, once; waiting without time-out fails only if the system refuses, waiting with time-out lasts until exactly the given time or now plus the given span (a negative span means at least a year), and trying never waits. The owner may lock again, each unlock gives up exactly one acquisition, and destroying releases all resources. A scoped lock says truthfully whether it holds the mutex, holds it for sure if that was enforced, and at its end gives back exactly what it acquired.',
     ['inputs', 'schedules', 'fault_sequences'], 'every outcome of the system calls at every step, every time-out including negative and unnormalised-looking ones, every history of calls',
     'Tests lock one mutex with friendly timing; refused calls, unusual time-outs and who really holds the mutex afterwards are not observed.',
     [TH + 'Mutex.cpp', TH + 'MutexImplPosix.cpp', TH + 'ScopedMutexLock.cpp', TH + 'Common.h'], [('lock calls', TH + 'MutexImplPosix.cpp'), ('time-outs', TH + 'Common.h'), ('scoped lock', TH + 'ScopedMutexLock.cpp')],
     note=VC + 'the POSIX mutex and the clock are trusted contracts.')
prop('C17', 'A readers-writer lock is acquired in the requested mode exactly when reported',
     'Every call that locks for reading or for writing (waiting, until an absolute time, for a time span, or without waiting) reports success exactly if the caller acquired the lock by it, once and in the requested mode; waiting without time-out fails only if the system refuses, waiting with time-out lasts until exactly the given time or now plus the given span (a negative span means at least a year), and trying never waits. Each unlock gives up exactly one acquisition and destroying releases all resources. A scoped lock says truthfully whether it holds the lock, holds it in the requested mode for sure if that was enforced, and at its end gives back exactly what it acquired.',
     ['inputs', 'schedules', 'fault_sequences'], 'every outcome of the system calls at every step, every time-out, both modes, every history of calls',
     'Tests lock with friendly timing; refused calls, unusual time-outs and the mode that is really held are not observed.',
     [TH + 'RWLock.cpp', TH + 'RWLockImplPosix.cpp', TH + 'ScopedRWLock.cpp', TH + 'Common.h'], [('lock calls', TH + 'RWLockImplPosix.cpp'), ('scoped lock', TH + 'ScopedRWLock.cpp')],
     note=VC + 'the POSIX readers-writer lock and the clock are trusted contracts.')
prop('C18', 'A semaphore is decremented exactly when a wait says so',
     'A semaphore starts at the given count. Every wait (without time-out, until an absolute time, for a time span, or without waiting) reports success exactly if it took one from the semaphore; waiting without time-out fails only if the system refuses, waiting with time-out lasts until exactly the given time or now plus the given span (a negative span means at least a year), trying never waits, and each post adds exactly one. A scoped semaphore says truthfully whether it took one and gives back exactly what it took; this holds for the semaphores of the thread and of the logging component, and destroying them releases all resources.',
     ['inputs', 'schedules', 'fault_sequences'], 'every outcome of the system calls at every step (also interrupted waits), every time-out, every initial count, every history of calls',
     'Tests use friendly timing; interrupted waits and unusual time-outs are not exercised, the logging semaphore has no test.',
     [TH + 'Sem.cpp', TH + 'SemaphoreImplPosix.cpp', TH + 'Common.h', LG + 'Semaphore.cpp', LG + 'SemaphoreImplPosix.cpp', LG + 'ScopedSemaphore.cpp'],
     [('wait and post', TH + 'SemaphoreImplPosix.cpp'), ('scoped semaphore', LG + 'ScopedSemaphore.cpp')],
     note=VC + 'the POSIX semaphore and the clock are trusted contracts.')
prop('C19', 'A spin lock excludes all other threads and reports truthfully',
     'Whatever the other threads do, a spin lock is taken only while it is free and never by two threads at once: locking returns (with success) only when the caller holds it, trying to lock reports success exactly if the caller took it and fails only if it was held, without waiting, and unlocking gives it back once. What a holder wrote before unlocking is visible to the next holder. A scoped spin lock holds the lock from its construction to its end.',
     ['schedules', 'histories'], 'every interleaving with any number of other threads (rely/guarantee over the shared cell), every history of calls',
     'There is no test; exclusion and visibility depend on interleavings and on the memory order of single instructions.',
     [TH + 'SpinLock.h', TH + 'ScopedSpinLock.h'], [('lock/tryLock/unlock', TH + 'SpinLock.h')],
     note=VC + 'the code of boost::atomic is verified with it down to the atomic instructions, whose ordering semantics is trusted.')

prop('C20', 'SHA-2 digests are those of FIPS 180-4, however the message is split',
     'For SHA-224, SHA-256, SHA-384 and SHA-512 and every message shorter than 2^61 bytes, finalising yields the digest defined by FIPS 180-4 of the concatenation of all data given since construction or the last clear, whichever way the data is split over calls that take a C string, a string or a buffer with a size. The text form is the digest in lower case hexadecimal with all leading zeros, truncated to the length of the algorithm. Processing reads only the bytes it was given and changes nothing but the digest object.',
     ['inputs', 'histories'], 'every message, every split into calls, every history of clearing and reuse',
     'The existing tests sample a few short messages; block boundaries, padding cases, 64-bit lengths and the mixing of calls are unbounded.',
     [CR + 'Sha2.h', CR + 'Sha2.hpp', CR + 'Sha2Impl.h', CR + 'Sha2Impl.hpp'], [('processBuffer', CR + 'Sha2Impl.hpp'), ('process/finalize', CR + 'Sha2.hpp')],
     note=VC + 'the compression function is compared with the FIPS definition word by word with cut points that are themselves proved (bit-vector queries); the streaming is proved with loop invariants over the message.')

prop('C21', 'A thread object runs its work exactly once per start and waiting is truthful',
     'A thread object runs its work in exactly one thread of execution per successful start and never in two at once; starting fails only if none could be created or the work that was going on has ended meanwhile, the object counts as running while the work is going on, and a request to stop made after a start is never lost. Waiting succeeds only after the work has returned and the thread of execution has ended and was reclaimed: without limit it always succeeds, with an absolute or relative limit it gives up only once that time has passed and the thread of execution has not ended by then; joining and destroying return only then, too. This holds for one controlling thread and without forced cancellation, for the thread class of the thread library and (as far as it has these operations) for that of the logging library.',
     ['schedules', 'histories'], 'every interleaving of the controlling thread with the thread of execution (rely/guarantee over the shared flags and the mutex), every history of starts, stops, waits, joins and destruction',
     'The tests start and wait for a few threads; the defects sit in windows of a few instructions between the flags, the mutex and the end of the thread.',
     [TH + 'Thread.h', TH + 'Thread.cpp', TH + 'ThreadImplPosix.cpp', TH + 'Common.h', LG + 'Thread.h', LG + 'Thread.cpp', LG + 'ThreadImplPosix.cpp'], [('start/join/wait/runThread', TH + 'Thread.cpp')],
     note=VC + 'the effects of the thread of execution are extracted from its code on every run and interleaved with every access of the controlling thread; accesses are taken as sequentially consistent although the flags are plain variables; POSIX calls, logging and std::string are trusted contracts.')

prop('C22', 'Operations given to an active object run in order, one at a time',
     'Operations handed over to an active object are carried out one at a time, in the order handed over, in its own thread between its start and stop hooks (which run exactly once per start) and never while its queue is locked. Each operation is carried out at most once and disposed of exactly once; it is dropped without being carried out only if it was handed over to an object that is not running or a stop was requested, and nothing handed over remains when the object has ended. Hand-overs and stop requests always wake the object, whatever the interleaving, and the queue is only touched under its lock.',
     ['schedules', 'histories'], 'every interleaving of the thread of execution with any number of threads that hand operations over and with the stop request (rely/guarantee), queues of every length, every history',
     'There is no test; lost wake-ups, dropped or leaked operations and unlocked accesses need a particular interleaving.',
     [TH + 'ActiveObject.h', TH + 'ActiveObject.cpp', TH + 'ActiveOperation.h', TH + 'Sem.cpp', TH + 'SemaphoreImplPosix.cpp', TH + 'Mutex.cpp', TH + 'MutexImplPosix.cpp'], [('run/queue/stop', TH + 'ActiveObject.cpp')],
     note=VC + 'operations are numbered in the order handed over (ghost); std::list, POSIX mutexes and semaphores are trusted contracts; flags are taken as sequentially consistent; operations do not throw.')

prop('C23', 'A periodic thread waits for exactly its period',
     'From the moment a periodic thread begins to execute, and again at every change of its period, its timer runs with the current period as first expiry and as interval (a change reports success exactly if a timer was set), independently of the setting of the clock, and the period told is the one set last. Waiting for the end of the period ends only with exactly one expiry of the timer, also if signals interrupt it; restarting and destroying leave no timer behind. The emulation never ends a wait before one period has passed since the previous one ended (or since the call, if the clock was set back before it), never sleeps beyond that time and survives interrupted sleeps.',
     ['inputs', 'histories', 'fault_sequences'], 'every period below 2^31 seconds, every outcome of the timer calls (refused, interrupted any number of times), every behaviour of the clock, every history of starts, changes and waits',
     'The tests run one thread with one period; leaks, interruptions, changes of the period while waiting and steps of the clock are not exercised.',
     [TH + 'PeriodicThread.h', TH + 'PeriodicThread.cpp', TH + 'PeriodicThreadImplTimerfd.h', TH + 'PeriodicThreadImplTimerfd.cpp', TH + 'PeriodicThreadImplEmulate.h', TH + 'PeriodicThreadImplEmulate.cpp'], [('timer', TH + 'PeriodicThreadImplTimerfd.cpp'), ('emulation', TH + 'PeriodicThreadImplEmulate.cpp')],
     note=VC + 'the timer, sleep and clock calls are trusted contracts with arbitrary outcomes; if the system refuses to create or set a timer nothing is promised about waiting.')

prop('C24', 'A dispatch thread carries out complete rounds of its operations in order',
     'In every round a periodic dispatch thread carries out each registered operation once per registration, in the order of registration, and then waits for the next period exactly once before the next round. Once a stop was requested no further round begins and no wait is entered, while a round that was begun is completed; destroying the thread requests the stop and releases nothing before the thread has ended. An operation made from a callback calls a copy of the function it was given exactly once each time it is carried out.',
     ['schedules', 'histories'], 'any number of operations, registered any number of times, any number of rounds, a stop request at every point of the execution',
     'There is no test of dispatch threads; dropped or repeated operations and late stops need a stop request at a particular point of a round.',
     ['src/icl_core/src/icl_core_dispatch/PeriodicDispatchThread.h', 'src/icl_core/src/icl_core_dispatch/PeriodicDispatchThread.cpp', 'src/icl_core/src/icl_core_dispatch/CallbackOperation.h', 'src/icl_core/src/icl_core_dispatch/CallbackOperation.cpp', 'src/icl_core/src/icl_core_dispatch/Operation.h'], [('run/addOperation', 'src/icl_core/src/icl_core_dispatch/PeriodicDispatchThread.cpp')],
     note=VC + 'waiting, stopping and joining are used by their contracts (C23, C21); std::list iterators are positions (trusted contract); operations are registered while the thread is not running and do not throw; the request flag is taken as sequentially consistent.')
prop('C25', 'A log output writes every message pushed exactly once, in order',
     'A message pushed to a log output is dropped exactly if its level is below that of the output. Otherwise it is written exactly once with the values pushed, one message at a time and in the order pushed: by the worker thread, between its start and shutdown hooks, or, if the output has no worker, by the caller before the push returns. Every push and every shutdown wakes the worker, whatever it is doing, and when the shutdown of a running output returns, everything pushed before it is written and the worker has ended.',
     ['schedules', 'histories'], 'any number of threads pushing any number of messages of any level, a shutdown request at every point of the execution of the worker',
     'There is no test of log outputs; lost, repeated or reordered messages and lost wake-ups need particular interleavings of pushes, worker and shutdown.',
     [LG + 'LogOutputStream.h', LG + 'LogOutputStream.cpp'], [('push/shutdown/run', LG + 'LogOutputStream.cpp')],
     note=VC + 'semaphores, threads and clock readings are used by their contracts (C18, C21, C04); the making of the record is C27; std::queue is trusted; the system grants the mutexes; a time-out or signal that makes the system refuse a mutex is outside the statement.')
prop('C26', 'A log message reaches every output once, whole, and as it was given',
     'A message reaches every output registered at its log stream exactly once, if the stream is active and its level is not above that of the message, and no output otherwise; with it come its own level, line, file, class, object, function and text, and nothing from an earlier message or another thread. From its beginning until it is delivered it is assembled in a buffer of its own for this thread and level, however many messages are unfinished at the same time. Texts too long for the buffer are cut, keeping the final line break; values are written as their decimal text; nothing outside the buffers is read or written.',
     ['schedules', 'inputs'], 'any number of threads and outputs, any texts of any length, any values and levels, any interleaving of begun and delivered messages',
     'There is no test of log streams; mixed or lost messages need interleavings of threads with unfinished messages, and the cutting of texts needs lengths around the capacity.',
     [LG + 'LogStream.h', LG + 'LogStream.cpp', LG + 'ThreadStream.h', LG + 'ThreadStream.cpp', LG + 'LoggingMacros_SLOGGING.h'], [('flush/write/threadStream', LG + 'ThreadStream.cpp')],
     note=VC + 'C string functions, std::list and std::set are trusted; the semaphore and the outputs are used by their contracts (C18, C25); thread ids of running threads are distinct and not zero; a mutex refused by the system drops the message.')
prop('C27', 'A log line is what its format and the values logged make of it',
     'A log record holds the level, line and time given and its texts, each cut at the capacity of its field. A format is split without loss into literal texts, whatever their length, and fields of the kind their letter names, a field prefix being kept up to 99 characters; the line written is the sequence of their values in that order, where class, object and function disappear together with their prefix if empty, a bracket opened by the prefix of an object is closed, and milliseconds are padded with zeros to the width given. The record sent over UDP consists of the documented values in order, quoted, with the quotes in object name and text escaped; level names and levels correspond one to one; no format or text makes any of this read or write outside its buffers.',
     ['inputs', 'configurations'], 'any format text of any length, any texts of any length, any line, level and time',
     'There is no test of formats; losses and overruns need literal texts or prefixes longer than a format entry, and texts around the capacity of a record.',
     [LG + 'LogOutputStream.h', LG + 'LogOutputStream.cpp', LG + 'UdpLogOutput.cpp', LG + 'LogLevel.cpp'], [('parseLogFormat/pushImpl', LG + 'LogOutputStream.cpp')],
     note=VC + 'string streams, std::list, the C string functions and the formatting of times (C06) are trusted; boost::regex_replace is trusted to follow its format syntax; widths below 10^17; formats are changed by one thread at a time.')
prop('C28', 'Times written as ISO 8601 text name the time and are read back unchanged',
     'For every time of the years 1970 to 9999 the extended text names its date and time of day and the basic text in addition its fraction with nine digits, in UTC or in local time as asked for; reading the basic UTC text back gives the very same time. A shorter basic UTC text is read as the time it names, missing parts being those of 1970-01-01T00:00:00 and missing digits of the fraction zeros; a text is refused only if a part is not a number, and no text makes the reading go outside it. The text of a time stays within the buffer given and is terminated, also if it does not fit or the time cannot be represented, and threads that write times at the same time do not mix their texts.',
     ['inputs', 'schedules'], 'every time, every buffer size and format, texts of any length and content, any number of threads',
     'The tests read back the current time and two dates; leap years, times at the end of a day, single digit parts, fractions, shortened texts and simultaneous use are not sampled.',
     [S + 'TimeStamp.h', S + 'TimeStamp.cpp'], [('fromIso8601BasicUTC/formatIso8601', S + 'TimeStamp.cpp')],
     note=VC + 'the calendar functions of the C library (gmtime_r, localtime_r, strftime), std::string and boost::lexical_cast are trusted contracts; the fields of a UTC time are tied to its seconds by a closed formula of the Gregorian calendar.')
prop('C29', 'Splitting, joining, trimming, padding and looking up texts lose nothing',
     'Splitting a text yields, in order, the pieces between the occurrences of the delimiter found from the left; an empty text or an empty delimiter yields the text as the only piece, and an empty piece at the very end is not counted. Joining yields all texts in order with the delimiter between each two; trimming removes exactly the white space at both ends; padding fills exactly the missing characters on the side asked for and never cuts; changing the case replaces each character on its own. Looking a text up among names, given in a table of either kind, succeeds exactly if one of them is equal to it, yields the number of such a name, and leaves the value alone otherwise; all of this ends for every text and reads nothing outside it.',
     ['inputs'], 'texts of any length and content (including empty ones and bytes above 127), any delimiter and width, any number of names',
     'There is no test of these helpers; empty texts and delimiters, overlapping delimiters, white space only and missing names are not sampled.',
     [S + 'StringHelper.h', S + 'StringHelper.cpp', S + 'EnumHelper.h', S + 'EnumHelper.cpp'], [('split/join/trim/padLeft/padRight/toLower/toUpper', S + 'StringHelper.cpp'), ('string2Enum', S + 'EnumHelper.cpp')],
     note=VC + 'std::string, strcmp and the character functions of the C library are trusted contracts (any equality of texts, any set of white space, any case mapping); the vector that is filled by a split is trusted, other vectors are executed.')
CF = 'src/icl_core/src/icl_core_config/'
prop('C30', 'Every command line argument is taken exactly once, in order, as what it is',
     'From the left, a registered option stores its value - the text after its first "=" in the long form, the next argument in the short form, "yes" if it takes none; the last one counts -, an option that is not registered but begins with a registered prefix of letters, digits and dashes (the first in alphabetical order) adds the rest of its name with its value to the list of that prefix, and any other argument fills the next required, then the next optional positional parameter or else is kept in order, up to the separator of extra arguments (if activated), behind which all are extra arguments. Parsing fails exactly if an option is unknown, unless the parse is a relaxed one, which keeps it, or a value is missing, and the program ends if a required argument is missing or help is asked for. If cleaning is asked for, exactly the arguments kept remain on the command line, in order, otherwise it stays as it was; parsing again after success changes nothing, of options registered under one name the first counts, and a look-up yields exactly what was stored.',
     ['inputs', 'configurations'], 'any registered options, prefixes and positional parameters, any number of arguments of any content',
     'There is no test of the command line parser itself; equal values of options and kept arguments, missing values, repeated options, names that are prefixes of each other and a second parse are not sampled.',
     [CF + 'GetoptParser.h', CF + 'GetoptParser.cpp', CF + 'GetoptParameter.h', CF + 'GetoptParameter.cpp', CF + 'GetoptPositionalParameter.h'], [('Getopt::initialize/addParameter', CF + 'GetoptParser.cpp')],
     note=VC + 'std::string, std::map, std::list, std::vector and boost::regex are trusted contracts (a text is a number, what an expression matches is a function of the text; the expressions themselves are read from the code and have to be the two known ones, prefixes are matched as plain text); printing the help is trusted to change nothing.')
prop('C31', 'Every configuration key holds its strongest source, and all observers hear of it',
     'After initialisation every key holds what the last config-option for it on the command line says, else what its registered parameter was given there (of several the last, positional ones being later), else what the configuration file says - each text in it belongs to the path of the names of its elements below the root, the last one of a path counting, and included files being read in their place -, else the first non-empty default of a parameter registered for it; nothing else is stored but the name of the configuration file. Initialisation fails exactly if the command line is refused or the configuration file named there cannot be read, and once it has succeeded another one changes nothing. Whenever a value is stored, or set later, the observers registered for its key and those for all keys are told of it afterwards, a newly registered one is told of the keys already there, and an unregistered one of nothing more; look-ups yield exactly what was stored last, and a search visits in the order of the keys exactly the entries that match its expression, with their groups, and then stays at its end.',
     ['inputs', 'histories'], 'any parameters, command lines, configuration files and observers, any entries, keys and expressions',
     'There is no test of the configuration manager, its files or its observers; precedence between sources, keys that look like expressions and searching on behind the end are not sampled.',
     [CF + 'ConfigManager.h', CF + 'ConfigManager.cpp', CF + 'Config.h', CF + 'Config.cpp', CF + 'ConfigParameter.cpp', CF + 'ConfigPositionalParameter.cpp', S + 'KeyValueDirectory.hpp'], [('ConfigManager::initialize/notify/readXml', CF + 'ConfigManager.cpp'), ('KeyValueDirectoryIterator::next', S + 'KeyValueDirectory.hpp')],
     note=VC + 'the command line parser is used through its contract (C30); std::string, std::map, std::list, std::vector, boost::regex, TinyXML and the accessors of attribute trees are trusted contracts (a text is a number, what an expression matches is left open); observers are assumed not to change the configuration.')
prop('C32', 'A time span put out as text is the span, sign and amounts with units',
     'A time span put out to a stream or to a log is an optional minus sign followed by one or more amounts, each a whole number that is not negative with its unit (h, m, s, ms, us or ns), from the largest unit to the smallest and each unit at most once. The sum of the amounts, negated if the sign is there, is exactly the span.',
     ['inputs'], 'every normalised time span',
     'There is no test of the text of a span; negative spans, spans below a second, microseconds, and spans of exactly an hour or a minute are not sampled.',
     [S + 'TimeSpan.cpp', LG + 'Logging.cpp'], [('operator<<', S + 'TimeSpan.cpp'), ('operator<<', LG + 'Logging.cpp')],
     note=VC + 'numbers are written in decimal by the streams (std::ostream trusted, log streams by C27); spans are normalised (C04) and below 2^62 seconds in magnitude.')
PM = 'src/icl_core/src/icl_core_performance_monitor/'
prop('C33', 'Measurements are kept completely, in order, and only for enabled groups',
     'A value, a value without time or a measured time given for a group is kept behind those already kept for its group and name exactly if the monitor is operational and the group or all groups are enabled, a static value then replaces the one before, and nothing else kept changes in any case; spare storage set up beforehand makes no difference. A measured time is the time in milliseconds since the start of its timer, which a measurement leaves as it is, which starting sets to the present while the monitor is operational, and which start-stop sets to the end of the time just measured or, if the timer was never started, to the present without keeping anything. The summary of a name states the number of values kept for it, their average, the middle one in ascending order (the upper of two), the smallest and the largest, changes nothing kept, and reads nothing outside of the values, also if there are none; enabling or disabling a group concerns that group only.',
     ['inputs', 'histories'], 'any groups, names, timers and values, any number of values kept, any history of measurements and switches',
     'The tests measure a few sleeps and print; second names, spare storage, disabled groups, names without values and the order of the values are not sampled.',
     [PM + 'PerformanceMonitor.h', PM + 'PerformanceMonitor.cpp'], [('addEvent/startStop/createStatisticSummary', PM + 'PerformanceMonitor.cpp')],
     note=VC + 'std::string, std::map, std::vector of doubles, std::sort and string streams are trusted contracts, floating point operations are uninterpreted (the result has to be built by the same operations), printing is trusted (C26); one thread; no NaN; a timer measured has been started; the summary of a whole group and of all groups are not claimed.')
prop('C34', 'A singleton is created once, complete, and is the same object for all',
     'Every access to a singleton yields the instance there is; only if there is none, one object is created, by one thread that holds the lock of the singleton, however many threads ask for it at the same time. It becomes visible to other threads only complete, before the lock is released and behind the memory barrier of the threading model, and its destruction is scheduled exactly once, by the thread that created it. Once the instance was destroyed - once, being forgotten then - an access first asks the lifetime policy: the default one refuses this and every further access with a logic error, the other one allows a new object; an access that fails leaves no instance behind and releases the lock.',
     ['schedules', 'histories', 'fault_sequences'], 'any creation, lifetime and threading policies, another thread creating the instance at any access to it, failures of the creation and of the policy, and the policies of the library',
     'There is no test of the singleton; a second object, an incomplete one, or one scheduled for destruction twice needs threads to meet between two particular instructions.',
     [S + 'Singleton.h', S + 'Singleton.hpp', S + 'SingletonCreationPolicies.h', S + 'SingletonLifetimePolicies.h', S + 'SingletonThreadingModels.h', TH + 'SingletonThreadingModels.h', LG + 'SingletonThreadingModels.h'], [('Singleton::instance/destroySingleton', S + 'Singleton.hpp')],
     note=VC + 'locks are used by their contracts (C16, C18) and constructed before the first access; plain accesses to the pointer are taken as indivisible, memory barriers as effective; destruction happens when no other thread uses the singleton; creation by static variables or malloc is not claimed.')
prop('C35', 'A log file gets every line once, and rotating it loses none',
     'A line that is logged to a file is appended to it as a whole and exactly once, behind what the file already holds, and is handed to the system at once if flushing is asked for; this holds for plain and for compressed log files. If the day is over since the last rotation, the file is first closed and its lines are kept under the name of their day, and the line goes to the new file; it is rotated once a day, and the old file is removed only if all of its lines are in the archive. Packing a file reports success exactly if the whole file was read, written and closed.',
     ['histories', 'inputs', 'fault_sequences'], 'any line, day and settings, files of any size, any refusal or failure of opening, reading, writing and closing',
     'The tests log no line to a rotated or compressed file; lines are lost if a disk is full or an archive cannot be written on the one rotation of a day.',
     [S + 'os_fs.cpp', LG + 'FileLogOutput.cpp', LG + 'FileLogOutput.h'], [('FileLogOutput::pushImpl/rotateLogFile/openLogFile/closeLogFile', LG + 'FileLogOutput.cpp'), ('os::zipFile', S + 'os_fs.cpp')],
     note=VC + 'the file stream, zlib, unlink and rename are trusted contracts with arbitrary outcomes (an open stream takes every line; gzwrite and gzclose on the compressed log itself may fail, which is not reported to anyone); the text of a day is C06 and C28; deleting old log files, expanding the file name and reading the settings are not claimed.')
