"""per-property part of DESIGN.md: how the property is decided (the rest is generated from specs/, properties and seeds)"""
N = {
'C01': '''The abstraction is the sequence read off the storage array from the read position, modulo its length. The class invariant (storage is one
longer than the capacity, both positions inside) is assumed on entry of every member and proved on exit; each member's postcondition relates the abstract sequences before
and after, element by element at an arbitrary position. Hence any history of operations holds by induction. Errors: the outcome of kind "throw" must be out-of-range and leave the
object identical (frame).''',
'C02': '''Same abstraction and invariant as C01. setCapacity's copy loop is cut by a generated invariant; fakeWrite's clamp and the four pointer/size pairs are
postconditions over the slots the ranges denote.''',
'C03': '''An iterator denotes (storage, position); steps, jumps (unbounded distance inside the sequence, both signs) and differences are postconditions over the index in the
sequence; a lemma unit shows that differences invert jumps.''',
'C04': '''Each constructor/operator has the postcondition "value in nanoseconds = exact result, and normalised" over unbounded integers; normalizeTime's two loops
have invariants and termination measures, every caller uses its contract. Aliasing (`x += x`) is a separate unit. A genuine defect (boost ptime conversion truncated to 32 bits) was found and fixed.''',
'C05': '''Every comparison of the three classes is proved to equal the comparison of the represented values; the order axioms then follow (lemma unit).''',
'C06': '''Component and conversion functions against exact integer division/multiplication; the range in which the 64-bit result exists is the precondition.''',
'C07': '''Ghost state: representative function R and depth D. Invariant: R is constant along parent links, representatives are their own parents, D decreases. find() is proved by induction
(its recursive call must decrease D), merge() must yield the partition that joins exactly two classes, for all element counts.''',
'C08': '''Counting numbers form a ring of size max-min; each operator is proved against arithmetic in that ring for seven instantiations.''',
'C09': '''Cell (x, y) is element y*width+x; constructors, assignment, resize, swap, access and queries are proved for all shapes, including exceptions that leave the object unchanged.''',
'C10': '''Ghost per position: best value since last reset. The comparator is an uninterpreted function of state and arguments (arbitrary strict order), update() must call it with the stored state and keep ties.
Found and fixed: reset() did not compile.''',
'C11': '''A stack is its vector bottom to top; find() loops over it with an invariant "no match so far"; equality is uninterpreted.''',
'C12': '''State (value, final flag); operations proved for both flag states, refusals are exceptions with an unchanged object.''',
'C13': '''boost::function is an opaque action; ghost counter of runs; destruction of an enabled guard runs exactly once, otherwise never.''',
'C14': '''Bit-vector proofs (all widths, signed/unsigned, enum) of set/clear/test against the mask semantics bit by bit. Found and fixed: masks went through int.''',
'C15': '''Sets are strictly ascending arrays under an injective rank; the merge loop of the relation function has a quantifier-free witness invariant (counts of common elements through trigger predicates).''',
'C16': '''Ghost counters of acquisitions/releases per primitive; each operation's result must equal what was acquired, deadlines must equal the requested time, waiting only where allowed.''',
'C17': '''As C16 with the mode (read/write) as additional ghost.''',
'C18': '''As C16 for semaphores, both copies (thread and logging library).''',
'C19': '''Rely/guarantee over the atomic cell with the emitted orderings (acquire/release) checked. Found and fixed: tryLock returned the opposite.''',
'C20': '''The compression function is compared with a direct transcription of FIPS 180-4 in bit-vectors, with cut points after every round; streaming is proved against ghost "message so far" (block boundary positions, padding, 64-bit length). Text
formatting of the digest is proved digit by digit against the trusted contract of the stream.''',
'C21': '''See the module docstring: the worker's event trace is extracted from the real run function on every run (flag writes, mutex, begin/end of the work); controller operations are executed symbolically with arbitrary numbers of worker steps
before each shared access. Two genuine defects found and fixed (finished threads were never joined; wait() could fail spuriously).''',
'C22': '''Operations carry ghost numbers; the list holds the numbers head..tail-1 and may grow at every acquisition of the mutex by the thread of execution until the stop request was noticed and the list then seen
empty. The loops of the run function have generated invariants over (carried out, disposed of, taken, begun, ended, noticed); lost wake-ups are excluded by the obligation that the thread waits only after it saw the list empty and read the
stop flag since its last wake-up, together with "announce after appending / after requesting" on the other side. Two genuine defects were found and repaired in one commit (queue inspected without its mutex; operations accepted after the final drain).''',
'C23': '''Class invariant over the real fields and the ghost set of open timers ("the object names exactly the timers that exist"); every operation is executed from an arbitrary state with that invariant and every outcome of the
system calls. The sleeping loop of the emulation has the invariant "time left = due time - last clock reading". Found and fixed: the timer was never closed (one descriptor lost per start), and an interrupted wait ended early.''',
'C24': '''The list of operations is a sequence of unbounded length n, iterators are positions; ghost pos = operations carried out in the current round. Operations may only be called at position pos, the wait only with pos = n and after the request flag
was read as "go on" since the last operation; loop invariants "iterator = pos" and "pos = 0 or stop noticed". The request flag may change before every read. Destruction: the list's destructor requires told and joined.''',
'C25': '''Rely/guarantee: while the worker does not hold its mutex the queue may grow by any number of messages and the stop request may arrive before every read of the flag; pushing and shutting down are verified to do no more than that. Messages are numbered in
push order, the queue holds numbers head..tail-1 (std::queue is the trusted contract), and every use of the queue requires the mutex. Ghost gone = messages written; writing requires number = gone. Lost wake-ups: waiting requires that every earlier wake-up was followed by a removal (or the queue was seen empty) and that the stop flag
was read since; pushes and shutdowns post after their effect. The worker ends only with the queue seen empty after the request was noticed, and joining requires told and woken.''',
'C26': '''A buffer is the real object with its five character arrays (2049 bytes each) as SMT arrays; strncpy, strlen, memcpy, memset, snprintf and vsnprintf are contracts that require their reads and writes to stay inside the arrays (vcg/cstr.py). Class invariant: write index at most 2047 and all texts
terminated. "Appended" is a quantifier-free relation for an arbitrary character position. The buffers of a stream and its outputs are sequences of unbounded length, iterators are positions, and statements about all entries are proved for an arbitrary entry: a new buffer is made only if entry w is neither this thread's nor free, the one handed out is this thread's or was free, and all other entries keep their owner.
When flush releases the mutex another thread is let in at once: every field of the buffer is havocked there, and the rest of flush must leave them alone. Found and fixed: the write index was reset after the buffer had been released, two of the texts were never initialised, the values of a message were kept in the buffer although documented as reset, and floating point numbers of more than 99 characters were read past the end of the format buffer.''',
'C27': '''The format is a text of any length whose only known property is its termination. parseLogFormat is recursive: its recursive call is replaced by its own contract (the rest, from a later position to the end), and one call is proved to append exactly the entry that begins at its position - twelve cases (literal text, a field without a letter, one for each letter), which together cover all characters.
The content of the 100-character texts is stated for an arbitrary position, the ends of digits and prefix are functions constrained by what the statement says about them. A line is the sequence of pieces put into the stream: for an arbitrary entry, the loop body puts exactly the pieces of its kind (the zeros before milliseconds are counted).
The record sent over UDP is compared piece by piece. The regular expression library is trusted, but its pattern and format are read from the code and decoded by the documented syntax - which showed that the format used replaced a quote by itself. Found and fixed: texts of a record were not terminated when too long, literal texts and prefixes were written past the entry, a format ending inside a field was read past its end, and quotes were not escaped. The documented minimum width of other fields than milliseconds is not implemented and not claimed.''',
'C28': '''Reading: strings are a length and a function from positions to characters; one unit for each class of text lengths (together all lengths), each for texts made of digits where digits are expected and for all others. The loop over the years is cut with the invariant days = 365 (y-1970) + leap days before y, in closed form; the loop over the months with days = those of the table, in closed form; the result is compared with the sum of the parts in exact integers
(before and after it is normalised). Writing: strfTime and strfLocaltime are proved to leave exactly the text of the C library, or a terminated text if there is none, and nothing outside the buffer; calling gmtime()/localtime(), whose result all threads share, is itself a failed obligation. The four formats are then proved character by character against the digits of the calendar fields; the round trip is the composition of the two real functions, proved for every second of 1970 to 9999 and every fraction.
Found and fixed: two threads formatting at the same time got each other's times (gmtime/localtime), a time that cannot be formatted left the text uninitialised (or crashed, for the greatest time), and a text with a month beyond 12 read past the table of the months.''',
'C29': '''A string is a view (first position, length) of a source. For splitting, the places where the delimiter occurs are two uninterpreted functions of the position (std::string::find); ghost At is the position up to which the text has been handed out, and each piece appended has to be exactly the one from At to the next occurrence, so the proof does not depend on how the loop keeps its rest. For joining, elements and delimiters appended are counted and each append has to be the one whose turn it is.
Trimming, padding, changing the case and the look-up are proved for an arbitrary position or name; the algorithms of the standard library used for the case are executed on the real characters. All loops have measures: splitting by the empty delimiter failed its measure. Found and fixed: splitting by an empty delimiter never ended, and trimming an empty text read the character before it.''',
'C30': '''A text is a number, equal texts having equal numbers; what a regular expression matches and captures is an uninterpreted function of the text, after the expression has been read from the code. Ghost: the number of arguments accounted for, of positional ones among them, whether the separator has been met, and the number of arguments kept with the last of them. Every write of a value, every element appended to a list of a prefix, to the arguments kept or to the extra ones has to be the one the argument whose turn it is calls for (obligation at the write itself), and at each turn of the loop every argument passed has been accounted for - so none is taken twice, out of order or forgotten, whatever the shape of the loop.
The search among prefixes keeps "no earlier prefix matches"; failing and ending are proved in both directions. Cleaning: arguments kept are numbered increasingly (SRC), the loop that moves arguments is proved with the invariant that the place checked and the next argument kept name the same argument, and what remains is the kept ones by position, not by text. The native search compares whole parses (also the second one) with an independent model.
Found and fixed: a long option without its value was accepted with an empty value, cleaning left values of options on the command line if they were equal to a kept argument, and the parser never noted that it had parsed, so that a second parse added everything again. Not claimed: the text of the help, and prefixes with characters that have a meaning in regular expressions (they are inserted into one unescaped).''',
'C31': '''Texts are numbers as in C30. What initialisation may have to store is numbered - the file, the parameters, the positional parameters, the config-options - and whether an item calls for a value depends on the version of the directory (whether the key is there already). Every value stored has to be that of the next item that calls for one, after the observers were told of the one before (obligation at the store itself), and at the end nothing is left over; so precedence, order, completeness and notification follow whatever the shape of the loops. Reading a file is the same argument over the children of a node (TinyXML or attribute tree) with the recursive call and included files checked against their contract; loading a file decides between the two formats by its name.
Telling the observers: the sequence told is those of the key, then those of all keys. Searching: FIRST(i) is the first entry from i on that matches, next() moves to FIRST(current + 1), and never beyond the end. Stores, look-ups, declarations and registrations are functions of their own; unregistering is proved to visit the observers of every key. The native search runs whole configurations (also real files with included ones) against an independent model.
Found and fixed: calling next() again after the end moved the iterator beyond it; registering an observer treated its key as a regular expression, so that it was told of a key that is not there, or not told of one that is. Not claimed: setting the empty key (observers of all keys are told twice), the textual dump.''',
'C32': '''The text is read while it is put out: every text and number given to the stream is a step of a reader whose ghost state is the sign, the sum so far, the unit of the last amount and an amount still without its unit. A sign has to come first, an amount must not be negative and must have its unit before the next one, units have to decrease (obligations at each call), and at the end the sum with the sign is the span, in exact integers.
Found and fixed, in both functions: microseconds were written as the number of nanoseconds with the unit "us" (a thousand times too much), and of a negative span only the seconds were covered by the sign (minus one and a half seconds was "-1s-500ms").''',
'C33': '''Texts are numbers; group and name joined is an uninterpreted function of both. The monitor is a set of ghost maps over texts (groups enabled, start of each timer, static value, and for times and other values a sequence of any length for each name); every operation is executed on arbitrary such maps and compared for an arbitrary name, position and timer, so what is kept and that nothing else changes are one statement. Spare vectors are of unbounded number; a value pushed to a spare vector that still holds something fails.
Floating point operations are uninterpreted: the average has to be the sum (a recursive function, with a loop invariant "sum of the first i") divided by the number, the median the element n/2 of the sorted sequence, the extremes its ends or the extremes of any of its permutations. The summary is read piece by piece as it is put into the stream.
Found and fixed: the summary of a name without values read the middle and last element of an empty vector, and a monitor switched off recorded all the same if all groups were enabled (precedence of && and ||).''',
'C34': '''The template is instantiated with policies that are declared only, so that the access is verified against arbitrary policies through their contracts; further units execute the library's own creation and lifetime policies with both threading models and without one. Rely/guarantee over the pointer to the instance: as long as the lock is not held it may become that of another thread at any access (one unit for each access, and a fork when the lock is acquired); guarantee, checked at every write:
the lock is held, there was no instance, the object written is the one created, and a memory barrier lies between. Facts that are decided along a path (which object, how often created, scheduled) are stated as obligations over a unit constant, so that each is generated, counted and reported. No defect was found.''',
'C35': '''A text is a number, joined by an uninterpreted function; every effect on the file (opened, refused, text, line, flushed, closed, packed, removed, renamed) is a ghost log that is decided along each path. Writing a line and rotating are executed for plain and compressed logs, open or not, with arbitrary days and settings;
the loop that packs a file has the invariant that everything but the part read last is in the archive, with arbitrary results of reading, writing and closing. Three defects were found and repaired: packing reported success when a file could not be opened, read or closed; the log was removed on rotation even if it could not be packed; and a compressed log was opened in a mode that zlib refuses, so that it never got a line.
The native search writes, rotates and packs real files in a scratch directory, with archives that cannot be created (a directory of that name, a link to /dev/full).''',
}
