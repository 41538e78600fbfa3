"""The properties: text and anchors."""
NOTE = 'Every obligation is discharged from the current source on each run, for all inputs and all iterations; trusted: the verifier itself, clang, z3/cvc5, assumed contracts of the C++ standard library (listed in the evidence). '
PROPS = [
 dict(id='C01', title='Stacks and the stack of stacks keep their discipline in every mode',
  statement='A stack returns pushed values last in, first out; in queue mode it takes them from the other end and in invert mode it pushes onto the other end, and taking from an empty stack gives 0 and leaves it empty. Reading the value at a depth without removing it gives what that many pops would deliver last, and 0 outside the stack. A new stack on the stack of stacks is empty and has the mode last set for all of them, and copies hold the same values in the same order.',
  over=['inputs', 'histories'], forall='every stack size and content, every 64-bit value, every mode combination, every sequence of operations',
  why='The unit tests push and pop a handful of values in each mode; the law quantifies over every content, mode and operation.',
  files=['src/Stack.cpp', 'src/StackStack.cpp', 'src/include/Stack.h', 'src/include/StackStack.h'], mech=[('end selection by mode', 'Stack::pop / push / peek / get'), ('mode carried to new stacks', 'StackStack::push / insert / setMode')], observe=['stack contents', 'return values'],
  note=NOTE),
 dict(id='C02', title='Vectors are componentwise 64-bit arithmetic',
  statement='Adding, subtracting, negating, assigning and copying vectors act on every component separately in 64-bit two\'s-complement arithmetic, a missing component counting as 0; a quarter turn left or right maps (x, y, rest) to (y, -x, rest) and (-y, x, rest). Equality, ordering (last component first) and hash see only the components, and no result keeps trailing zero components. Operands are unchanged and may be the same object.',
  over=['inputs'], forall='every component value, every pair of lengths up to 3 (4 in the thorough tier)',
  why='Positions, deltas and storage offsets of every program go through these operations; the unit tests check a few small vectors of equal length.',
  files=['src/Vector.cpp', 'src/include/Vector.h'], mech=[('zero extension and normalisation', 'Vector::get / normalize'), ('turns', 'Vector::left / right')], observe=['components', 'number of components', 'comparison results'],
  note=NOTE + 'The number of components is enumerated (0 to 3, thorough: 4), the values are not bounded.'),
 dict(id='C03', title='Funge-space is a total map: every cell holds the last value stored in it',
  statement="Funge-space assigns a value to every vector. Storing a value in a cell makes exactly that cell read back as that value (cut to a signed byte when cells are characters), storing a blank makes it blank again, and every other cell, stored or never stored, keeps its value; a cell never stored is blank. Vectors that differ only in trailing zero components are the same cell. Reading changes nothing.",
  over=['inputs', 'histories'], forall='every address, every value, every contents of Funge-space, both cell sizes; any history of stores follows by induction over put',
  why='The map is unbounded and histories of stores are unbounded; the unit tests store a handful of values at small addresses.',
  files=['src/Field.cpp', 'src/include/Field.h', 'src/Vector.cpp'], mech=[('sparse map with blank as absence', 'Field::put / Field::get'), ('key equality and hash', 'Vector::operator== / std::hash<Vector>')], observe=['value of an arbitrary cell before and after'], note=NOTE + 'Vectors of 1 to 3 components. std::unordered_map is assumed to be a map.'),
 dict(id='C04', title='The bounds of Funge-space are exact as cells are stored and blanked',
  statement="The bounds start at 0 and get a dimension when a vector with that many components is stored to. Storing a value widens the bounds just as far as needed to include the cell; blanking a cell that does not lie on a bound changes no bound, and blanking one that does tightens that bound to the outermost cell left, so that every cell holding a value always lies between the least and greatest point.",
  over=['inputs', 'histories'], forall='every address, value and contents of Funge-space, 0 to 3 dimensions with bounds; histories by induction over put (the containment is an invariant)',
  why='Re-tightening scans all of an unbounded map after an arbitrary history of stores; tests look at the bounds of small loaded programs.',
  files=['src/Field.cpp', 'src/include/Field.h'], mech=[('growing', 'Field::put'), ('re-scan when a cell on a bound is blanked', 'Field::put'), ('size and bounds', 'Field::min / max / size')], observe=['Field::min, max, size'], note=NOTE + 'Vectors of 1 to 3 components. When no cell is left the bound becomes the extreme value the scan starts from, as in the code. std::unordered_map is assumed to visit every entry once.'),
 dict(id='C05', title='The pointer wraps around Funge-space and moves by its delta',
  statement='Moving the pointer adds its delta in every dimension, so that flying deltas keep their step. A step that stays within the bounds of Funge-space goes exactly there; one that leaves them re-enters at the opposite side: in the 80 by 25 torus of Funge-93 a coordinate that passes an edge goes to the opposite edge, and in the Lahey-line topology of Funge-98 the pointer goes back along its own line to the furthest cell that is still within the bounds, from there on in the same delta. Moving changes nothing else of the machine, and a pointer is reported to be inside exactly when every coordinate lies between the least and the greatest point.',
  over=['inputs', 'configurations'], forall='every position, delta and bounds, 1 to 3 dimensions, both topologies',
  why='Tests wrap small programs at cardinal deltas; a flying delta that leaves an arbitrary box needs the search backwards for every line.',
  files=['src/InstructionPointer.cpp', 'src/Field.cpp', 'src/Vector.cpp'], mech=[('wrapping', 'InstructionPointer::next'), ('inside test', 'InstructionPointer::inField')], observe=['position', 'delta'], note=NOTE + 'In the Lahey topology the step is specified for a pointer inside the bounds or one step from them (from elsewhere the code searches without end); coordinates are taken where position plus delta does not overflow. That the backward search ends is not proved.'),
 dict(id='C06', title='Arithmetic, comparison and stack-shuffling instructions on 64-bit cells',
  statement='The digits, + - * / % ` ! $ : \\ n and z take their operands from the current stack in the documented order and leave exactly the documented result there, computed on 64-bit two\'s-complement values with division and remainder by zero giving 0. Operands missing from the stack count as 0. Nothing else of the machine changes, and no operand value crashes the interpreter.',
  over=['inputs'], forall='every stack content, all 2^64 values of each operand, every stack mode and configuration',
  why='Feature tests run a few sample programs with small operands; extremes such as the smallest value divided by -1 and empty stacks are not reached.',
  files=['src/Unefunge93Strategy.cpp', 'src/Unefunge98Strategy.cpp', 'src/Stack.cpp', 'src/FungeStateNormal.cpp'], mech=[('one member function per instruction', 'Unefunge93Strategy::instruction*')], observe=['top stack after the instruction'], note=NOTE),
 dict(id='C07', title='Direction instructions set exactly the documented delta',
  statement='> < ^ v h l r x [ ] w _ | m ? and @ change the delta (or stop the pointer) exactly as documented (? to one of the two directions along one of the axes, each of them possible), for every current delta, every popped value and every number of dimensions they exist in; in hover mode the direction is added to the delta instead. [ ] and w rotate the first two components by a quarter turn and leave the others alone. Nothing else of the machine changes, apart from the bracket swap of switch mode.',
  over=['inputs', 'configurations'], forall='every delta vector, stack content, mode combination, dimensions 1 to 3',
  why='Tests use cardinal deltas; flying deltas, hover mode, the h/l inversion option and three dimensions are combinations they do not enumerate.',
  files=['src/Unefunge93Strategy.cpp', 'src/Befunge93Strategy.cpp', 'src/Befunge98Strategy.cpp', 'src/Trefunge98Strategy.cpp', 'src/InstructionPointer.cpp', 'src/Vector.cpp'], mech=[('setDelta with hover mode', 'InstructionPointer::setDelta'), ('rotation', 'Vector::left / right')], observe=['delta', 'stopped flag', 'cell under the pointer in switch mode'], note=NOTE),
 dict(id='C08', title='g p \' and s read and write the addressed cell',
  statement='g pushes the value of the cell at the popped vector plus the storage offset and p stores the popped value there; \' moves forward and pushes the cell reached, s moves forward and stores the popped value there. Whole 64-bit values are read and written (cut to a signed byte when cells are characters), and no other cell changes.',
  over=['inputs', 'histories'], forall='every address vector, storage offset, cell contents, value and cell size, dimensions 1 to 3',
  why='Tests store and load a few small values near the origin with no storage offset.',
  files=['src/Unefunge93Strategy.cpp', 'src/Unefunge98Strategy.cpp', 'src/Field.cpp', 'src/util/FungeUtilities.cpp'], mech=[('offset addition', 'Unefunge93Strategy::instructionGet / instructionPut'), ('vector pop order', 'popVector')], observe=['cells', 'top stack'], note=NOTE),
 dict(id='C09', title='{ } and u transfer values between stacks exactly',
  statement='{ pops n, opens a new stack, moves the top n values to it in order (or pushes |n| zeros onto the old one), pushes the storage offset onto the old stack and sets the offset to the position after the pointer; } restores the offset, moves the top n values back in order (or discards |n| of the old stack) and removes the top stack, and { followed by } restores every value. u moves n values one by one between the two top stacks in the documented direction. With one stack only, } and u fail and change nothing but what switch mode rewrites.',
  over=['inputs', 'histories'], forall='every n, every number, size and content of stacks, every stack mode, dimensions 1 to 3',
  why='The count n and the stack contents are unbounded; tests try a few small n on short stacks.',
  files=['src/Unefunge98Strategy.cpp', 'src/StackStack.cpp', 'src/Stack.cpp', 'src/util/FungeUtilities.cpp'], mech=[('transfer loops', 'Unefunge98Strategy::instructionBegin / instructionEnd / instructionUnder')], observe=['contents of every stack', 'storage offset'], note=NOTE + 'Stacks hold fewer than 2^60 values; a transfer count larger than memory is outside.'),
 dict(id='C10', title='String mode pushes the cells between the quotes in the chosen style',
  statement='" switches to string mode, in which every cell reached is pushed with its whole 64-bit value instead of executed until the closing quote, which switches back and pushes nothing. In multispace style every blank is pushed; in SGML style a run of blanks pushes one and the other cells of the run take no time; in C style a backslash pushes the character its successor stands for (0 a b t n v f r e) or the successor itself. Position, delta, storage, cells and the other stacks stay as they are apart from the step over an escaped cell.',
  over=['inputs', 'histories'], forall='every cell value, closing character, value met before, string style, stack content and mode; strings of any length by induction over the cells',
  why='Strings are unbounded and cells hold any 64-bit value; the tests print a few short texts in one style.',
  files=['src/FungeStateString.cpp', 'src/FungeStateNormal.cpp', 'src/FungeRunner.cpp', 'src/Unefunge93Strategy.cpp'], mech=[('blank folding and escapes', 'FungeStateString::execute'), ('change of state', 'FungeRunner::setState / Unefunge93Strategy::instructionString')], observe=['stack contents', 'position', 'state after the cell'], note=NOTE),
 dict(id='C22', title='. , & and ~ print and read exactly one value',
  statement='. pops a value and prints it in decimal, all 64 bits with its sign, followed by one blank; , pops a value and prints its low byte. & skips input up to the next digit, reads the whole run of digits as a decimal number in 64-bit arithmetic, pushes it and leaves the character after the run unread; ~ reads one character, dropping a carriage return in front of it, and pushes it as a value from 0 to 255. At the end of the input & and ~ push nothing and fail, so that the pointer reflects. Nothing else of the machine changes.',
  over=['inputs', 'histories'], forall='every 64-bit value, stack content and mode; every input, of any length',
  why='Input is an unbounded sequence of bytes and numbers of any length; tests feed a few short lines.',
  files=['src/Unefunge93Strategy.cpp', 'src/util/FungeUtilities.cpp'], mech=[('digit loop', 'Unefunge93Strategy::instructionInInt'), ('carriage return', 'Unefunge93Strategy::instructionInChar')], observe=['bytes written', 'bytes consumed', 'stack contents', 'reflection'], note=NOTE + 'The standard input is a sequence of bytes that ends once; iostreams are assumed to print and read as specified.'),
 dict(id='C24', title='A tick: one instruction, then one step; instructions without time are free',
  statement='In one tick the pointer executes the cell under it. An instruction that succeeds is followed by one step of the pointer (none when it stopped the pointer); one that takes no time (blanks, semicolon jumps, folded blanks of a string) is followed by a step and the next cell within the same tick; one that cannot be carried out (unknown, unavailable or failed) reverses the pointer before it steps; one that waits for input leaves the pointer where it is. Nothing else happens in a tick.',
  over=['inputs', 'histories'], forall='every cell, every effect and result an instruction can have, any number of free instructions in one tick (by induction), every delta, position and topology',
  why='Tests see ticks only through whole programs; the number of free cells in one tick is unbounded and failing instructions are rare in them.',
  files=['src/FungeRunner.cpp', 'src/InstructionPointer.cpp'], mech=[('tick loop', 'FungeRunner::tick')], observe=['position', 'delta', 'number of instructions executed'], note=NOTE + 'The instruction is represented by an arbitrary effect on the whole machine with an arbitrary result (its own contract is the subject of the other properties).'),
 dict(id='C20', title='BITW, BOOL, FRTH, ORTH and scalar TOYS instructions are exact',
  statement="With the fingerprint loaded, the instructions of BITW and BOOL (A O X N, and shifts L R by 0 to 63), FRTH (D L O P R), ORTH (A O E G P V W X Y Z) and TOYS (A B D H I L N Q R T W X Y Z) take their operands from the stack in the documented order and have exactly the documented effect, on 64-bit values and for every stack content, position and delta: in particular FRTH P and L copy or roll the value at any depth in either direction and D pushes the depth before itself; ORTH G and P address cells as x, y with y popped second and ignore the storage offset; TOYS T turns along the popped dimension, W waits, reflects or passes after comparing with the cell addressed, X Y Z step one cell along an axis. Instructions whose argument is out of range reflect; nothing else of the machine changes.",
  over=['inputs'], forall='every operand (shift counts 0 to 63 for BITW and -63 to 63 for TOYS H; roll counts up to 2^40), every stack content and mode, position, delta and hover / invert / queue combination',
  why='The feature tests run one sample per instruction; extremes, empty stacks and stack modes are not enumerated.',
  files=['src/fingerprint/FingerprintBITW.cpp', 'src/fingerprint/FingerprintBOOL.cpp', 'src/fingerprint/FingerprintFRTH.cpp', 'src/fingerprint/FingerprintORTH.cpp', 'src/fingerprint/FingerprintTOYS.cpp'],
  mech=[('one case per instruction', 'Fingerprint*::execute')], observe=['stack contents', 'cells', 'position', 'delta'], note=NOTE),
 dict(id='C21', title='SUBR calls, returns and jumps keep the values they carry',
  statement='With SUBR loaded, C pops n and an address, carries the top n values over the position and delta it pushes, and continues at that address (one cell before it, so that the next step reaches it) moving along the first axis; R pops n, restores the delta and position below the n values carried and keeps those n values in order, so that a call followed by a return leaves the carried values as they were; J jumps. Addresses are absolute after A and relative to the current position after O. A negative count reflects. Nothing else of the machine changes.',
  over=['inputs', 'histories'], forall='every count (up to 2^40), address, stack content and mode, position and delta',
  why='The number of values carried and the nesting of calls are unbounded; the tests try single calls with few values.',
  files=['src/fingerprint/FingerprintSUBR.cpp', 'src/util/FungeUtilities.cpp'], mech=[('transfer loops', 'FingerprintSUBR::execute')], observe=['stack contents', 'position', 'delta'], note=NOTE),
 dict(id='C23', title='# ; j and k: skipping, jumping and repeating',
  statement='# skips the next cell; ; skips to the matching ; along the line of the pointer; j pops n and jumps n cells over, backwards when n is negative, ending with the delta it had. k pops n and executes the next instruction on the path (blanks and cells between semicolons are not instructions) exactly n times with the pointer where k is, 0 skipping that instruction and a negative n doing nothing. Nothing else of the machine changes beyond what the repeated instruction does.',
  over=['inputs', 'histories'], forall='every delta, position, contents of Funge-space, both topologies, every popped 64-bit count',
  why='The number of repetitions and the length of a comment are unbounded; tests try small counts in straight lines.',
  files=['src/Unefunge93Strategy.cpp', 'src/Unefunge98Strategy.cpp', 'src/InstructionPointer.cpp', 'src/FungeRunner.cpp'], mech=[('repetition', 'Unefunge98Strategy::instructionIterate'), ('jump loop', 'Unefunge98Strategy::instructionJumpForward'), ('skip to the next ;', 'Unefunge98Strategy::instructionJumpOver')], observe=['position', 'delta', 'stacks', 'cells'], note=NOTE + 'k is proved against an arbitrary repeated instruction when the cell after k is not a blank or ; ; the search over blanks and comments after k is a bounded stand-in (sampled lines against the specification). Errors returned by the repeated instruction are ignored by k, as in the code.'),
 dict(id='C12', title='Disabled permissions: no command, file, thread or fingerprint without the flag',
  statement='No instruction of a program runs a command when execution is disabled (-fno-execute), opens, reads, creates, changes or removes a file or directory when file access is disabled (-fno-filesystem), starts another pointer when concurrency is disabled (-fno-concurrent) or loads or unloads a fingerprint when fingerprints are disabled (-fno-fingerprint), whatever the state of the machine and whichever instruction or fingerprint it uses. The instructions concerned (= ; i o, DIRF C M R, F of *><>; t; ( ); PERL E I) then fail, pop nothing and change nothing (but the bracket swap of ( and ) in switch mode). With execution allowed = pops a 0-terminated string, runs exactly that command and pushes the value returned.',
  over=['inputs', 'configurations', 'histories'], forall='every instruction of every built-in dialect and fingerprint, every machine state, every combination of the other flags; every command string',
  why='A sandbox is a statement about what never happens; tests run the instructions with everything allowed.',
  files=['src/Unefunge98Strategy.cpp', 'src/StarfishStrategy.cpp', 'src/fingerprint', 'src/FungeUniverse.cpp', 'src/FingerprintStrategy.cpp'], mech=[('flag tests', 'Unefunge98Strategy::instructionExecute / FileIn / FileOut / Thread / Load / Unload'), ('flags of the universe', 'FungeUniverse::allowExecute / allowFilesystem / allowConcurrent / allowFingerprints')], observe=['commands run', 'files touched', 'pointers created', 'reflection', 'stack contents'], note=NOTE + 'Library fingerprints (fing/*.fl) are files read with the fingerprint permission, as documented. Which functions can reach the outside world is read off the direct calls of the current tree; functions reached only through a pointer that is neither an instruction nor a fingerprint leave the check undecided.'),
 dict(id='C13', title='Loading and unloading fingerprints keeps the meanings of A to Z in order',
  statement='With fingerprints enabled, ( pops n and then n values whose low-order bytes spell the number of a fingerprint (each value added to 256 times what came before). If there is such a fingerprint, every instruction documented for it gets that meaning on top of the ones it had, the number and 1 are pushed, and nothing else changes; ) with the number of a fingerprint loaded takes exactly one meaning of each of its instructions away again, so that the meanings covered come back and loads and unloads nest like brackets, any number of times. The instruction executed for a letter is the one of the fingerprint loaded last among those that give the letter a meaning, and in dive mode only the movement instructions of a fingerprint act. A number no fingerprint has, or unloading one never loaded, fails and changes nothing but what it popped; with fingerprints disabled both fail and pop nothing. In switch mode the bracket is swapped in every case.',
  over=['inputs', 'histories'], forall='each of the 25 built-in fingerprints (all but LONG), any number of meanings of any letter before, any list of fingerprints loaded before, every count, stack content, mode and flag',
  why='Tests load one fingerprint and use it; overlaying several, loading twice, unloading in order and unknown numbers with any stack content are histories they do not enumerate.',
  files=['src/FingerprintStrategy.cpp', 'src/Fingerprint.cpp', 'src/FungeStateNormal.cpp', 'src/FungeRunner.cpp', 'src/Unefunge98Strategy.cpp', 'src/fingerprint'], mech=[('meanings are stacks', 'FungeStateNormal::pushSemantic / popSemantic'), ('load and unload', 'FingerprintStrategy::load / unload'), ('binding of the letters', 'Fingerprint::activate'), ('brackets', 'Unefunge98Strategy::instructionLoad / instructionUnload')], observe=['which instruction a letter executes', 'number of meanings of every letter', 'stack contents', 'reflection'], note=NOTE + 'Fingerprints in library files (fing/*.fl) are outside: their loader is replaced by "no such file". A ) for a fingerprint whose meanings are not the topmost ones takes away the topmost meaning of each of its letters, as in the code.'),
 dict(id='C25', title='The FISH fingerprint: mirrors, stack rotation, fisherman and dive mode',
  statement="With FISH loaded, C skips the next cell when it pops 0; H V M N reflect the delta in the first two dimensions as documented (H negates y, V negates x, M and N swap them with and without negating); L and R rotate the whole current stack by one value, S reverses it and T rotates its top three, keeping every value and leaving an empty stack alone; F turns down and up alternately when moving horizontally and otherwise goes back to the last horizontal delta; D and I select the stack below or above and reflect when there is none; U and O enter and leave dive mode, in which every instruction other than movement is skipped. Nothing else of the machine changes.",
  over=['inputs', 'histories'], forall='every stack size and content, number of stacks and selected stack, delta, mode combination',
  why='Stack sizes and deltas are unbounded; the tests use one small stack and cardinal deltas.',
  files=['src/fingerprint/FingerprintFISH.cpp', 'src/StackStack.cpp', 'src/FungeUniverse.cpp'], mech=[('rotation loops', 'FingerprintFISH::execute'), ('fisherman cache', 'FingerprintFISH::fishermanChange')], observe=['stack contents', 'delta', 'selected stack', 'mode'], note=NOTE),
 dict(id='C26', title='MODE toggles exactly its mode for every stack',
  statement='With MODE loaded, H I Q and S toggle hover, invert, queue and switch mode of the universe and of every stack of the pointer executing it, and nothing else: no stack content, position, delta or cell changes and the other modes stay as they are, so that executing the instruction twice restores the machine.',
  over=['inputs', 'configurations'], forall='every combination of modes, every number and content of stacks',
  why='Mode combinations and stack-of-stack contents are not enumerated by the tests.',
  files=['src/fingerprint/FingerprintMODE.cpp', 'src/FungeUniverse.cpp', 'src/FungeRunner.cpp', 'src/StackStack.cpp'], mech=[('mode propagation', 'FungeUniverse::updateMode / FungeRunner::setMode / StackStack::setMode')], observe=['mode', 'stack modes'], note=NOTE),
 dict(id='C17', title='Pointers split, take turns, move between universes and end as specified',
  statement="t makes one new pointer: a copy of every stack of the parent, the parent's storage offset, the parent's delta reversed, one step from the parent along it, acting on itself and sharing nothing with the parent but Funge-space; the parent is unchanged and without concurrency t reflects. The pointers of a universe take turns in the order they joined: in its turn a running pointer executes one instruction and then goes behind all others, one that has stopped leaves for good, one that moved to another universe continues there and is not lost. q takes the exit code from the stack and ends every pointer; a universe is running exactly while it has pointers and nobody quit. Whoever waits for a universe is told, and the list of pointers is only used with its lock held.",
  over=['inputs', 'histories', 'schedules'], forall='every stack stack, position, delta, number of pointers and effect of one turn on the list; histories of turns by induction over one turn; dimensions 1 to 3',
  why='Programs with several pointers are tested by one or two samples; order of turns and independence of the copies must hold for every number of pointers and stacks.',
  files=['src/Unefunge98Strategy.cpp', 'src/FungeUniverse.cpp', 'src/FungeRunner.cpp', 'src/StackStack.cpp', 'src/InstructionPointer.cpp'], mech=[('copy of a pointer', 'FungeRunner(const FungeRunner&) / StackStack copy'), ('round robin', 'FungeUniverse::operator()'), ('lock and wake-up', 'addRunner / transferRunner / killAll')], observe=['list of pointers', 'stacks, position, delta of the new pointer', 'exit code'],
  note=NOTE + 'Cooperative threads (the default); one turn is abstracted by a contract: it may stop pointers, append new ones, move the pointer or quit. Mutex, condition variable and semaphore are ghost flags (a lock may not be taken twice, must be free in the end); progress of waiting threads and native threads are not covered.'),
 dict(id='C14', title='Files enter and leave Funge-space cell by cell: loading, i and o',
  statement="Loading text puts its characters into Funge-space from the start position on: one cell per character along the first axis, a line end (CR, LF or CR LF) starts the next row at the start column (it is ignored in one dimension), a form feed starts the next plane in three dimensions and one line end directly behind it is part of it; blanks leave the cells they meet as they are. Loading binary puts every byte, line ends included, in one row. The reported size is the bounding box of the text. i pops a name, flags and a position (relative to the storage offset), loads the file there and pushes the size and the position popped; a file that cannot be opened reflects, and without file access i and o fail. o pops a name, flags, a position and a size and writes the region row by row, the low byte of each cell, each row ended by a line end; in text form the blanks at the end of a row are left out. Cells outside the text or region, the position, delta and other stack values stay as they are.",
  over=['inputs', 'histories'], forall='every text of any length (by induction over its characters), every start position, storage offset, stack content and mode, dimensions 1 to 3; every region of one plane with positive sizes',
  why='Texts and regions are unbounded and the mixture of line ends, form feeds and blanks is a language; the tests load a few dozen regular files.',
  files=['src/Field.cpp', 'src/Unefunge98Strategy.cpp', 'src/util/FungeUtilities.cpp'], mech=[('character loop', 'Field::parse'), ('region loops', 'Field::dump'), ('arguments and result', 'Unefunge98Strategy::instructionFileIn / instructionFileOut')], observe=['cells of Funge-space', 'bytes written', 'stack contents', 'reflection'],
  note=NOTE + 'File streams are assumed to deliver and take bytes as specified; what is stored is compared as the sequence of calls of Field::put (C03 says what each does). Vertical tabs in three dimensions are outside. A region of several planes, one of size 0 and line ends that trail a text are outside (see KNOWN_FINDINGS.txt).'),
 dict(id='C18', title='><>: every instruction on doubles, and what goes wrong ends the program',
  statement='With -std=fish every instruction of ><> (numbers, directions, mirrors, x ! ? ., + - * , %, = ( ), strings, : ~ $ @ l { } r [ ], o n i & g p ;) takes its operands from the stack in the documented order and has exactly the documented effect on values that are doubles: pushes are exact, arithmetic is that of doubles, = ( ) push 1 or 0, { } r rotate and reverse the whole current stack, [ moves values to a new stack and ] moves all of them back in the order they had, each stack has a register of its own for &, g and p address cells by the truncated values, o prints a character, n a number, and i reads a byte or pushes -1 at the end of the input. Too few values, an unknown instruction or a division by zero print "something smells fishy...", stop every pointer and end the program with exit code 1. In string mode the cells up to the closing quote (either kind) are pushed.',
  over=['inputs', 'histories'], forall='every value (bit pattern of a double), stack size and content, number of stacks, position and delta; dimensions 2 (thorough: 1 and 3)',
  why='Values are doubles, stacks and stacks of stacks unbounded; the tests run a dozen programs with small integers.',
  files=['src/FishStrategy.cpp', 'src/FishStackStrategy.cpp', 'src/FungeStateString.cpp', 'src/FungeRunner.cpp', 'src/StackStack.cpp'], mech=[('one function per instruction', 'FishStrategy'), ('errors', 'FishStrategy / FungeRunner')], observe=['stack contents', 'position', 'delta', 'bytes written', 'exit code'],
  note=NOTE + 'Operations on doubles are uninterpreted functions with a fixed meaning on constants: it is proved which operation is applied to which values in which order. A negative count of [ is a precondition.'),
 dict(id='C19', title='*><>: fisherman, stack-independent calls, dive mode and the errors of ><>',
  statement="With -std=starfish the instructions *><> adds to ><> act as documented: the fisherman ` goes down and up alternately when the pointer moves horizontally and otherwise back to the last horizontal direction; C pushes the position it was met at and jumps to the popped cell, R returns to the position left by C; u and O enter and leave dive mode, in which only movement acts and everything else, also unknown instructions, is passed over; I and D select the stack above and below. Turns made by any instruction are remembered for the fisherman. Errors end the program as in ><>.",
  over=['inputs', 'histories'], forall='every value, stack size and content, number of stacks and selected stack, position and delta',
  why='Histories of turns, calls and dives are unbounded; the tests run a few programs.',
  files=['src/StarfishStrategy.cpp', 'src/FishStrategy.cpp', 'src/FungeRunner.cpp', 'src/StackStack.cpp'], mech=[('one function per instruction', 'StarfishStrategy')], observe=['stack contents', 'position', 'delta', 'selected stack', 'exit code'],
  note=NOTE + 'Operations on doubles as in C18. Not covered: F (files), S (sleep) and the clock instructions h m s.'),
]
NA = []
