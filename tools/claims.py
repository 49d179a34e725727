SW = "Covers every value of the operand, location counter and origin, for every CPU, switch, instruction and operand syntax. Trusts clang's lowering to IR, the C library models and the independently written opcode matrix."
claim("C01", A + " + exhaustive table comparison", SW)
claim("C03", A + ": written bytes vs location counter", SW)
claim("C04", A + ": addressing form family and operand range", SW)
claim("C05", A + ": symbolic displacement", SW)
claim("C06", A + ": symbolic long-branch pattern", SW)
claim("C07", A + ": operand range on error-free paths", SW)
claim("C08", A + ": written byte sequence vs items", "All values and characters; lists up to three items, strings up to 70 characters, fill counts up to 1000, files up to 5 bytes.")
claim("C09", A + ": header bytes and position invariant", "Every emitting statement kind, from the start of the image and from an arbitrary position; all values and addresses.")
claim("C24", A + ": symbolic result terms per operator and path", "All 22 operators on all pairs of 32-bit operands, through the real node constructor and expander. The tokens the scanner makes of each operator's spelling, and the operator node the grammar action builds from the token, are followed as well.")
claim("C02", A + ": scanner automaton and LR tables of the generated sources, semantic actions interpreted", "Every keyword in both letter cases for every automaton state on the way, every sign, all operand forms of an instruction, every number notation with symbolic digits (bounded number of digits; the conversion itself is strtoul in the stated base). Statements as a whole, not arbitrary programs.")
claim("C25", A + ": LR tables walked over operator sequences, actions interpreted as term constructors", "All ordered pairs of binary operators, every prefix operator before and after every binary one, parentheses, in the generated parser's own tables. Longer sequences follow from the pairwise shift/reduce decisions in the same table entries.")
claim("C26", A + ": operand sets at every division and shift", "Every division, remainder and shift reached from the operator handlers, for all operand values.")
claim("C28", A + ": listing text modelled by character vs written bytes", "Every instruction and data statement with the real listing code; strings up to four characters, lists up to three items. The writer that merges rows with source lines is followed over all histories of up to four lines, repeated rows and print switches, with include files.")
claim("C14", A + ": assigned value, reference value and change counter", "Constants, labels and local labels, plain and inside a section, first and repeated assignments with arbitrary 32-bit values, from known and forward-referenced states; anonymous labels among others.")
claim("C30", A + ": order facts on every path of the table search", "Up to four definitions in the file among six entries, in several insertion orders, all line numbers; references of one to four signs. References that stay unresolved are not counted against the program by the assembler: known finding of C10.")
claim("C15", A + ": hash and comparison terms over symbolic spellings", "Names of up to 8 symbolic characters for equal spellings, 3 for unequal ones (loops treat a position by its parity only); symbols of every kind under every spelling of name, scope and label.")
claim("C16", A + ": one step from every bucket shape", "Hash and comparison uninterpreted; lists of up to three entries with every pattern of equal keys, growth from a small capacity at two limits.")
claim("C10", A + ": gate facts at every opened file, pass loop generalised", "Every combination of errors, changed and unresolved symbols over any number of passes; command lines with every kind of output. Undefined names of every kind (plain, local, section-qualified, anonymous), in and out of sections.")
claim("C11", A + ": error ghost vs exit status; call-graph effect rule", "Any number of passes and errors, fifteen kinds of rejected command lines, every error number; stores to the error count and exit statuses over the whole call graph below the parser.")
claim("C12", A + ": failing writes at every point vs reported errors", "Every emitting statement kind, first (behind a header or not) and later, each single write failing or short; image close and flush failing in every kind of run. Failures of the symbol and listing files are outside the property.")
claim("C13", A + ": mod-set over the call graph, entry state of each pass compared", "Every variable any function below the parser can change is made arbitrary and must be back at its first value when the second and the final pass begin; carried state is a fixed list, variables set before use are recognised by dataflow or listed.")
claim("C20", A + ": every fopen may fail; null-file uses and reports per path", "Sources, .include, .load, listing sources (with and without search directories), output, symbol, list and log file.")
claim("C18", A + ": scanner automaton and its conditional rules followed from every stack shape", "Every directive and text in skipped and selected regions, in every letter case, with a stack of conditionals of any depth (symbolic index); expression conditionals through the grammar's tables and the expander. The file's end inside a skipped region is included; an unfinished comment continuing in the next file is not.")
claim("C19", A + ": include and end-of-file rules over the buffer stack", "Main file, include chain of any depth (symbolic stack index), names with and without search directories, files that cannot be opened or read. Recursive includes are not bounded (C32).")
claim("C23", A + ": stack index facts at every top and pop", "Every closing and alternative directive, end of file and section end, from stacks of any depth including empty; every function of the stack library from every index. Heights beyond memory are not considered.")
claim("C35", A + ": generated loop code evaluated on every register value; order of conditions and bodies per path", "All 65536 pairs of register bounds in both directions for both registers; directive loops for two expansions of the body, the second from arbitrary variable, counter and condition. Processor flags are unknown after the body; `.downto 0` does not work on the processor (known finding, the repository's tests pin the code).")
claim("C17", A + ": naming and nesting state compared at every return of every construct", "Every kind of node, from inside and outside sections, labels, loops and calls, with and without reported errors; blocks by induction over the nesting (statements inside are stand-ins). Up to three parameters and two calls deep.")
claim("C34", A + ": parameters evaluated inside the body vs arguments in the caller; label scopes of calls compared", "Calls with up to three (once twelve) arguments of every kind, three calls deep; 35 calls of each of seven macros incl. forced call numbers; local labels over three passes of five programs with symbolic addresses. The macro facility has no recursion.")
claim("C29", A + ": settings per argument list vs an independent reading of the words", "Every ordered pair of options in both prefixes, repeated options at a distance, every option without its value, symbol values in every notation incl. open text of any length; bounds of the argument array. File names that look like options are options.")
claim("C27", A + ": converted text vs pieces, bounds of text and copy", "Every piece alone, in pairs and triples, ordinary characters symbolic; longer texts rest on the conversion depending only on characters from its position on.")
NA["C31"] = "The converter (eolconvert) is written with C++ iostreams and standard containers; deciding it on the IR needs models of the streams' state, buffers and exceptions that would replace the very behaviour in question, and no property of the order of all bytes of a file of any length follows from its call sites alone."
NA["C32"] = "Termination of assembly quantifies over the values a source program computes in its own loops (.for, .while, .do run for as long as their conditions hold) and over files including each other; no ranking function exists in the source, and programs with endless loops are legal input, so no sound static argument is in reach."
NA["C33"] = "Whether the values of a program settle within the pass limit depends on the run-time fixpoint of the program's own addresses; forward-referenced sizes may oscillate, and no static argument over the assembler's source bounds this."
claim("C21", A + ": every store at every formatting or copying site within its object for texts of symbolic length", "Names, labels, sections, file names, directories, source lines and message parameters of symbolic length up to 2^20; listing rows with symbolic characters; macro arguments and stacks of any number. Converted string text is C27's subject, the argument array C29's.")
claim("C22", A + ": lifetime of every block of memory over whole assemblies, scanner actions, dictionary, stack and row operations", "Whole assemblies for each kind of statement alone and in every ordered pair (dictionaries with few lists, so they chain and grow), verbose, with two files and with files that cannot be opened; every scanner rule behind every kept token and the next token; sequences of dictionary and stack operations; texts, rows and tables of any length (C21's situations). Longer programs rest on statements restoring the state around them (C17).")
LATER = "no check registered yet"
for _p in ["C%02d" % n for n in range(1, 36)]:
    if _p not in {c["property"] for c in C}: NA.setdefault(_p, LATER)
