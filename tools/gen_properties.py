#!/usr/bin/env python3
"""Source of properties.jsonl (run after editing)."""
import json, os
P = []
def prop(id, title, statement, over, q, why, files, mech, observe=None, state=None):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=q), why_tests_cant=why,
        anchors=dict(files=["CMakePasm/source/"+f if not f.startswith("CMakePasm") else f for f in files],
                     state=[dict(name=n, meaning=m, where=w) for n, m, w in (state or [])],
                     mechanism=[dict(name=n, where=w) for n, w in mech],
                     observe_at=observe or [], hook_needed=None)))

prop("C01", "Every instruction and addressing mode has its documented opcode",
 "For each supported CPU (6502, 65C02), every instruction in every addressing mode yields exactly the opcode byte of the published instruction set, and every combination that CPU does not have is rejected instead of assembled. Undocumented (illegal) 6502 instructions are available only when they have been enabled, with their published opcodes.",
 ["inputs","configurations"], "all instructions x addressing modes x CPU selection x illegal-opcode switch (plus out-of-range indices)",
 "The tests compare sample rows with hand lists that were copied from the same table; a wrong entry, a swapped row or a gate that lets one family through in one mode is invisible to them.",
 ["opcodes.cc","opcodes.h"], [("opcode tables and look-up","opcodes.cc: get_op_code, ops6502, ops65c02")], ["get_op_code"])

prop("C02", "Source spelling selects the right instruction, operand form and number base",
 "Each mnemonic, in any letter case, is read as that instruction and no other; each directive keyword and its aliases name the same directive; each operand syntax selects the addressing mode it denotes; and a number literal is converted in the base its notation announces (`$` hex, `%` and `0b` binary, plain digits decimal, quoted character its code).",
 ["inputs"], "all mnemonics and directive keywords in all letter cases, all operand syntaxes, all literal notations",
 "The tests build nodes directly and never exercise the scanner/grammar pair systematically; one shadowed or swapped scanner rule affects one spelling only.",
 ["pasm.l","pasm.y"], [("scanner rules and actions","pasm.l"),("operand grammar","pasm.y: opcode, directive")], ["yylex","yyparse"])

prop("C03", "An instruction occupies exactly the bytes it emits, in every pass",
 "For every instruction, operand and operand size, the location counter advances by exactly the number of bytes the instruction contributes to the image (opcode byte, then its operand, low byte first for two-byte operands), and it advances by the same amount in the passes that only compute addresses as in the pass that writes.",
 ["inputs","programs"], "all instruction/addressing-mode pairs of both CPUs, all operand values, resolved or forward-referenced",
 "Any mismatch shifts every later label; tests look at a few nodes and never compare the emitted length with the counter over all modes.",
 ["expand.cc","genoutput.cc","node.cc"], [("instruction expansion","expand.cc: expand_op_code_node"),("operand size per mode","genoutput.cc: get_op_code_byte_count; expand.cc: get_op_byte_count"),("byte emission","genoutput.cc: write_opcode_node, write_word")], ["program_counter","fwrite"])

prop("C04", "Short and long addressing forms are chosen only within the same mode family",
 "The assembler may replace an addressing form by its zero-page (or absolute) counterpart, but only by the counterpart with the same indexing and indirection, only when the instruction has that form, and the short form only when the operand is known and fits in one byte. Whatever form is chosen, the opcode emitted is the one of that form.",
 ["inputs","programs"], "all instruction/syntax pairs, all operand values, known or not yet known",
 "A wrong counterpart (for example indexed-by-Y replaced by indexed-by-X) shows only for the instruction/operand-size combinations a test happens to use.",
 ["expand.cc","node.cc"], [("mode selection when a node is built","node.cc: opcode_node"),("mode selection when it is expanded","expand.cc: expand_op_code_node")], ["fwrite"])

prop("C05", "Relative branches encode the exact displacement and never wrap",
 "Whenever a relative branch is written in its short form, the displacement byte is the two's-complement value of target minus the address after the branch, and that difference lies in -128..127; a target inside that range is always reached by the short form.",
 ["inputs","programs"], "all branch instructions and all pairs of branch address and target",
 "The limits are two integers out of 65536; tests use near targets.",
 ["expand.cc","genoutput.cc","node.cc"], [("range test on expansion","expand.cc: expand_op_code_node"),("range test on output","genoutput.cc: write_opcode_node"),("range test in the listing","node.cc: generate_list_node")], ["fwrite"])

prop("C06", "An out-of-range branch becomes the opposite branch around a jump",
 "A conditional branch whose target is out of reach is replaced by the branch with the opposite condition, skipping exactly over an absolute jump to the original target; when no opposite condition exists the source is rejected. Expanding the same source statement again (loop or macro body, later pass) gives the same result: the replacement leaves the statement itself unchanged.",
 ["inputs","programs","histories"], "all branch instructions x out-of-range targets x repeated expansion of the same statement",
 "Needs distant targets for each condition code and repeated expansion; tests have one such case at most.",
 ["expand.cc"], [("far branch expansion","expand.cc: expand_op_code_node")], ["fwrite"])

prop("C07", "No value is silently truncated on its way into the image",
 "An instruction operand or a data item whose value does not fit the bytes reserved for it is reported as an error; the assembler never emits only part of such a value without an error. (A negative value is written in two's complement as long as its magnitude is below the largest value of the field.)",
 ["inputs","programs"], "all operand and data values x all operand sizes",
 "A handful of literal operands cannot cover the boundary of every size on every path that reaches the output.",
 ["expand.cc","genoutput.cc"], [("operand range checks","expand.cc: expand_op_code_node"),("data range checks","genoutput.cc: write_data_node"),("fill range checks","expand.cc: expand_operator_fill_node")], ["fwrite","error"])

prop("C08", "Data directives emit exactly the stated bytes and advance by as many",
 "Byte, word, string and fill directives contribute to the image exactly the bytes of their items in order (words low byte first, strings byte for byte, word strings padded to an even length with a zero byte, numbers in a string directive as one byte when they fit and as a word otherwise, fill the stated count of the stated byte, load the bytes of the file), and the location counter advances by exactly that number of bytes in every pass.",
 ["inputs","programs"], "all item kinds and values in all data directives, writing and non-writing passes",
 "A divergence between counter and image for one item kind moves every later label and is visible only with that kind followed by a label.",
 ["expand.cc","genoutput.cc"], [("data expansion","expand.cc: expand_operator_expression_list_node, expand_operator_fill_node"),("data emission","genoutput.cc: write_data_node, write_string_node")], ["program_counter","fwrite"])

prop("C09", "The image starts at the origin, header first when C64, and only grows in order",
 "When the C64 format is selected the first two bytes of the image are its start address (the origin, or the location counter where nothing states one), low byte first, and they are written exactly once before any code or data; otherwise no header is written. `.org` and `*=` after the start write nothing: the image continues where it is and the location counter counts on from the new address. A statement that would be written anywhere else than at the location counter's place in the image (for instance behind reserved space) is reported and not written.",
 ["inputs","programs","configurations"], "all programs and both output formats",
 "The header is tested for one origin; position mismatches need a gap followed by code.",
 ["genoutput.cc"], [("header","genoutput.cc: write_header"),("position check","genoutput.cc: generate_output")], ["fwrite"])

prop("C10", "Output is produced only after a clean, fully resolved pass",
 "The output, symbol and listing files are created only after a complete pass in which no error was reported, no symbol changed value and no symbol was left undefined; otherwise assembly ends with a failure and does not write a program image.",
 ["programs","histories"], "all source programs and pass histories",
 "Tests assemble programs that resolve; the gate matters for those that do not.",
 ["pass.cc","sym.cc"], [("pass loop","pass.cc: assemble"),("unresolved symbols","sym.cc: unresolved_symbol_count")], ["fopen","assemble"])

prop("C11", "A reported error always ends in a failure status",
 "If any error is reported while assembling, in any pass including the one that writes the output, the assembler ends with a non-zero status; success means that no error was reported.",
 ["programs","histories"], "all error sites in all passes and after them",
 "Each error site would need its own failing program in each pass; tests check a few return values.",
 ["pass.cc","main.cc","error.cc"], [("error counter","error.cc: yyerror"),("result of assembly","pass.cc: assemble"),("exit status","main.cc: main")], ["main"])

prop("C12", "A failed write of the program image is reported",
 "If writing any byte of the program image fails, including when buffered data cannot be delivered on closing the file, an error is reported and assembly does not end successfully.",
 ["fault_sequences"], "a failure of any write to, or the close of, the output file",
 "Tests never make the output device fail.",
 ["genoutput.cc","pass.cc"], [("write wrappers","genoutput.cc: write_byte, write_string"),("close","pass.cc: assemble")], ["fwrite","fclose"])

prop("C13", "Every pass starts from the same assembler state",
 "Except for what is deliberately carried over (symbol values and anonymous labels, the recorded macro list, command-line settings and the output format, the count of passes and the final-pass flag), nothing one pass leaves behind influences the next: scanner mode, CPU and warning settings, location counter, origin, counters, nesting levels, scopes and stacks all start each pass as they started the first one.",
 ["programs","histories"], "all programs and all passes",
 "Leftover state needs a program that ends in an unusual state (unclosed conditional, comment or loop, setting changed at the end) and a comparison between passes.",
 ["pass.cc","globals.cc","pasm.l"], [("start of pass","pass.cc: reset_lex, parse_pass")], ["parse_pass"])

prop("C14", "Every change of a label value is counted, so another pass follows",
 "Whenever a pass gives a label or constant a value different from the one it had before, or a value for the first time, that pass is recorded as changed; only variables and macro parameters, which are reassigned on purpose, are exempt. A value that does not fit an address is rejected instead of stored.",
 ["programs","histories"], "all symbols, all assignments, all passes",
 "An uncounted change silently ends the iteration with stale addresses; only a program whose last change is the uncounted one shows it.",
 ["sym.cc","expand.cc"], [("symbol update","sym.cc: set_symbol_value"),("label and equate definition","expand.cc: expand_operator_equ_node")], ["sym_value_changed"])

prop("C15", "Symbol names that differ only in letter case are the same symbol",
 "Looking up, adding or deleting a name finds the same entry for every spelling that differs only in letter case, and never an entry whose name differs otherwise; hashing and comparison agree on this for every name.",
 ["inputs"], "all names and all case variants",
 "A hash that distinguishes case in one position splits symbols only for some names.",
 ["hash.cc","dictionary.cc","memory.cc"], [("string hash","hash.cc: hash_function"),("comparison","memory.cc: stricmp"),("search","dictionary.cc: dict_search")], ["dict_search"])

prop("C16", "A dictionary finds the latest entry for a key after any history",
 "After any sequence of insertions, deletions and growth, a lookup returns the most recently inserted remaining entry for the key, or nothing if none remains; deleting removes only that entry; growing loses no entry and keeps the values where they are.",
 ["histories","inputs"], "all sequences of insertions, deletions, growths and all keys",
 "Growth happens past 900 entries and the effect on duplicates or cached entries needs a particular history.",
 ["dictionary.cc"], [("insert/search/delete","dictionary.cc"),("growth","dictionary.cc: grow")], ["dict_insert","dict_search","dict_delete"])

prop("C17", "Expanding a statement restores the enclosing naming and nesting state",
 "After a macro call, register loop, expression or symbol operation has been expanded (also when it reports an error and returns), the nesting counters, the current label scope, the saved macro arguments and the current section are what they were before; only section directives, label definitions and assignments change them.",
 ["programs","histories"], "all constructs and all normal and error returns out of them",
 "An early return that skips the restore corrupts only programs that contain the erroneous or nested construct followed by something that depends on the state.",
 ["expand.cc","sym.cc"], [("macro call","expand.cc: expand_macro_expansion_node"),("register loop","expand.cc: expand_operator_for_reg_node"),("nest level","expand.cc: expand_node"),("scope switch","sym.cc: add_symbol")], ["expand_node"])

prop("C18", "Conditional assembly includes exactly the selected text, at any nesting",
 "For every nesting of definition-conditionals and expression-conditionals, text is skipped exactly when the enclosing definition-conditional is not selected, a skipped region ends exactly at its own matching alternative or end, and conditionals inside skipped text neither end the skip nor select anything.",
 ["programs"], "all nestings and orders of conditional directives",
 "The number of nestings is unbounded; there are tests of single conditionals at most.",
 ["pasm.l"], [("conditional scanner rules","pasm.l: IF_DEF rules, ifdef_stack")], ["yylex"],
 [("ifdef_stack","open conditionals","pass.cc"),("start condition","skipping or not","pasm.l")])

prop("C19", "Leaving an included file resumes the including file where it stopped",
 "Including a file saves the including file's name and line and starts the included file at its first line; reaching its end restores exactly what was saved and continues reading there, at any include depth, and the file that could not be opened ends assembly with an error.",
 ["programs"], "all include nestings",
 "Needs nested includes with diagnostics after the return.",
 ["file.cc","pasm.l"], [("entering","file.cc: open_include_file"),("leaving","pasm.l: <<EOF>>")], ["current_file_name","yylineno"])

prop("C20", "A file that cannot be opened is diagnosed, never used",
 "For every file the assembler opens (sources, includes, binary loads, output, symbol, listing and log files), failure to open it leads to a reported error, and the missing file is never read, written or closed.",
 ["inputs","fault_sequences"], "all open sites, each failing",
 "Each open has to fail in a test of its own.",
 ["file.cc","pass.cc","expand.cc"], [("search path open","file.cc: open_file"),("open sites","pass.cc, expand.cc, file.cc, genlist.cc")], ["fopen"])

prop("C21", "Text is never written past the end of its buffer",
 "For every source line, symbol, section, macro and file name of any length, each piece of text the assembler formats or copies fits the memory reserved for it, or is rejected before it is written.",
 ["inputs"], "all names and lines of all lengths, at every formatting or copying site",
 "Overflows start at lengths no test uses.",
 ["expand.cc","sym.cc","node.cc","genlist.cc","file.cc","error.cc"], [("formatting sites","sprintf/strcpy/strcat/fgets call sites"),("buffer sizes","MALLOC sites, internal_buffer, path")], ["sprintf","strcpy","strcat","fgets","memcpy"])

prop("C22", "Released memory is never used or released again",
 "No path of the assembler reads, writes, prints, stores or frees again a block of memory after it has been released in the same operation.",
 ["inputs","programs"], "all paths through every function that releases memory",
 "Use after release usually still prints the old bytes, so a test that passes proves nothing.",
 ["node.cc","sym.cc","dictionary.cc","expand.cc","genlist.cc","stacks.cc","file.cc"], [("release sites","FREE/free call sites")], ["free"])

prop("C23", "Stray or unbalanced closing directives never crash the assembler",
 "Taking the top of, or removing an item from, any of the assembler's internal stacks happens only when the stack is known to hold an item; a closing or alternative directive without its opening one, an end of file, or a section end without section is diagnosed or ignored but never reads outside the stack.",
 ["programs"], "all orders of opening and closing directives",
 "Each unbalanced order would need a test.",
 ["pasm.l","sym.cc","expand.cc","stacks.cc"], [("conditional stack","pasm.l"),("include stack","pasm.l"),("macro argument stack","sym.cc: pop_macro_params")], ["stack top/pop"])

prop("C24", "Each expression operator computes its conventional result",
 "For every operand value, each arithmetic, bitwise, shift, comparison and logical operator of the source language, and the low-byte and high-byte selectors, evaluates to its conventional result on its left and right operands, from the token in the source through to the value.",
 ["inputs","programs"], "all operators and all operand values",
 "Tests evaluate a few operand pairs, on which different operators can agree.",
 ["pasm.l","pasm.y","expand.cc"], [("operator tokens","pasm.l"),("expression grammar","pasm.y: expr"),("operator table and handlers","expand.cc: init_expander, expand_operator_*")], ["expand_node"])

prop("C25", "Operator precedence and grouping are fixed and unambiguous",
 "In every expression, multiplication and division bind tighter than addition and subtraction, these tighter than the bitwise operators, these tighter than comparisons and logical operators, and these tighter than shifts; operators of the same level group from left to right, the complement, not, low-byte and high-byte operators apply to the whole operand expression that follows them, a minus sign applies only to the number or parenthesised expression right after it, and parentheses override all of this.",
 ["inputs","programs"], "all pairs of operators in sequence",
 "There are hundreds of operator pairs; one changed precedence line alters many of them, none of which a test contains.",
 ["pasm.y"], [("precedence declarations and expression rules","pasm.y")], ["yyparse"])

prop("C26", "No expression value can crash the assembler",
 "Whatever values its operands have, evaluating an expression never divides by zero, never overflows a division and never shifts by an amount outside the word; such operations are diagnosed or have a defined result.",
 ["inputs","programs"], "all operand values of division and shift operators",
 "One divisor value and one dividend/divisor pair out of 2^64 trap.",
 ["expand.cc"], [("division and shift handlers","expand.cc")], ["sdiv, srem, shl, ashr"])

prop("C27", "Escape sequences and strings are converted within bounds and as documented",
 "In strings and characters, each escape sequence is converted to the character it denotes, every other character is kept, unknown escapes are reported, and conversion neither reads past the end of the text nor writes past the converted copy.",
 ["inputs"], "all character sequences",
 "A text ending in the middle of an escape and each single escape letter would need their own tests.",
 ["str.cc"], [("conversion","str.cc: sanitize_string")], ["sanitize_string"])

prop("C28", "The listing shows exactly the bytes that are written",
 "For every instruction and data item listed in the writing pass, the hexadecimal bytes shown are the bytes written to the image for that item, in the same order, and the address shown is that of the row's first byte; whatever is written to the image is also listed.",
 ["programs"], "all instructions, addressing modes, data items and operand values",
 "The listing is produced by a second formatter; tests do not compare the two.",
 ["node.cc","expand.cc","genoutput.cc"], [("listing formatter","node.cc: generate_list_node"),("image writer","genoutput.cc: generate_output")], ["sprintf","fwrite"])

prop("C29", "Command-line options are taken completely or rejected",
 "For every argument list, an option that needs a value and has none, or a once-only option given twice, is rejected with a failure status; the parser never reads past the last argument, and the value of a symbol definition is converted in the base its notation announces, whatever its length.",
 ["inputs","configurations"], "all argument lists",
 "Tests never call the parser with malformed lists.",
 ["parseargs.cc"], [("argument loop","parseargs.cc: parse_arguments")], ["parse_arguments"])

prop("C30", "Anonymous labels resolve to the right entry or to none",
 "A reference with n minus (plus) signs resolves to the n-th anonymous label of the same file at or before (after) the reference in source order; when there is none it stays unresolved, and no entry outside those recorded is ever consulted.",
 ["programs"], "all numbers and positions of anonymous labels and references of any depth",
 "Out-of-range depths and table growth need programs no test contains.",
 ["sym.cc","expand.cc"], [("search","sym.cc: find_minus_symbol, find_plus_symbol"),("recording","sym.cc: add_minus_symbol, add_plus_symbol")], ["expand_node"])

prop("C31", "The line-ending converter changes nothing but line endings",
 "The bundled line-ending converter rewrites a text file so that every line ends in a single line feed, keeps every other byte in order, and never modifies a file that contains binary data.",
 ["inputs"], "all file contents",
 "There is no test of the converter.",
 ["CMakePasm/eolconvert/eolconvert.cc"], [("conversion","eolconvert.cc: replace_eol"),("classification","eolconvert.cc: is_text_file")], ["replace_eol"])

prop("C32", "Assembly always terminates",
 "For every source program and argument list the assembler ends after finitely many steps, with success or a reported error; in particular directive loops, recursive macros and recursive includes are cut off and reported.",
 ["programs"], "all programs",
 "Non-termination is a property of all loop bodies and bounds.",
 ["expand.cc","pass.cc"], [("pass limit","pass.cc: max_passes"),("loop guard","expand.cc: error_infinite_loop_detected")], ["main"])

prop("C33", "A resolved program always converges and keeps its meaning",
 "Every program whose symbols are all defined reaches a pass in which nothing changes within the pass limit, and the image equals the one obtained by assembling it with its final symbol values.",
 ["programs","histories"], "all programs",
 "Convergence depends on the whole history of passes.",
 ["pass.cc","expand.cc"], [("fixpoint iteration","pass.cc: assemble")], ["assemble"])

prop("C34", "Macro expansion equals textual substitution of its arguments",
 "A macro call expands its body once, with every parameter having the value of the corresponding argument (as the caller sees it), for nested calls as well; a parameter without an argument and an argument that is not a 16-bit number are reported; a local label in the body is another label in every call, reachable from the whole call, before and after its definition and whatever labels surround definition and call.",
 ["programs"], "all macro definitions and calls",
 "Values at run time decide; tests use single parameters.",
 ["expand.cc","sym.cc"], [("argument passing","expand.cc: expand_operator_expression_list_node"),("saving arguments","sym.cc: push_macro_params")], ["expand_node"])

prop("C35", "Loops repeat their body exactly as stated",
 "For all bounds, a register loop generates code that runs its body with exactly the register values from start to end in its direction and then falls through (nothing when the range is empty), and a directive loop expands its body exactly while its condition holds, with the loop variable running from the start by the step to the end; bounds outside a byte, a loop nested in its own register, another variable after .next, a step of zero and a loop that leaves the address space are reported.",
 ["programs"], "all start and end values, steps, conditions and loop kinds",
 "Tests use one or two bounds per loop kind; 65536 pairs of bounds and the limits of the register decide.",
 ["expand.cc"], [("register loops","expand.cc: expand_operator_for_reg_node"),("counting loop","expand.cc: expand_operator_for_node"),("conditional loops","expand.cc: expand_operator_while_node, expand_operator_repeat_node, expand_operator_do_node")], ["expand_node"])

with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl"), "w") as f:
    for p in P:
        f.write(json.dumps(p, ensure_ascii=False) + "\n")
print(len(P))
