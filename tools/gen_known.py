#!/usr/bin/env python3
"""Source of known_findings.json (run after editing)."""
import json, os
F = []
def known(p, key, what): F.append(dict(property=p, key=key, status="open", what=what))
def fixed(p, commit, what): F.append(dict(property=p, key=None, status="fixed", what="fixed: property=%s %s %s" % (p, commit, what)))
fixed("C01", "2c6c660", "undocumented instructions were assembled for the 65C02 without -i")
fixed("C05", "8090e44", "displacement 128 was written as -128 and -128 replaced by a jump")
fixed("C01", "d79de6b", "beq #1, beq (2),y were assembled as branches and beq without operand crashed")
fixed("C06", "eb00f2a", "bvc/bvs/bra out of range kept their condition in front of the jump")
fixed("C06", "aab9ec4", "after an out-of-range branch the statement stayed inverted, and *-relative targets moved by 2")
fixed("C07", "18f8e65", "lda #$12345 and lda $12345 lost the upper bits without an error")
fixed("C09", "d7b4b51", "with a C64 header, or after relocation, a gap between image and location counter was not noticed (.c64, nop, .ds 2, nop)")
fixed("C09", "a7d4745", "a program without an origin was rejected or placed at 0 when it begins with data")
fixed("C11", "b5aadb0", "an error of the final pass (e.g. .byte 300) left exit status 0")
fixed("C12", "f45fbf5", "fclose of the image was not checked: with a full disk success was reported")
fixed("C22", "10ab7a3", "the listing printed a released buffer for a too large .byte value")
fixed("C28", "10ab7a3", "padded word strings of length 3n and two-byte numbers in .str were listed wrongly")
fixed("C20", "21248ec", ".load of a missing file went on with fseek(NULL)")
fixed("C08", "a7e7608", ".fill v,0 advanced by 1 in address passes only; .fill first behind a C64 header advanced by 2 too many")
fixed("C08", "5a5ea64", ".str -65531 advanced by 1 and wrote 2 bytes")
fixed("C27", "7d29111", "a backslash or \\x at the end of the text was read past its end, \\x without digits was dropped silently")
fixed("C30", "7ba7fc7", "bne --- with one label read entry -2 of the table")
fixed("C14", "2b4e20e", "first value 0 and first anonymous labels were not counted: jmp +, lda fwd, + nop, fwd = 0 jumped to the wrong byte")
fixed("C07", "aa9655b", "$100000001 was read as 1")
fixed("C26", "9849056", "1 << 40 and 1 << -1 shifted outside the word")
fixed("C26", "e161d22", "-2147483648 / -1 trapped")
fixed("C26", "662bcff", "hash_pointer_function shifted 0xFF by up to 56")
fixed("C18", "6076e25", "a skipped .ifdef inside another open conditional swallowed the text up to the outer .endif")
fixed("C23", "10565aa", ".else without .if read the top of an empty stack")
fixed("C18", "21731de", ".if or .endif in a comment, string or name inside skipped text counted")
fixed("C29", "4952a61", "-d foo 100 defined foo as 0")
fixed("C21", "b21f137", "error2 reported foreign text for long parameters")
fixed("C21", "17a9440", "long macro names and long source lines overflowed internal_buffer")
fixed("C16", "f3600ab", "growing copied all values (pointers to them went stale) and reversed equal keys; deleting leaked")
fixed("C22", "386ddde", "dictionary values were copied with a larger size than they have")
fixed("C17", "cb27ddd", "a missing macro parameter left the argument stack unbalanced")
fixed("C31", "2be4399", "extract_directory returned released memory")
fixed("C13", "a6bc4e8", "scanner mode, cpu, -i, warnings, print state, .do count, macro definitions and program_counter_assigned leaked into the next pass")
fixed("C09", "79000e2", "an origin above $FFFF was accepted and truncated in the C64 header")
fixed("C29", "b0a1163", "`-d sym value` with a value out of range, with trailing text or for a name that cannot be defined was reported or truncated, but assembly went on and succeeded")
fixed("C10", "3bcbf86", "jmp @loop before any label, with no such label, was assembled as jmp 0")
fixed("C10", "5078102", "jmp + or jmp - without such a label was assembled as jmp 0")
fixed("C18", "6d9dbe6", "directives inside a block comment in skipped text ended the skip")
fixed("C35", "5baf063", "`.for .regx = a .to 255` did not run its body with 255")
fixed("C35", "59732db", "`.for v = a .to b .step 0` and a loop whose variable cannot take the next value never ended")
fixed("C17", "601f91d", "macro parameters got a section prefix and were lost inside sections")
fixed("C17", "1f7d637", "a reference to an anonymous label changed the local label scope when no label had been seen")
fixed("C34", "7d42004", "macro arguments were bound one by one, so `two \\2,\\1` inside a macro passed wrong values")
fixed("C17", "2a83288", "the end of a section with a dotted name left part of that name in the scope")
fixed("C34", "a9b7603", "a parameter without an argument silently was 0 or the value of an earlier call")
fixed("C34", "e38c53e", "after a plain label, `@l` in a macro body was another label than the `@l` its statements used; `label jmp @k` looked for @k in the scope of the label before")
fixed("C06", "daa4954", "an out-of-range branch to a local or anonymous label at address 0 was rejected instead of replaced by a jump")
for r in "XY":
    known("C35", "REG%s downto 0" % r, "`.for .reg%s = n .downto 0` generates `de%s / bcs` without a comparison: the branch depends on a carry the loop never sets, so the loop usually ends after one turn or never (pinned by the repository's own tests)" % (r.lower(), r.lower()))
for m in "adc and cmp eor lda ora sbc sta".split():
    known("C03", "65c02/%s/(zp)/3-bytes" % m, "65C02 `%s (zp)` is written with a two-byte operand (e.g. lda ($20) -> B2 20 00); the repository's own tests pin the opcode in the absolute-indirect column and this expansion" % m)
for n in range(8):
    for m in ("bbr", "bbs"):
        known("C03", "%s%d/zero-page-operand" % (m, n), "65C02 `%s%d` takes one operand only, the zero page byte is never written (needs a grammar extension)" % (m, n))
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
json.dump({"findings": F}, open(os.path.join(V, "known_findings.json"), "w"), indent=1)
