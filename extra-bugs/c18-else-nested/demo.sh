#!/bin/bash
# run in the repository's top directory after the build
P=$PWD/_build/pasm/bin/pasm
T=$(mktemp -d) || exit 2
trap 'rm -rf "$T"' EXIT
cd "$T" || exit 2
fail() { echo "FAIL: $*" >&2; exit 1; }
# asm NAME OPTIONS... <source : assembles, prints the image as hex, status in $rc
asm() { local n=$1; shift; cat > $n.asm; rm -f $n.bin; timeout 20 $P "$@" -o $n.bin $n.asm > $n.out 2> $n.err; rc=$?; hex=; [ -f $n.bin ] && hex=$(od -An -v -tx1 $n.bin | tr -d ' \n'); return 0; }
# want HEX : the last assembly succeeded and its image is HEX
want() { [ $rc = 0 ] || fail "status $rc"; [ "$hex" = "$1" ] || fail "image $hex, expected $1"; }
# reject : the last assembly ended with a failure
reject() { [ $rc != 0 ] || fail "accepted: $hex"; }
asm t <<'A'
 .org $1000
here = 1
 .ifdef here
 .ifdef none
 .if 1
 lda #1
 .else
 lda #2
 .endif
 .else
 lda #3
 .endif
 .endif
 rts
A
want a90360
exit 0
