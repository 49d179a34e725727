"""Independent statement of the instruction sets (from the published opcode
matrices of the MOS 6502 and the Rockwell/WDC 65C02), by mnemonic and mode.

mode names: imp imm zp zpx zpy izx izy abs absx absy ind rel acc aix(=(abs,x)) zpi(=(zp))
"""
def _p(s):
    d = {}
    for line in s.strip().splitlines():
        f = line.split()
        d[f[0]] = {m: int(c, 16) for m, c in (x.split('=') for x in f[1:])}
    return d

BASE = _p("""
adc imm=69 zp=65 zpx=75 abs=6D absx=7D absy=79 izx=61 izy=71
and imm=29 zp=25 zpx=35 abs=2D absx=3D absy=39 izx=21 izy=31
asl acc=0A zp=06 zpx=16 abs=0E absx=1E
bcc rel=90
bcs rel=B0
beq rel=F0
bit zp=24 abs=2C
bmi rel=30
bne rel=D0
bpl rel=10
brk imp=00
bvc rel=50
bvs rel=70
clc imp=18
cld imp=D8
cli imp=58
clv imp=B8
cmp imm=C9 zp=C5 zpx=D5 abs=CD absx=DD absy=D9 izx=C1 izy=D1
cpx imm=E0 zp=E4 abs=EC
cpy imm=C0 zp=C4 abs=CC
dec zp=C6 zpx=D6 abs=CE absx=DE
dex imp=CA
dey imp=88
eor imm=49 zp=45 zpx=55 abs=4D absx=5D absy=59 izx=41 izy=51
inc zp=E6 zpx=F6 abs=EE absx=FE
inx imp=E8
iny imp=C8
jmp abs=4C ind=6C
jsr abs=20
lda imm=A9 zp=A5 zpx=B5 abs=AD absx=BD absy=B9 izx=A1 izy=B1
ldx imm=A2 zp=A6 zpy=B6 abs=AE absy=BE
ldy imm=A0 zp=A4 zpx=B4 abs=AC absx=BC
lsr acc=4A zp=46 zpx=56 abs=4E absx=5E
nop imp=EA
ora imm=09 zp=05 zpx=15 abs=0D absx=1D absy=19 izx=01 izy=11
pha imp=48
php imp=08
pla imp=68
plp imp=28
rol acc=2A zp=26 zpx=36 abs=2E absx=3E
ror acc=6A zp=66 zpx=76 abs=6E absx=7E
rti imp=40
rts imp=60
sbc imm=E9 zp=E5 zpx=F5 abs=ED absx=FD absy=F9 izx=E1 izy=F1
sec imp=38
sed imp=F8
sei imp=78
sta zp=85 zpx=95 abs=8D absx=9D absy=99 izx=81 izy=91
stx zp=86 zpy=96 abs=8E
sty zp=84 zpx=94 abs=8C
tax imp=AA
tay imp=A8
tsx imp=BA
txa imp=8A
txs imp=9A
tya imp=98
""")

CMOS_ADD = _p("""
adc zpi=72
and zpi=32
bit imm=89 zpx=34 absx=3C
bra rel=80
cmp zpi=D2
dec acc=3A
eor zpi=52
inc acc=1A
jmp aix=7C
lda zpi=B2
ora zpi=12
phx imp=DA
phy imp=5A
plx imp=FA
ply imp=7A
sbc zpi=F2
sta zpi=92
stp imp=DB
stz zp=64 zpx=74 abs=9C absx=9E
trb zp=14 abs=1C
tsb zp=04 abs=0C
wai imp=CB
""")
for _n in range(8):
    CMOS_ADD["rmb%d" % _n] = {"zp": 0x07 + 16 * _n}
    CMOS_ADD["smb%d" % _n] = {"zp": 0x87 + 16 * _n}
    CMOS_ADD["bbr%d" % _n] = {"rel": 0x0F + 16 * _n}
    CMOS_ADD["bbs%d" % _n] = {"rel": 0x8F + 16 * _n}
CMOS = {k: dict(v) for k, v in BASE.items()}
for _k, _v in CMOS_ADD.items(): CMOS.setdefault(_k, {}).update(_v)

ILLEGAL = _p("""
slo zp=07 zpx=17 izx=03 izy=13 abs=0F absx=1F absy=1B
rla zp=27 zpx=37 izx=23 izy=33 abs=2F absx=3F absy=3B
sre zp=47 zpx=57 izx=43 izy=53 abs=4F absx=5F absy=5B
rra zp=67 zpx=77 izx=63 izy=73 abs=6F absx=7F absy=7B
sax zp=87 zpy=97 izx=83 abs=8F
lax zp=A7 zpy=B7 izx=A3 izy=B3 abs=AF absy=BF
dcp zp=C7 zpx=D7 izx=C3 izy=D3 abs=CF absx=DF absy=DB
isc zp=E7 zpx=F7 izx=E3 izy=F3 abs=EF absx=FF absy=FB
anc imm=0B
anc2 imm=2B
alr imm=4B
arr imm=6B
xaa imm=8B
axs imm=CB
usbc imm=EB
ahx izy=93 absy=9F
shy absx=9C
shx absy=9E
tas absy=9B
las absy=BB
""")
# documented in some lists, absent from others: either reading is accepted
OPTIONAL = {("lax", "imm"): 0xAB}

ALL = sorted(set(BASE) | set(CMOS) | set(ILLEGAL))
MODES = {"imp": "i", "imm": "I", "zp": "zp", "zpx": "zpx", "zpy": "zpy", "izx": "izx", "izy": "izy", "abs": "a",
         "absx": "ax", "absy": "ay", "ind": "ind", "rel": "r", "acc": "A", "aix": "aix", "zpi": "zpi"}
BYTES = {"imp": 0, "acc": 0, "imm": 1, "zp": 1, "zpx": 1, "zpy": 1, "izx": 1, "izy": 1, "zpi": 1, "rel": 1,
         "abs": 2, "absx": 2, "absy": 2, "ind": 2, "aix": 2}
SHORT = {"abs": "zp", "absx": "zpx", "absy": "zpy", "aix": "izx", "ind": "zpi"}

def table(cpu, illegal):
    d = {k: dict(v) for k, v in (BASE if cpu == "6502" else CMOS).items()}
    if illegal:
        for k, v in ILLEGAL.items(): d[k] = dict(v)
    return d

def probes():
    return (["E(_%s)" % m for m in ALL] + ["E(_maxOpcode)", "E(max_addressing_mode)", "E(cpu_6502)", "E(cpu_65C02)"] +
            ["E(%s)" % m for m in MODES.values()])

def acceptable(cpu, illegal, mn, mode):
    """set of acceptable values of the opcode lookup"""
    t = table(cpu, illegal)
    want = t.get(mn, {}).get(mode, -1)
    acc = {want}
    if mode == "imp" and "acc" in t.get(mn, {}): acc = {-1, t[mn]["acc"]}   # `asl` alone stands for `asl a`
    if mode in ("ind", "zpi") and "zpi" in t.get(mn, {}) and mn != "jmp":
        acc = {-1, t[mn]["zpi"]}          # `(expr)` is one syntax: the opcode may sit in either column
    if (mn, mode) in OPTIONAL and illegal: acc = {-1, OPTIONAL[(mn, mode)]}
    return acc
