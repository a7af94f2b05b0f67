"""The 65816 instruction set, written down from the processor's data sheet
(mnemonic and operand notation of each opcode), independent of /repo."""
_T = """
brk #b|ora (d,x)|cop #b|ora d,s|tsb d|ora d|asl d|ora [d]|php|ora #m|asl A|phd|tsb a|ora a|asl a|ora al
bpl r|ora (d),y|ora (d)|ora (d,s),y|trb d|ora d,x|asl d,x|ora [d],y|clc|ora a,y|inc A|tcs|trb a|ora a,x|asl a,x|ora al,x
jsr a|and (d,x)|jsl al|and d,s|bit d|and d|rol d|and [d]|plp|and #m|rol A|pld|bit a|and a|rol a|and al
bmi r|and (d),y|and (d)|and (d,s),y|bit d,x|and d,x|rol d,x|and [d],y|sec|and a,y|dec A|tsc|bit a,x|and a,x|rol a,x|and al,x
rti|eor (d,x)|wdm #b|eor d,s|mvp #b,#b|eor d|lsr d|eor [d]|pha|eor #m|lsr A|phk|jmp a|eor a|lsr a|eor al
bvc r|eor (d),y|eor (d)|eor (d,s),y|mvn #b,#b|eor d,x|lsr d,x|eor [d],y|cli|eor a,y|phy|tcd|jmp al|eor a,x|lsr a,x|eor al,x
rts|adc (d,x)|per rl|adc d,s|stz d|adc d|ror d|adc [d]|pla|adc #m|ror A|rtl|jmp (a)|adc a|ror a|adc al
bvs r|adc (d),y|adc (d)|adc (d,s),y|stz d,x|adc d,x|ror d,x|adc [d],y|sei|adc a,y|ply|tdc|jmp (a,x)|adc a,x|ror a,x|adc al,x
bra r|sta (d,x)|brl rl|sta d,s|sty d|sta d|stx d|sta [d]|dey|bit #m|txa|phb|sty a|sta a|stx a|sta al
bcc r|sta (d),y|sta (d)|sta (d,s),y|sty d,x|sta d,x|stx d,y|sta [d],y|tya|sta a,y|txs|txy|stz a|sta a,x|stz a,x|sta al,x
ldy #x|lda (d,x)|ldx #x|lda d,s|ldy d|lda d|ldx d|lda [d]|tay|lda #m|tax|plb|ldy a|lda a|ldx a|lda al
bcs r|lda (d),y|lda (d)|lda (d,s),y|ldy d,x|lda d,x|ldx d,y|lda [d],y|clv|lda a,y|tsx|tyx|ldy a,x|lda a,x|ldx a,y|lda al,x
cpy #x|cmp (d,x)|rep #b|cmp d,s|cpy d|cmp d|dec d|cmp [d]|iny|cmp #m|dex|wai|cpy a|cmp a|dec a|cmp al
bne r|cmp (d),y|cmp (d)|cmp (d,s),y|pei d|cmp d,x|dec d,x|cmp [d],y|cld|cmp a,y|phx|stp|jmp [a]|cmp a,x|dec a,x|cmp al,x
cpx #x|sbc (d,x)|sep #b|sbc d,s|cpx d|sbc d|inc d|sbc [d]|inx|sbc #m|nop|xba|cpx a|sbc a|inc a|sbc al
beq r|sbc (d),y|sbc (d)|sbc (d,s),y|pea #w|sbc d,x|inc d,x|sbc [d],y|sed|sbc a,y|plx|xce|jsr (a,x)|sbc a,x|inc a,x|sbc al,x
"""
# notation -> (enumerator, operand bytes; "m"/"x": as that flag says)
MODES = {
    "": ("A_imp", 0), "A": ("A_acc", 0), "#b": ("A_imm_b", 1), "#w": ("A_imm_w", 2), "#m": ("A_imm_fm", "m"), "#x": ("A_imm_fx", "x"),
    "d": ("A_dir_b", 1), "a": ("A_dir_w", 2), "al": ("A_dir_l", 3), "d,x": ("A_dir_bx", 1), "d,y": ("A_dir_by", 1),
    "a,x": ("A_dir_wx", 2), "a,y": ("A_dir_wy", 2), "al,x": ("A_dir_lx", 3), "(d)": ("A_ind_b", 1), "(a)": ("A_ind_w", 2),
    "(d,x)": ("A_ind_bx", 1), "(d),y": ("A_ind_by", 1), "(a,x)": ("A_ind_wx", 2), "[d]": ("A_lng_b", 1), "[a]": ("A_lng_w", 2),
    "[d],y": ("A_lng_by", 1), "d,s": ("A_stk", 1), "(d,s),y": ("A_stk_y", 1), "#b,#b": ("A_mov", 2), "r": ("A_rel8", 1), "rl": ("A_rel16", 2),
}
BYTES = {e: n for e, n in MODES.values()}
# the enumeration's own order (used by the replay drivers' oracles only)
MODE_ORDER = ("A_imp A_acc A_imm_b A_imm_w A_dir_b A_dir_w A_dir_l A_dir_bx A_dir_by A_dir_wx A_dir_wy A_dir_lx A_ind_b A_ind_w A_ind_bx "
              "A_ind_by A_ind_wx A_lng_b A_lng_w A_lng_by A_stk A_stk_y A_mov A_rel8 A_rel16 A_imm_fm A_imm_fx").split()
OPC = []
for _l in _T.strip().split("\n"):
    _c = _l.split("|")
    assert len(_c) == 16, (_l, len(_c))
    for _x in _c:
        _m, _, _o = _x.partition(" ")
        OPC.append((_m, MODES[_o][0]))
assert len(OPC) == 256 and len(set(OPC)) == 256
# the data-width flag of each mnemonic: accumulator/memory (m), index (x)
M_WIDE = set("adc add and asl bit cmp dec eor inc lda lsr ora pha pla rol ror sbc sub sta stz trb tsb txa tya".split())
X_WIDE = set("cpx cpy dex dey inx iny ldx ldy phx phy plx ply stx sty tax tay tsx txy tyx".split())


def encode():
    """(mnemonic, mode) -> opcode, flag-sized immediates also under the definite sizes."""
    out = {}
    for i, (m, a) in enumerate(OPC):
        out[m, a] = i
        if a in ("A_imm_fm", "A_imm_fx"):
            out[m, "A_imm_b"] = out[m, "A_imm_w"] = i
    return out
