"""The 151 documented opcodes of the 6502."""

OPCODES = {}          # (mnemonic, mode) -> opcode


def _fill():
    for i, mn in enumerate(('ORA', 'AND', 'EOR', 'ADC', 'STA', 'LDA', 'CMP', 'SBC')):
        for mode, low in (('izx', 0x01), ('zp', 0x05), ('imm', 0x09), ('abs', 0x0D), ('izy', 0x11), ('zpx', 0x15), ('aby', 0x19), ('abx', 0x1D)):
            if (mn, mode) != ('STA', 'imm'):
                OPCODES[mn, mode] = i * 0x20 + low
    for i, mn in enumerate(('ASL', 'ROL', 'LSR', 'ROR')):
        for mode, low in (('zp', 0x06), ('acc', 0x0A), ('abs', 0x0E), ('zpx', 0x16), ('abx', 0x1E)):
            OPCODES[mn, mode] = i * 0x20 + low
    for mn, base in (('DEC', 0xC0), ('INC', 0xE0)):
        for mode, low in (('zp', 0x06), ('abs', 0x0E), ('zpx', 0x16), ('abx', 0x1E)):
            OPCODES[mn, mode] = base + low
    for mn, codes in (
            ('STX', {'zp': 0x86, 'abs': 0x8E, 'zpy': 0x96}),
            ('STY', {'zp': 0x84, 'abs': 0x8C, 'zpx': 0x94}),
            ('LDX', {'imm': 0xA2, 'zp': 0xA6, 'abs': 0xAE, 'zpy': 0xB6, 'aby': 0xBE}),
            ('LDY', {'imm': 0xA0, 'zp': 0xA4, 'abs': 0xAC, 'zpx': 0xB4, 'abx': 0xBC}),
            ('CPX', {'imm': 0xE0, 'zp': 0xE4, 'abs': 0xEC}),
            ('CPY', {'imm': 0xC0, 'zp': 0xC4, 'abs': 0xCC}),
            ('BIT', {'zp': 0x24, 'abs': 0x2C}),
            ('JMP', {'abs': 0x4C, 'ind': 0x6C}),
            ('JSR', {'abs': 0x20})):
        for mode in codes:
            OPCODES[mn, mode] = codes[mode]
    for mn, code in (('BPL', 0x10), ('BMI', 0x30), ('BVC', 0x50), ('BVS', 0x70), ('BCC', 0x90), ('BCS', 0xB0), ('BNE', 0xD0), ('BEQ', 0xF0)):
        OPCODES[mn, 'rel'] = code
    for mn, code in (('BRK', 0x00), ('PHP', 0x08), ('CLC', 0x18), ('PLP', 0x28), ('SEC', 0x38), ('RTI', 0x40), ('PHA', 0x48), ('CLI', 0x58),
                     ('RTS', 0x60), ('PLA', 0x68), ('SEI', 0x78), ('DEY', 0x88), ('TXA', 0x8A), ('TYA', 0x98), ('TXS', 0x9A), ('TAY', 0xA8),
                     ('TAX', 0xAA), ('CLV', 0xB8), ('TSX', 0xBA), ('INY', 0xC8), ('DEX', 0xCA), ('CLD', 0xD8), ('INX', 0xE8), ('NOP', 0xEA),
                     ('SED', 0xF8)):
        OPCODES[mn, 'imp'] = code


_fill()
MNEMONICS = sorted({m for m, _ in OPCODES})
assert len(OPCODES) == 151 and len(set(OPCODES.values())) == 151 and len(MNEMONICS) == 56
