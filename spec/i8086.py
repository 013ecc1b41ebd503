"""Instructions of the 8086 that the assembler knows, by operand kinds and opcodes."""

R8 = ('AL', 'CL', 'DL', 'BL', 'AH', 'CH', 'DH', 'BH')
R16 = ('AX', 'CX', 'DX', 'BX', 'SP', 'BP', 'SI', 'DI')
SEG = ('ES', 'CS', 'SS', 'DS')
# memory operands: registers, r/m field
MEM = {'BX + SI': 0, 'BX + DI': 1, 'BP + SI': 2, 'BP + DI': 3, 'SI': 4, 'DI': 5, 'BP': 6, 'BX': 7}

# mnemonic -> forms, the first that fits counts: operand kinds, code
# kinds: r8 r16 seg, a register, m [base] and [base + displacement], d [address], i8 i16, e8 e16 distances, '1' '3'
# code: opcode byte; 'r0'..: plus the number of operand 0; ('m', reg, rm): modrm byte with the operands in the fields; /n: with this number as reg; values of i, e and d in order at the end
OPS = {}


def _add(mn, kinds, opcode, plus=None, modrm=None):
    OPS.setdefault(mn, []).append((tuple(kinds.split()), opcode, plus, modrm))


def _build():
    for i, n in enumerate(('ADD', 'OR', 'ADC', 'SBB', 'AND', 'SUB', 'XOR', 'CMP')):
        b = i << 3
        for k, w in (('r8', 0), ('r16', 1)):
            for d in (k, 'm'):
                _add(n, d + ' ' + k, b | w, None, (1, 0))
            _add(n, k + ' m', b | 2 | w, None, (0, 1))
        _add(n, 'AL i8', b | 4)
        _add(n, 'AX i16', b | 5)
    for k, w in (('r8', 0), ('r16', 1)):
        for d in (k, 'm'):
            _add('MOV', d + ' ' + k, 0x88 | w, None, (1, 0))
            _add('TEST', k + ' ' + d, 0x84 | w, None, (0, 1))
            _add('XCHG', k + ' ' + d, 0x86 | w, None, (0, 1))
        _add('MOV', k + ' m', 0x8a | w, None, (0, 1))
    for d in ('r16', 'm'):
        _add('MOV', d + ' seg', 0x8c, None, (1, 0))
        _add('MOV', 'seg ' + d, 0x8e, None, (0, 1))
    for a, b, op in (('AL', 'd', 0xa0), ('AX', 'd', 0xa1), ('d', 'AL', 0xa2), ('d', 'AX', 0xa3)):
        _add('MOV', a + ' ' + b, op)
    _add('MOV', 'r8 i8', 0xb0, 0)
    _add('MOV', 'r16 i16', 0xb8, 0)
    _add('MOV', 'm i8', 0xc6, None, ('/0', 0))
    _add('TEST', 'AL i8', 0xa8)
    _add('TEST', 'AX i16', 0xa9)
    _add('LEA', 'r16 m', 0x8d, None, (0, 1))
    _add('LES', 'r16 d', 0xc4, None, (0, 1))
    _add('LDS', 'r16 d', 0xc5, None, (0, 1))
    for n, b in (('INC', 0x40), ('DEC', 0x48), ('PUSH', 0x50), ('POP', 0x58)):
        _add(n, 'r16', b, 0)
    for i, s in enumerate(SEG):
        _add('PUSH', s, 6 | i << 3)
        if s != 'CS':
            _add('POP', s, 7 | i << 3)
    _add('POP', 'm', 0x8f, None, ('/0', 0))
    for i, n in enumerate(('JO', 'JNO', 'JB', 'JNB', 'JZ', 'JNZ', 'JBE', 'JA', 'JS', 'JNS', 'JPE', 'JPO', 'JL', 'JGE', 'JLE', 'JG')):
        _add(n, 'e8', 0x70 | i)
    for i, n in enumerate(('LOOPNZ', 'LOOPZ', 'LOOP', 'JCXZ')):
        _add(n, 'e8', 0xe0 | i)
    _add('CALL', 'e16', 0xe8)
    _add('JMP', 'e16', 0xe9)
    for n, b in (('RET', 0xc2), ('RETF', 0xca)):
        _add(n, '', b | 1)
        _add(n, 'i16', b)
    _add('INT', '3', 0xcc)
    _add('INT', 'i8', 0xcd)
    for a, w in (('AL', 0), ('AX', 1)):
        _add('IN', a + ' i8', 0xe4 | w)
        _add('IN', a + ' DX', 0xec | w)
        _add('OUT', 'i8 ' + a, 0xe6 | w)
        _add('OUT', 'DX ' + a, 0xee | w)
    for n, k in (('DIV', 6), ('MUL', 4)):
        for d in ('r16', 'm'):
            _add(n, d, 0xf7, None, ('/%d' % k, 0))
    for n, k in (('SHL', 4), ('SHR', 5)):
        for d, b in (('r8', 0xd0), ('m', 0xd0), ('r16', 0xd1)):
            _add(n, d, b, None, ('/%d' % k, 0))
            _add(n, d + ' 1', b, None, ('/%d' % k, 0))
    _add('AAM', 'i8', 0xd4)
    _add('AAD', 'i8', 0xd5)
    for n, b in (('DAA', 0x27), ('DAS', 0x2f), ('AAA', 0x37), ('AAS', 0x3f), ('NOP', 0x90), ('CBW', 0x98), ('CWD', 0x99), ('WAIT', 0x9b), ('PUSHF', 0x9c), ('POPF', 0x9d), ('SAHF', 0x9e), ('LAHF', 0x9f),
                 ('MOVSB', 0xa4), ('MOVSW', 0xa5), ('CMPSB', 0xa6), ('CMPSW', 0xa7), ('STOSB', 0xaa), ('STOSW', 0xab), ('LODSB', 0xac), ('LODSW', 0xad), ('SCASB', 0xae), ('SCASW', 0xaf), ('INTO', 0xce),
                 ('IRET', 0xcf), ('XLAT', 0xd7), ('LOCK', 0xf0), ('REPNZ', 0xf2), ('REPZ', 0xf3), ('HLT', 0xf4), ('CMC', 0xf5), ('CLC', 0xf8), ('STC', 0xf9), ('CLI', 0xfa), ('STI', 0xfb), ('CLD', 0xfc),
                 ('STD', 0xfd)):
        _add(n, '', b)


_build()

ALU = ('ADD', 'OR', 'ADC', 'SBB', 'AND', 'SUB', 'XOR', 'CMP')
# what the processor has beyond that, by classes of operands
MORE = {
    'PUSH': ('m', 'd'), 'POP': ('d', 'seg'), 'INC': ('r8', 'm', 'd'), 'DEC': ('r8', 'm', 'd'), 'TEST': ('m r8', 'm r16', 'd r8', 'd r16', 'r8 d', 'r16 d', 'r8 i', 'r16 i', 'm i', 'd i'),
    'XCHG': ('m r8', 'm r16', 'd r8', 'd r16', 'r8 d', 'r16 d'), 'MOV': ('r8 d', 'r16 d', 'd r8', 'd r16', 'd i', 'm i', 'seg d', 'd seg', 'seg r16', 'seg m'), 'LEA': ('r16 d',), 'LES': ('r16 m',), 'LDS': ('r16 m',),
    'CALL': ('r16', 'm', 'd'), 'JMP': ('r16', 'm', 'd'), 'DIV': ('r8', 'm', 'd'), 'MUL': ('r8', 'm', 'd'), 'SHL': ('r8 r8', 'r16 r8', 'm r8', 'd r8', 'd i', 'd', 'r8 i', 'r16 i', 'm i'),
    'SHR': ('r8 r8', 'r16 r8', 'm r8', 'd r8', 'd i', 'd', 'r8 i', 'r16 i', 'm i'), 'INT': (), 'IN': (), 'OUT': (),
}
for _n in ALU:
    MORE[_n] = ('r8 i', 'r16 i', 'm i', 'r8 d', 'r16 d', 'd r8', 'd r16', 'd i')

LETTERS = 'ABCDHIMOPSTabcde'
