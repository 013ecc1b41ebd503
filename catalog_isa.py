"""Instruction set properties."""
CPU = 'necroassembler/cpu/'


def add(P):
    P('I01', '6502: every instruction and addressing mode is encoded exactly',
      'Each of the 151 instruction and addressing mode combinations of the 6502 is accepted and encoded as the opcode matrix says, with its operand little-endian. The zero page form is taken '
      'exactly when one exists and the operand is a number, or an already defined label, below 256; the absolute form otherwise. Branches reach -128 to 127 from the next instruction. '
      'Operands that do not fit, modes an instruction does not have, and missing, surplus or misplaced operands are refused.',
      ['inputs', 'programs'], 'all 56 mnemonics x all written operand forms, numbers of every value of up to 6 digits, labels at every address of up to 5 digits before, after and in other regions, 21 malformed shapes',
      'Tests hold one example per instruction; range limits, label operands and refusals are hardly covered.',
      [CPU + 'mos6502.py'], [('AssemblerMOS6502', CPU + 'mos6502.py')])
    P('I02', 'Z80: every instruction and operand is encoded exactly',
      'Every documented instruction of the Z80 (and those of the halves of IX and IY, and SLL) is accepted in either letter case and encoded as the decoding rules of the processor say, with bytes, words, '
      'displacements and relative distances in their place. Operands and distances that do not fit, operand combinations the processor does not have, and missing, surplus or misplaced operands are refused. '
      'How displacements of 128 to 255 written in hexadecimal or as an address are treated is left open.',
      ['inputs', 'programs'], 'all 798 instructions with every operand value of up to 5 digits, labels at every address in three places; every mnemonic with every combination of up to 3 registers in 46 shapes',
      'There is no test of this processor at all.', [CPU + 'z80.py'], [('Z80OpCode', CPU + 'z80.py')])
    P('I03', 'Gameboy processor: every instruction and operand is encoded exactly',
      'Every instruction of the LR35902 is accepted in either letter case and with either bracket style and encoded as the decoding rules of the processor say, with bytes, words, signed offsets and '
      'relative distances in their place. Operands and distances that do not fit, operand combinations the processor does not have, and missing, surplus or misplaced operands are refused.',
      ['inputs', 'programs'], 'all 502 instructions with every operand value of up to 5 digits, labels at every address in three places; every mnemonic with every combination of up to 3 registers in 38 shapes',
      'Tests hold one example of each opcode; ranges, labels, and wrong operand combinations are not covered.', [CPU + 'lr35902.py'], [('AssemblerLR35902', CPU + 'lr35902.py')])
    P('I04', '8086: every instruction and operand is encoded exactly',
      'Every 8086 instruction in the form the assembler knows it is accepted in either letter case and encoded as the processor has it: registers, segment registers and the eight register combinations of a memory '
      'operand in their fields of the modrm byte, then displacement and immediate little-endian. Memory operands are written [BX], [BX + SI], with + or - and a displacement of 16 bits; [BP] has a displacement of 0. '
      'MOV of an immediate to memory stores a byte, DIV and MUL of memory take a word, SHL and SHR of memory a byte. Immediates take every signed or unsigned value of their size, addresses 16 bits; jumps reach '
      '-128 to 127, or -32768 to 32767, from the next instruction, written as a distance or a label. Values and distances that do not fit, operands the processor does not have for the instruction, and missing, '
      'surplus or malformed operands are refused. Hexadecimal displacements above 0x7fff or after a minus, loads of CS, instructions of the processor that the assembler does not have, and which of its two '
      'encodings INT 3 has are left open.',
      ['inputs', 'programs'], 'all 87 mnemonics x all registers and memory operands at once x every operand value of up to 5 digits, labels at every address in four places; every mnemonic with combinations of up to 3 '
      'operands of 10 regular and 19 malformed shapes with 12 words in them',
      'Tests hold one or two examples of an instruction; labels in memory operands, ranges and refusals are not covered.', [CPU + 'intel8086.py'], [('AssemblerIntel8086', CPU + 'intel8086.py')])
    P('I05', 'MIPS: every instruction and operand is encoded exactly',
      'Every integer instruction of the MIPS I that the assembler knows, and its own lhi, llo and trap, is accepted with registers by number or by name in either case and encoded as the architecture says, '
      'in the byte order of the assembler (big endian; little endian on the PlayStation): registers and immediates in their fields, shift distances 0 to 31, branches as words from the next instruction, jumps as '
      'words within 256 megabytes, lui and lhi the upper and llo the lower half of a 32 bit value. addi and slti take -32768 to 32767 (or four hexadecimal digits), the other immediates also up to 65535. '
      'Values and distances that do not fit, branches to unaligned labels, labels as load and store offsets, other registers, and missing, surplus or misplaced operands are refused. Unaligned numeric branch '
      'distances, unaligned jump targets\' lowest bits and negative shift distances are left open.',
      ['inputs', 'programs'], 'all 53 instructions x all registers at once x every operand value of up to 9 digits, labels at every address in four places; every mnemonic with 51 operand shapes',
      'Tests cover 5 of the instructions.', [CPU + 'mips32.py'], [('AssemblerMIPS32', CPU + 'mips32.py')])
    P('I06', 'Thumb: every instruction and operand is encoded exactly',
      'Every Thumb instruction the assembler knows is accepted with low and high registers in either case (and fp, ip, sp, lr, pc) and encoded as the architecture says: registers and immediates in their fields, '
      'offsets scaled by the size of the access, branches as distances from the instruction plus 4 in both halves of BL, LDR from a label relative to the word aligned PC, register lists of PUSH as bit masks of single '
      'registers, ranges and LR. Immediates and distances that do not fit, unaligned labels, high registers where only low ones can be, backward labels of LDR, malformed register lists, and missing, surplus or '
      'misplaced operands are refused. Unaligned or negative immediates of scaled operands are left open, as are instructions of the processor that the assembler does not have (if accepted, they are encoded right).',
      ['inputs', 'programs'], 'all 71 instruction forms x all registers at once x every operand value of up to 7 digits, labels at every address in four places; every mnemonic with 92 operand shapes; lists of up to 4 items',
      'Tests hold one example of 20 of the instructions.', [CPU + 'thumb.py'], [('AssemblerThumb', CPU + 'thumb.py')])
    P('I08', 'PowerPC: every instruction and operand is encoded exactly',
      'Every instruction of the PowerPC and POWER that the assembler knows and whose operands are general or floating point registers, 0 for no base register, immediates, shift distances, bit numbers, condition '
      'fields by number, or branch targets is accepted with registers in either case and encoded big endian as the architecture says. Signed immediates take -32768 to 32767 (or four hexadecimal digits), '
      'logical, shifted and unsigned ones also up to 65535; bit numbers 0 to 31, condition fields 0 to 7. Branches reach -32768 to 32764 bytes when conditional, else -33554432 to 33554428, from their own address, '
      'written as a distance or a label; absolute ones address as far. An instruction with several forms has the opcode of each. Values and distances that do not fit, branches to unaligned labels, other registers, '
      'and missing, surplus or misplaced operands are refused. Unaligned numeric targets, absolute targets in the upper half of the field, negative bit numbers, crN names, displacements with a base register, '
      'vector registers, rotation masks and named special registers are left open.',
      ['inputs', 'programs'], 'all 538 instruction forms x all registers of each field at once x every operand value of up to 8 digits, labels at every address in four places; all 510 mnemonics with the operand '
      'combinations around their forms, 57 of them with all 51 operand shapes',
      'There is no test of this processor at all.', [CPU + 'powerpc.py'], [('AssemblerPowerPC', CPU + 'powerpc.py')])
    P('I07', '68000: every instruction and effective address is encoded exactly',
      'Every 68000 instruction the assembler knows (move, movea, the immediate operations and those on CCR and SR, cmpi, jmp, jsr, lea, the conditional branches and decrement-and-branches, rts, nop) is accepted '
      'in either letter case with each effective address the processor allows for it and encoded big endian as the architecture says: size, registers and modes in their fields, then immediates, addresses, '
      'displacements and index words in order, PC relative ones counted from the word that holds them, branches from the word after the opcode. Without a size it is the word, without one an address is long; '
      'move to an address register is movea. Immediates and addresses take every signed or unsigned value of their size, displacements and distances the signed ones (or as many hexadecimal digits). Values and '
      'distances that do not fit, short branches to the next instruction, branches to odd labels, effective addresses the instruction does not have, and missing, surplus or malformed operands are refused. '
      'Odd numeric distances, labels that a word or byte would turn negative, and sizes written with CCR and SR other than theirs are left open.',
      ['inputs', 'programs'], 'all 113 mnemonics x all pairs of effective addresses x all registers at once x every operand value of up to 10 digits, labels at every address in five places, one label in two operands; '
      '15 regular and 30 malformed operand shapes in pairs and triples',
      'Tests cover some 25 of the more than 1500 combinations of instruction and effective address.', [CPU + 'mc68000.py'], [('AssemblerMC68000', CPU + 'mc68000.py')])
