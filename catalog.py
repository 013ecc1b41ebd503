#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from one table (run by hand after an edit)."""
import json
import os

HERE = os.path.dirname(os.path.abspath(__file__))
ASM = 'necroassembler/assembler.py'
STM = 'necroassembler/statements.py'
UT = 'necroassembler/utils.py'
PROPS = []
NA = []


def P(id, title, statement, over, text, why, files, mech, technique=None, level_note=None, na=None):
    PROPS.append({
        'id': id, 'title': title, 'statement': statement, 'quantifier': {'over': over, 'text': text},
        'why_tests_cant': why,
        'anchors': {'files': files, 'mechanism': [{'name': n, 'where': w} for n, w in mech],
                    'observe_at': ['assembled_bytes', 'the exception raised'], 'hook_needed': None},
    })
    if na:
        NA.append({'property': id, 'reason': na})


P('C01', 'Integer literals have their written value or are refused',
  'A literal written in any radix notation an assembler documents (prefix, suffix, decimal with optional minus sign, or a quoted character) is '
  'given exactly its mathematical value, in two\'s complement of the field when negative. It is accepted exactly when that value fits the field it is '
  'written to (unsigned or signed as the field demands), and refused otherwise. A name is never taken for a number.',
  ['inputs', 'configurations'], 'every digit string of the stated lengths, every notation of every processor family, every field width, signed and unsigned',
  'The tests try a handful of values per processor; boundary values, suffix notations, mixed-case digits and widths are not covered.',
  [ASM, UT, 'necroassembler/cpu/'], [('parse_integer', ASM), ('_internal_parse_integer', ASM), ('in_bit_range_decimal', UT)])
P('C02', 'Absolute label references resolve to the label\'s address',
  'After linking, every absolute reference to a label (backward, forward, or in another region) holds the label\'s address, range-checked, shifted, '
  'positioned in its bit field and stored in the byte order of the processor; no other byte changes, and several references may share the word of an instruction. A reference whose address does not fit its field '
  'or violates its alignment is refused, never truncated.',
  ['inputs', 'programs'], 'every origin and label address within the stated digits, every reference width, offset, alignment, bit field and byte order',
  'Tests resolve a few labels at small fixed addresses.', [ASM, UT],
  [('_resolve_labels', ASM), ('add_label_translation', ASM), ('pack_bits', UT)])
P('C03', 'Relative label references hold the exact signed distance',
  'After linking, every relative reference holds the signed distance from its reference point to the label, scaled and positioned as the field demands, '
  'whether the label is before, after or in another region. A distance that does not fit the signed field, or whose target breaks the alignment, is refused.',
  ['inputs', 'programs'], 'every pair of origins within the stated digits (reference point not at address 0), every signed width, alignment and byte order',
  'Tests use a few short branches; the limits of the signed range and negative distances across regions are not reached.', [ASM, UT],
  [('_resolve_labels', ASM), ('get_label_relative_address_by_name', ASM), ('in_bit_range_decimal', UT)])
P('C04', 'Expressions compute left to right and are range-checked',
  'An expression over numbers and labels with + - * / & | is evaluated strictly from left to right on unbounded integers (division rounds down; an '
  'operator without operand means 1), after the prefixes have selected bytes of the first term: each leading > drops the low byte, and then k < keep the low k bytes. '
  'The result is stored in the field, in two\'s complement for a negative decimal expression, exactly when it fits, and is refused otherwise.',
  ['inputs', 'programs'], 'every value of the stated number of digits, every operator sequence of up to 3 operators, every prefix of up to 4 characters',
  'Tests evaluate about a dozen fixed expressions.', [ASM], [('_get_math_formula', ASM), ('apply_math_formula', ASM)])
P('C05', 'Undefined, duplicate and malformed labels are refused',
  'A reference to a name that is never defined (alone, or inside an expression) makes the assembly fail; it is never resolved to some value. A label defined twice, '
  'a label with a character other than letters, digits, dot and underscore, and a label that reads as a number are refused; every other label is accepted. '
  'Label names are case-sensitive.',
  ['inputs', 'programs'], 'all names of the stated lengths over the stated alphabets, all reference forms',
  'Tests have one undefined label and one duplicate.', [ASM, STM], [('Label.assemble', STM), ('Dummy.resolve_unknown_symbol', 'necroassembler/linker.py')])
P('C06', 'Origins and bounded regions place bytes at their addresses',
  'After .org A every following byte has address A, A+1, ...; a region declared with .org A B is padded with the fill value up to B (inclusive) when the source ends or '
  'when the next origin lies after B, and up to the next origin when that lies inside it. A region that ends before it starts, and an origin that overlaps '
  'what a bounded region already holds, are refused. Content that overruns the declared end of a region is outside this statement.',
  ['inputs', 'programs'], 'sequences of up to 5 origins, data and padding statements with symbolic addresses and sizes',
  'Tests have a few fixed regions; the last address, exactly full regions and touching regions are not reached.', [ASM],
  [('change_org', ASM), ('assemble', ASM)])
P('C07', 'Padding, reservation and repetition emit exactly what they say',
  '.fill N [V] emits N bytes V; .align N pads to the next multiple of N of the current address; .goto A and .upto N pad to address A and to offset N from the origin and are '
  'refused when that is already passed; .ram N advances the address by N without output; .repeat N emits its block N times (reserving its space each time), with the label references of every copy resolved for that copy. '
  'Without V padding uses the fill value of the assembler, zero unless it sets another. Malformed operands are refused.',
  ['inputs', 'programs'], 'all pairs (thorough: triples) of these directives, at every symbolic origin and with symbolic operands',
  'Tests use one or two fixed values per directive and hardly combine them.', [ASM],
  [('directive_fill', ASM), ('directive_goto', ASM), ('directive_upto', ASM), ('directive_align', ASM), ('directive_ram', ASM), ('directive_end_repeat', ASM)])
P('C08', 'Data directives emit their operands byte for byte',
  '.db/.byte, .dw/.word and .dd/.dl/.dword emit each operand in order in 1, 2 and 4 bytes in the byte order of the processor, refusing values that do not fit; '
  'strings in .db are emitted character by character, a backslash taking the next character literally. '
  '.db_to_ascii and .dw_to_ascii (and their zero-terminated forms) emit the decimal digits of a number (quoted or not), or the 3 and 5 digits of a label\'s address.',
  ['inputs'], 'every value of the stated digits in every notation, all printable strings of the stated lengths, all escape positions',
  'Tests use one or two values per directive.', [ASM, UT], [('directive_db', ASM), ('directive_dw', ASM), ('directive_dd', ASM), ('directive_db_to_ascii', ASM)])
P('C09', 'Every statement sees and advances the same address counter',
  'In any program mixing instructions, data, origins, padding, reservation, repetition and references, each statement is placed at the address the previous ones imply, '
  'each label equals the address of the statement that follows it, and each reference (absolute or relative, forward or backward) holds the value those addresses imply.',
  ['programs', 'inputs'], 'all programs of 3 (thorough: 4) statements over 10 kinds with symbolic operands, against one reference model',
  'Tests exercise directives one at a time.', [ASM, STM], [('pc', ASM), ('append_assembled_bytes', ASM), ('Label.assemble', STM)])
P('C10', 'Invoking a macro equals writing its body with the arguments',
  'Invoking a macro gives the same output, labels and outcome as writing its body in place with each parameter replaced, as a whole name, by its argument; text inside strings and characters '
  'is never replaced. Invocations are independent of each other, macros may invoke earlier macros, and recording errors (nested recording, labels inside a macro, '
  'ending without start, too few arguments) are refused.',
  ['programs', 'inputs'], 'bodies of every kind with 0-2 parameters of symbolic names and arguments, 1-2 (thorough: 4) invocations, compared with the expanded text',
  'Tests define three macros with fixed names.', ['necroassembler/macros.py', STM, UT], [('Macro.assemble', 'necroassembler/macros.py'), ('substitute_with_dict', UT)])
P('C11', 'A definition replaces whole names, from its place on',
  'After .define NAME VALUE every later occurrence of NAME as a whole name in instructions and directives (also inside an expression or next to a prefix) means VALUE, until NAME is '
  'defined again; names that merely contain NAME, labels, strings, characters and the names a .macro declares are untouched, and statements before the definition are unaffected. A definition with '
  'other than two operands is refused.',
  ['programs', 'inputs'], 'symbolic names and values, every place a name can occur',
  'Tests have one definition.', [STM, UT, ASM], [('substitute_with_dict', UT), ('directive_define', ASM)])
P('C12', 'Source text splits into statements by fixed lexical rules',
  'Blanks, tabs, commas, line ends and comments only separate; brackets are tokens of their own; quoted text is one token in which nothing else is special; a colon ends a label that stands '
  'alone; and an unterminated quotation is refused. Spacing, commas, comments and the letter case of mnemonics, registers and directives never change the output. '
  'Unknown instructions and directives are refused.',
  ['inputs', 'programs'], 'every text of up to 3 characters over all character classes (5 over each subset; thorough 4 and 7), alone and inside contexts',
  'Tests have about twenty fixed lines.', ['necroassembler/tokenizer.py', STM], [('Tokenizer', 'necroassembler/tokenizer.py'), ('Instruction.assemble', STM)])
P('C13', 'Included files behave as if written in place',
  '.include gives the same output, labels and outcome as the text of the file written in its place, wherever it stands; .incbin copies the bytes of the file verbatim; .inccsv, .inccsv_le16 and '
  '.incjson emit every item in order in its width, refusing items that do not fit. A missing file or operand is refused.',
  ['programs', 'inputs'], 'symbolic contents in every kind of context (regions, sections, repetition, definitions, nesting)',
  'The tests include almost no files.', [ASM], [('directive_include', ASM), ('directive_incbin', ASM), ('directive_inccsv', ASM), ('directive_incjson', ASM)])
P('C14', 'Assemblers are independent of each other',
  'What an assembler produces depends only on its class and the sources it is given: any interleaving of construction, assembling and linking with another assembler of the same or another class, '
  'and anything assembled before, leaves its bytes, labels, sections, exports and errors unchanged. Assembling a source in two calls equals assembling it in one '
  '(apart from the padding of a bounded region at the end of a call).',
  ['schedules', 'histories', 'programs'], 'all interleavings of the steps of two assemblers of 8 classes over 23 pairs of sources with symbolic values (thorough: all 441 pairs)',
  'Tests use a fresh assembler each and never two at once.', [ASM], [('__init__', ASM), ('register_define', ASM), ('_discover', ASM)])
P('C15', 'ELF objects describe exactly what was assembled',
  'Linking with the ELF linker yields a well-formed 32 or 64 bit object in the chosen byte order: every section has its name, permissions, address, alignment, size and bytes; the symbol table starts '
  'with the undefined symbol and then holds each exported label once, global, in its section, with its offset in it. A linker may be used for several programs. Duplicate sections or exports, '
  'unknown permissions and malformed operands are refused.',
  ['programs', 'inputs'], '1-4 sections with symbolic content and origins, exported labels at every position, both classes and byte orders, read back by an independent reader',
  'No test covers the linker.', ['necroassembler/linker.py', ASM], [('ELF.link', 'necroassembler/linker.py'), ('directive_section', ASM), ('directive_export', ASM)])
P('C16', 'Packing and range helpers are exact',
  'The packing helpers store each value modulo its width in the byte order of their name (None as 0). Bit-field packing puts each value in exactly its bits, leaves the others unchanged, accepts exactly '
  'the values of [-2^(n-1), 2^n) for n bits and refuses the rest and reversed ranges. The range predicates hold exactly for the unsigned and signed ranges of the width, and '
  'a name is valid exactly when made of letters, digits, underscore and dot.',
  ['inputs'], 'every integer within two bits more than the width (thorough: 8), field layouts of the instruction sets (thorough: all 528 ranges of 32 bits)',
  'Tests reach them only through a few instructions.', [UT], [('pack_bits', UT), ('in_bit_range_decimal', UT), ('neg_fix', UT)])
P('C17', 'Refusals name the statement or label at fault',
  'The message of a refused instruction, macro invocation with too few arguments, label definition, unknown directive or directive with malformed operands ends with the line of that statement (line feeds counted from 1 in its own source), the file '
  'it comes from when there is one, and its tokens: also behind blank lines, comments and quotations of any kind, in included files, in macros (the line in the macro) and in later sources. '
  'An unterminated quotation is reported with the line it starts on. A reference refused when linking is reported with the name of its label and, when out of range, its value and the number of bits.',
  ['inputs', 'programs'], 'every text of the stated length before the statement, every kind of malformed statement, every name and value of the stated digits',
  'No test looks at a message.', [STM, ASM, 'necroassembler/tokenizer.py', 'necroassembler/exceptions.py'],
  [('Statement.__str__', STM), ('Tokenizer.parse', 'necroassembler/tokenizer.py'), ('AssemblerException', 'necroassembler/exceptions.py')])
P('M02', 'Logging reports what is emitted and changes nothing',
  'While logging is on (.log, .log on; until .log off) one line is printed for each statement: "assembled", ending with its bytes and the offset in the output where they start, or "not assembled" '
  'when it emits none; and when linking, one line for each reference to a label, with its name, its bytes and their offset. Nothing is printed while it is off, and output and outcome are the same as without. '
  'Other operands of .log are refused.',
  ['programs', 'inputs'], 'programs of 2-3 statements with symbolic operands and every place of the switches',
  'No test looks at the log.', [ASM], [('_assemble_statements', ASM), ('_resolve_labels', ASM), ('directive_log', ASM)])
P('M01', 'The command line writes exactly the linked image, or nothing',
  'Running an assembler on sources and a destination writes to the destination the bytes of all sources assembled in order as one program with shared labels, linked with the given linker and with the '
  'pre- and post-link passes run once each in order around the resolution of labels. When any source is refused or missing the destination is not written or changed, and '
  'the sources never change. With less than a source and a destination it tells its usage and writes nothing.',
  ['programs', 'inputs', 'configurations'], '10 assembler classes, 1-3 sources with symbolic contents, failing sources of every kind',
  'No test runs the command line.', [ASM, 'necroassembler/platforms/'], [('main', ASM), ('save', ASM), ('link', ASM)])
P('P01', 'Gameboy images have a correct header, checksums and tiles',
  'The cartridge directive emits the standard 80 byte header at $100 and nowhere else; each header field directive changes exactly its own bytes and refuses data that does not fit or a missing header. '
  'After linking the header checksum at $14D and the global checksum at $14E (high byte first, over all bytes but itself) are correct and no other byte is changed. '
  'Tiles are converted to 2 bits per pixel, rows of two planes, left to right and top to bottom, refusing other sizes, modes and pixel values. '
  'The predefined names (VRAM, LCDC, ...) stand for the addresses of the hardware.',
  ['inputs'], 'symbolic rom contents, titles, fields and fill values; symbolic pixels in images of up to 24x16',
  'No test covers the platform.', ['necroassembler/platforms/gameboy.py'], [('AssemblerGameboy', 'necroassembler/platforms/gameboy.py')])
P('P02', 'NES images have a correct header, pattern tables and symbols',
  'The cartridge directive emits the 16 byte iNES header at the start and nowhere else, with the number of PRG and CHR banks in bytes 4 and 5; field directives refuse wrong data. '
  'Pattern tables are converted plane by plane from 128x128 indexed images only. The command line writes, beside the image, one debug line $ADDR#name# ended by CR LF for each label of '
  '8000-FFFF in .0.nl and of 0-7FF in .ram.nl. The predefined names (PPUCTRL, ...) stand for the addresses of the hardware.',
  ['inputs', 'programs'], 'symbolic bank numbers, contents, label addresses and pixels', 'No test covers the platform.',
  ['necroassembler/platforms/nes.py'], [('AssemblerNES', 'necroassembler/platforms/nes.py'), ('main', 'necroassembler/platforms/nes.py')])
P('P03', 'Master System tiles are converted to 4 planes exactly',
  'Tiles of an indexed image whose sides are multiples of 8 are emitted left to right and top to bottom, each row as four bytes, plane 0 first, the leftmost pixel in the highest bit. '
  'Pixels above 15, other image modes, other sizes and wrong operands are refused. The predefined names (VDPDATA, ...) stand for the ports of the hardware.',
  ['inputs'], 'every pixel value, symbolic pixels in images of up to 24x16 (thorough 64x32)', 'No test covers the platform.',
  ['necroassembler/platforms/sms.py'], [('AssemblerSegaMasterSystem', 'necroassembler/platforms/sms.py')])
P('P04', 'Gameboy Advance and Genesis images have correct checksums',
  'The Gameboy Advance command line writes the assembled image with byte $BD replaced by the header complement -(sum of $A0-$BC)-$19; the Genesis one with the word at $18E replaced by the sum of the '
  'big-endian words from $200 to the end, an odd last byte counting as a high byte. No other byte changes.',
  ['inputs'], 'symbolic bytes in and around the header, odd and even sizes', 'No test covers these platforms.',
  ['necroassembler/platforms/gba.py', 'necroassembler/platforms/genesis.py'], [('main', 'necroassembler/platforms/gba.py'), ('main', 'necroassembler/platforms/genesis.py')])
P('P05', 'PlayStation executables have a correct PS-X EXE header',
  'The PlayStation command line writes a 2048 byte PS-X EXE header (signature, entry point and text address 80010000, text size, stack pointer 801FFFF0 at offset 30 hexadecimal, region text) followed by the assembled '
  'bytes, padded with zeroes to a multiple of 2048.',
  ['inputs'], 'programs of 1 to 4096 bytes around the multiples of 2048 with symbolic bytes', 'No test covers the platform.',
  ['necroassembler/platforms/psx.py'], [('main', 'necroassembler/platforms/psx.py')])

try:
    from catalog_isa import add as _add
    _add(P)
except ImportError:
    pass

TECH = 'own symbolic executor over the real Python source, z3 (QF_BV), counterexamples replayed under CPython'
NOTE = ('Bounded: holds for every value of the symbolic inputs within the bounds recorded in the evidence; every explored path is re-run with a model of its path condition '
        'on the unmodified code. Trusts the symbolic executor, z3 and the reference model in the harness.')


def main():
    with open(os.path.join(HERE, 'properties.jsonl'), 'w') as f:
        for p in PROPS:
            assert len(p['title']) <= 80, p['title']
            f.write(json.dumps(p) + '\n')
    na = {n['property'] for n in NA}
    m = {
        'version': 1, 'setup_cmd': 'python3-vt -c "import z3"',
        'checks': [{
            'property': p['id'], 'quick_cmd': 'python3-vt check.py %s quick' % p['id'],
            'thorough_cmd': 'python3-vt check.py %s thorough' % p['id'], 'technique': TECH, 'level': 'model_checking', 'level_note': NOTE,
        } for p in PROPS if p['id'] not in na],
        'not_applicable': NA,
        'notes': 'No hooks in /repo. check.py re-reads /repo on every run.',
    }
    with open(os.path.join(HERE, 'MANIFEST.json'), 'w') as f:
        json.dump(m, f, indent=1)
        f.write('\n')


if __name__ == '__main__':
    main()
