"""Which harness cases decide which property, and within what bounds."""

PROPS = {}


def P(pid, cases, bounds, outside='', assumptions=()):
    PROPS[pid] = {'cases': cases if isinstance(cases, list) else [cases], 'bounds': bounds, 'outside': outside,
                  'assumptions': list(assumptions)}


P('C01', 'harness.literals:cases',
  'every notation of every assembler family; fields of 1-32 (thorough 64) bits, signed and unsigned; for each as many digits as the field needs, one less and one more (thorough: every length up to two '
  'more; decimals up to 10 digits), all digits symbolic; every character as a literal, also beyond ASCII; names of up to 3 (thorough 6) further characters',
  'longer numbers')
P('C02', 'harness.labels:cases_absolute',
  'one reference and one label, before, after and in another region; origins of 2-8 (thorough 1-10) hexadecimal digits; 3 data directives and 21 combinations of size, field, alignment and filter; both byte orders',
  'more than one reference to the same byte')
P('C03', 'harness.labels:cases_relative',
  'one reference and one label in every relative position; origins of 4 (thorough 2-6) hexadecimal digits; 11 combinations of size, field, alignment and filter, 3 reference points, both byte orders',
  'relative references at base 0 (means absolute)')
P('C04', 'harness.labels:cases_math',
  'all 6 operators alone and in pairs (thorough: in triples) over numbers of 1-3 digits, labels of 4-8 (thorough 10) hexadecimal digits with up to 3 operators and operands, all prefixes of up to 5 characters '
  'in 17 combinations on labels and on numbers of 2-10 (thorough 12) digits; terms of up to 64 bits',
  'longer expressions; wider operands of * and /')
P('C05', 'harness.labels:cases_unknown', 'names of 1-3 (thorough 6) symbolic characters in 22 kinds of reference; 9 ways to define a label twice; labels of 1-3 (6) characters of every class', 'longer names')
P('C06', 'harness.layout:cases_org',
  '33 sequences of up to 4 (thorough: all of 5) origins, bounded regions, fills, reservations and data; addresses of 2-4 (thorough 8) hexadecimal digits, operands of 2 digits, all symbolic',
  'content that overruns the end of a bounded region')
P('C07', 'harness.layout:cases_move',
  '10 padding, moving and repeating statements alone and in pairs (thorough: in triples) at addresses of 3 digits with operands of 2-3 (reservations: 6) digits, all symbolic; names and wrong numbers of operands', 'longer programs')
P('C08', 'harness.data:cases', '.db, .dw, .dd with 1-3 (thorough 12) symbolic numbers in every notation, strings of 1-4 (11) and escapes in strings of 1-3 (6) symbolic characters, numbers as text of 1-5 digits', 'longer lists')
P('C09', 'harness.layout:cases_program', 'programs of 3 (thorough 4) statements out of 14, among them bounded regions, with label references between them, symbolic addresses and operands of up to 5 digits', 'longer programs')
P('C10', 'harness.text:cases_macro', 'macros of 0-5 (thorough 6) parameters invoked 1-2 (4) times, all bodies of a list, symbolic digits in the arguments, symbolic parameter and body names of 1-3 (5) characters, nesting, redefinition, names that shadow instructions and defines', 'recursive macros')
P('C11', 'harness.text:cases_define', 'names of 1-3 (thorough 6) symbolic characters in every form of use, against other names of 1-3 (5) characters, 1-5 definitions, chains of definitions', 'longer names')
P('C12', 'harness.tokens:cases', 'all texts of up to 3 (thorough 4) characters over 16 representative characters, alone and inside 9 contexts; all texts of up to 5 (7) characters over 8 smaller alphabets; blanks, commas, comments and empty lines between statements', 'longer texts')
P('C13', 'harness.text:cases_files', '11 ways to include a file, two levels of inclusion; binary files of up to 16 (thorough 300) bytes, csv files of up to 2 rows of up to 2 (3x4) symbolic numbers, json paths of up to 3 keys and 3 (6) items, tables long enough to wrap a line, all contents symbolic', 'larger files; a model of csv and json for simple contents')
P('C15', 'harness.elf:cases', '7 (thorough 25) plans of 1-4, 5 and 9 sections with symbolic bytes, names, origins and exported labels; 32/64 bit, both byte orders',
  'relocations (not implemented by the linker: known finding)')
P('C14', 'harness.isolation:cases', 'two assemblers, 10 class pairs, 23 source pairs (thorough: 729), 12 pairs with cartridge headers and export lists, every interleaving of their 4 steps each, two symbolic bytes per source',
  'more than two assemblers at once; threads')
P('C16', 'harness.utils:cases', 'values up to 2 bits wider than the target (thorough: 8), 1-3 arguments; bit fields of up to 32 bits; names of up to 3 (5) characters, also beyond ASCII', 'wider values')
P('M01', 'harness.cli:cases', '10 classes, 1-3 sources, 2-3 symbolic digits each; ELF and plain linking; repeated runs in one process', 'I/O errors while writing the destination')
P('C17', 'harness.report:cases',
  '10 kinds of malformed statements behind 2 (thorough 1-4) symbolic characters in 10 contexts (blank lines, comments, strings, line ends of every kind), in included files (two levels), macros and later sources; '
  'labels of 1-3 (6) symbolic characters at symbolic addresses', 'refused directives (their messages do not all name a line); statements that extend over several lines')
P('M02', 'harness.report:cases_log', 'programs of 2-3 statements out of 10 kinds with symbolic operands, .log switched on and off at every place; operands of .log of 1-4 (thorough 5) characters',
  'the log of instructions that assemble nested files')
P('P01', 'harness.platforms:cases_gameboy', 'roms of 150h-8000h bytes with up to 8 symbolic bytes, the header behind .org and .ram, titles of 1-16 symbolic characters; images up to 24x16 (thorough 128x8)', 'Pillow itself (a stand-in for Image.open provides the pixels)')
P('P02', 'harness.platforms:cases_nes', '1-3 labels with symbolic origins of 3-5 digits; 128x128 images with 16-64 symbolic pixels', 'Pillow itself (a stand-in)')
P('P03', 'harness.platforms:cases_sms', 'images up to 24x16 (thorough 64x32), all pixels symbolic', 'Pillow itself (a stand-in)')
P('P04', 'harness.platforms:cases_checksums', 'images of up to 300h bytes (thorough 4001h) with 11-29 symbolic bytes', 'larger images')
P('P05', 'harness.platforms:cases_psx', 'programs of 1-4096 bytes (thorough 65537) with 7 symbolic bytes', 'an empty program')
P('I01', 'harness.mos6502:cases', 'all mnemonics and written forms; operands of up to 5 (thorough 6) digits, labels at symbolic addresses of up to 4 (5) hexadecimal digits',
  'label expressions other than +1, < and >')
P('I02', 'harness.tabular:cases_z80', 'all instructions; operands of up to 5 (thorough 17) digits, labels at symbolic addresses of 4 (5) hexadecimal digits; operand matrix of up to 3 symbolic registers in 46 shapes',
  'displacements of 128-255 in hexadecimal or as an address')
P('I03', 'harness.tabular:cases_lr35902', 'all instructions; operands of up to 5 (thorough 17) digits, labels at symbolic addresses of 4 (5) hexadecimal digits; operand matrix of up to 3 symbolic registers in 38 shapes',
  'label expressions as signed offsets; the mnemonic BRA')
P('I04', 'harness.i8086:cases', 'all 87 mnemonics, all registers and memory operands at once, operands of up to 5 (thorough: every length up to 6) digits, labels at symbolic addresses of 5 hexadecimal digits; '
  'operand shapes of up to 3 operands',
  'hexadecimal displacements above 0x7fff, loads of CS, instructions of the processor that the assembler lacks; different labels in two operands')
P('I05', 'harness.words:cases_mips', 'all instructions, all 32 registers in every field at once, operands of up to 9 digits, labels at symbolic addresses of 8 (thorough 9) hexadecimal digits; 51 operand shapes',
  'unaligned numeric branch distances, negative shift distances, instructions at unaligned addresses; more than one label in an instruction')
P('I06', 'harness.words:cases_thumb', 'all instruction forms, all registers of each field at once, operands of up to 7 digits, labels at symbolic addresses of up to 8 hexadecimal digits; operand shapes of up to 4 operands; '
  'register lists of up to 4 (thorough 5) items',
  'unaligned and negative immediates of scaled operands; instructions at odd addresses; more than one label in an instruction')
P('I08', 'harness.words:cases_powerpc', 'all 538 forms, all 32 registers of each field at once, operands of up to 8 digits, labels at symbolic addresses of 8 hexadecimal digits; operand shapes of up to 5 operands',
  'displacement(register) operands, vector registers, rotation masks, special registers by name; unaligned numeric targets; instructions at unaligned addresses; more than one label in an instruction')
P('I07', 'harness.m68k:cases', 'all mnemonics x all pairs of effective addresses, all registers at once, numbers of up to 10 digits (thorough: of every length up to 11, and binary), labels at symbolic addresses of 8 hexadecimal '
  'digits; operand shapes singly, in pairs, in triples',
  'odd numeric distances, labels that turn negative, other sizes with CCR and SR; different labels in the two operands; instructions at odd addresses')
