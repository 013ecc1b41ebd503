"""From source text to statements: separators, comments, quotes, letter case."""
from necroassembler import Assembler, opcode
from necroassembler.tokenizer import Tokenizer
from harness.lib import hexlit, number, le, run

# one representative and one extra member per class of characters
FULL = 'aZ.0 \t,\n\r;:"\'\\()[{#'


def ref_statements(text):
    """the lexical rules, written over whole lines instead of character states

    -> list of (kind, tokens) or None when the text has to be refused"""
    text = text + '\n'
    out = []
    toks = []
    n = len(text)
    i = 0
    while i < n:
        c = text[i]
        if c == ';' or c == '\n' or c == '\r':
            if toks:
                out.append(('directive' if toks[0][0] == '.' else 'instruction', toks))
            toks = []
            if c == ';':
                while i < n and text[i] != '\n' and text[i] != '\r':
                    i += 1
            i += 1
        elif c == ' ' or c == '\t' or c == ',':
            i += 1
        elif c == '"' or c == "'":
            j = i + 1
            body = ''
            while j < n and text[j] != c:
                if text[j] == '\\':
                    j += 1
                    if j >= n:
                        return None
                body = body + text[j]
                j += 1
            if j >= n:
                return None
            if body:
                toks.append(c + body + c)
            i = j + 1
        elif c == '(' or c == ')' or c == '[' or c == ']' or c == '{' or c == '}':
            toks.append(c)
            i += 1
        elif c == ':':
            # a label has a name, and is alone before its colon
            return None
        else:
            j = i
            while j < n and not plain_end(text[j]):
                j += 1
            word = text[i:j]
            if text[j] == ':':
                if toks:
                    return None
                out.append(('label', [word]))
                j += 1
            else:
                toks.append(word)
            i = j
    return out


def plain_end(c):
    return c in (' ', '\t', ',', '\n', '\r', ';', ':', '"', "'", '(', ')', '[', ']', '{', '}')


def differential(ctx, n, alphabet, pre, post):
    """any text is split into the statements the lexical rules give, or refused"""
    t = ctx.chars('t', n, alphabet)
    src = pre + t + post
    want = ref_statements(src)
    tk = Tokenizer()
    st, r = ctx.attempt(tk.parse, src)
    if want is None:
        ctx.require(st == 'err', 'malformed text is accepted')
        return
    ctx.require(st == 'ok', 'well-formed text is refused', detail=repr(r))
    got = tk.statements
    ctx.require(len(got) == len(want), 'a statement is lost or invented',
                detail=repr(([s.tokens for s in got], want)))
    for g, w in zip(got, want):
        ctx.require(type(g).__name__.lower() == w[0], 'a statement is of the wrong kind')
        ctx.require(len(g.tokens) == len(w[1]), 'a token is lost or invented')
        for a, b in zip(g.tokens, w[1]):
            ctx.require(a == b, 'a token has the wrong text')


class Cpu(Assembler):
    hex_prefixes = ('0x',)

    def register_instructions(self):
        self.register_instruction('NOP', b'\xA0')

    @opcode('LOAD')
    def load(self, instr):
        if instr.match('R1', None):
            return bytes([0xB1, self.parse_integer_or_label(label=instr.tokens[2], size=1, bits_size=8, offset=1)])
        if instr.match('R2', None):
            return bytes([0xB2, self.parse_integer_or_label(label=instr.tokens[2], size=1, bits_size=8, offset=1)])
        return None


def spacing(ctx, n, k):
    """blanks, commas, comments and empty lines never change the output"""
    asm = Cpu()
    v, vv = hexlit(ctx, 'v', 2)
    lead = ctx.chars('lead', n, ' \t\n')
    sep = ctx.chars('sep', n, ' \t,') if n else ' '
    trail = ctx.chars('trail', n, ' \t\n')
    com = ctx.chars('com', k, ''.join([chr(c) for c in range(32, 127)]))
    nl = ctx.chars('nl', 1, '\n\r')
    src = lead + 'load' + sep + 'r1' + sep + v + trail + ';' + com + nl + 'nop' + ';' + com + '\n' + 'a: load r2' + sep + v
    st, r = run(ctx, asm, src)
    ctx.require(st == 'ok', 'spacing or a comment makes a program invalid', detail=repr(r))
    ctx.require_bytes(asm.assembled_bytes, bytes([0xB1, vv, 0xA0, 0xB2, vv]), 'spacing or a comment changes the output')
    ctx.require(asm.get_label_absolute_address_by_name('a') == 3, 'a label moves')


def word(ctx, name, text):
    """text in any mixture of letter case"""
    out = ''
    for i, ch in enumerate(text):
        if ch.lower() != ch.upper():
            out = out + ctx.pick('%s%d' % (name, i), [ch.lower(), ch.upper()])
        else:
            out = out + ch
    return out


def letter_case(ctx, sensitive):
    """mnemonics, registers and directives are case-insensitive; labels are not"""
    asm = Cpu()
    v, vv = hexlit(ctx, 'v', 2)
    a = word(ctx, 'a', 'lab')
    b = word(ctx, 'b', 'lab')
    src = (word(ctx, 'o', '.org') + ' 0x10\n' + word(ctx, 'n', 'nop') + '\n' + a + ': ' + word(ctx, 'l', 'load') + ' ' +
           word(ctx, 'r', 'r2') + ' ' + v + '\n' + word(ctx, 'd', '.db') + ' ' + b)
    st, r = run(ctx, asm, src)
    if st == 'ok':
        ctx.require(a == b, 'labels that differ in case are confused')
        ctx.require_bytes(asm.assembled_bytes, bytes([0xA0, 0xB2, vv, 0x11]), 'letter case changes the output')
    else:
        ctx.require(ctx.and_(a != b, r == 'UnknownLabel'), 'letter case makes a program invalid', detail=repr(r))


def unknown_statement(ctx, n, d):
    """an unknown mnemonic or directive is refused"""
    asm = Cpu()
    t = ctx.chars('t', n, 'nopNOP1db_')
    ctx.assume(ord(t[0]) > 57)
    st, r = run(ctx, asm, '.db 1\n' + ('.' if d else '') + t + ' 2\n')
    u = t.upper()
    if d:
        if st == 'ok':
            ctx.require(ctx.or_(u == 'DB', u == 'DD'), 'an unknown directive is accepted')
        else:
            ctx.require(ctx.and_(u != 'DB', u != 'DD', r == 'UnknownDirective'), 'an unknown directive is misreported', detail=repr(r))
    else:
        # NOP takes no operands
        ctx.require(st == 'err', 'an unknown instruction is accepted')
        ctx.require(r == ('InvalidOpCodeArguments' if u == 'NOP' else 'UnknownInstruction'),
                    'an unknown instruction is misreported', detail=repr(r))


def case(fn, **p):
    return {'fn': 'harness.tokens:' + fn, 'params': p}


def cases(tier):
    out = []
    deep = tier != 'quick'
    for n in range(1, 4 if not deep else 5):
        out.append(case('differential', n=n, alphabet=FULL, pre='', post=''))
        if n == 3 and not deep:
            continue
        for pre, post in (('ab ', ' cd'), ('x"', '"y\nz'), ("q '", "' w\n"), ('.d ', ';c\ne f'), ('l:', 'm'), ('"\\', '"'),
                          ('a;', '\nb'), ('\n', '\n'), ('(a', ')')):
            out.append(case('differential', n=n, alphabet=FULL, pre=pre, post=post))
    for n in (3, 4, 5) if not deep else (3, 4, 5, 6, 7):
        for al in ('a "\n', 'a\'\n;', 'a:.\n', 'a (,', 'a;"\n', 'a\\"\'', 'a \t\r', ".a:'"):
            out.append(case('differential', n=n, alphabet=al, pre='', post=''))
            if deep:
                out.append(case('differential', n=n, alphabet=al, pre='a ', post='\nb'))
    for n in range(0, 3 if not deep else 5):
        for k in (0, 1, 3):
            if n or k:
                out.append(case('spacing', n=max(1, n), k=k))
    out.append(case('letter_case', sensitive=False))
    for n in range(1, 5):
        for d in (False, True):
            out.append(case('unknown_statement', n=n, d=d))
    return out
