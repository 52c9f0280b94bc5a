"""Independent reference assembler for the asm6809 dialect.

Written from the manual (man/asm6809.1), the MC6809/HD6309 data sheets and, for
behaviour the manual leaves open (what an unresolved operand occupies in an
early pass, how error severities combine), from observation of the tool.  It
shares no code with it.  It works from the same source text the tool is given,
so any program, however produced, can be put to both.

Where a construct is outside what the model promises to get right it raises
Unsupported, and the caller counts the case as undecided rather than judging it.
"""
import math
import posixpath
import re
import sys
import struct

# expressions are evaluated by recursion
sys.setrecursionlimit(60000)

from . import isa as ISA


class Unsupported(Exception):
    pass


# error levels, in the order the tool ranks them
NONE, INEFFICIENT, ILLEGAL, INCONSISTENT, OUT_OF_RANGE, SYNTAX, DATA, FATAL = range(8)

I64MIN = -(1 << 63)
I64MAX = (1 << 63) - 1


def wrap64(v):
    v &= (1 << 64) - 1
    return v - (1 << 64) if v >> 63 else v


# ---------------------------------------------------------------------------
# Values.  (type, data, attr); undefined is None.

class V:
    __slots__ = ('t', 'v', 'attr')

    def __init__(self, t, v=None, attr=None):
        self.t = t
        self.v = v
        self.attr = attr

    def __repr__(self):
        return 'V(%s,%r,%s)' % (self.t, self.v, self.attr)

    def with_attr(self, a):
        return V(self.t, self.v, a)

    def with_attr_if(self, a):
        """Register decorations survive being passed through a name."""
        if a is None and self.attr in ('+', '++', '-r', '--r', 'r-'):
            return self
        return V(self.t, self.v, a)


def v_int(i, attr=None):
    return V('int', i, attr)


# ---------------------------------------------------------------------------
# Scanner.  One logical line at a time.

WORD = r'[A-Za-z_][A-Za-z0-9_.]*'
WS = r'[ \t]'


def _number(kind, m, base=10, skip=0):
    """A number, or if it can't be represented something never expected."""
    v = int(m[skip:], base)
    return (kind, v) if v <= I64MAX else ('CH', '\1')


class Line:
    __slots__ = ('label', 'opcode', 'args', 'text', 'bad', 'num')

    def __init__(self):
        self.label = None
        self.opcode = None   # list of id parts
        self.args = None     # list of arg nodes or None
        self.text = ''
        self.bad = None      # None | 'line' (dropped) | 'arg'
        self.num = 0


RULES = {}


def _build():
    def R(p):
        return re.compile(p)

    def num(base, skip):
        return lambda s: _number('INT', s, base, skip)
    interp_amp = [
        (R(r'&[0-9]'), lambda s: ('INTERP', int(s[1:])), None),
        (R(r'&\{[0-9]+\}'), lambda s: ('INTERP', int(s[2:-1])), None),
        (R(r'\\[0-9]'), lambda s: ('INTERP', int(s[1:])), None),
        (R(r'\\\{[0-9]+\}'), lambda s: ('INTERP', int(s[2:-1])), None),
    ]
    numbers = [
        (R(r'%[01]+'), num(2, 1)), (R(r'0b[01]+'), num(2, 2)),
        (R(r'@[0-7]+'), num(8, 1)), (R(r'0[0-7]+'), num(8, 0)),
        (R(r'[0-9]+'), num(10, 0)), (R(r'\$[0-9A-Fa-f]+'), num(16, 1)),
        (R(r'0x[0-9A-Fa-f]+'), num(16, 2)),
        (R(r"'.'"), lambda s: ('INT', _chr(s[1]))),
        (R(r"'."), lambda s: ('INT', _chr(s[1]))),
    ]
    RULES['INITIAL'] = (
        [(r, f, None) for r, f in numbers] +
        [(R(r'!'), lambda s: ('INT', 0), None),
         (R(WORD), lambda s: ('WORD', s), None)] + interp_amp +
        [(R(WS + r'*[;*].*'), None, None),
         (R(WS + r'+$'), None, None),
         (R(WS + r'+'), lambda s: ('WS', s), 'opcode'),
         (R(r'.'), lambda s: ('CH', s), None)])
    RULES['opcode'] = (
        [(R(WORD), lambda s: ('WORD', s), None)] + interp_amp +
        [(R(WS + r'*;.*'), None, None),
         (R(WS + r'+$'), None, None),
         (R(WS + r'+'), lambda s: ('WS', s), 'arg'),
         (R(r'.'), lambda s: ('CH', s), 'INITIAL')])
    # what follows a positional variable within a name
    rest = [(R(r'[A-Za-z0-9_.]+'), lambda s: ('ID', s), None)]
    for k in ('INITIAL', 'opcode'):
        amp = {id(x) for x in interp_amp}
        RULES[k + 'cont'] = rest + [(x[0], x[1], k + 'cont') if id(x) in amp else x for x in RULES[k]]
        RULES[k] = [(x[0], x[1], k + 'cont') if id(x) in amp else x for x in RULES[k]]
    argint = [
        (R(r'&\{[0-9]+\}'), lambda s: ('INTERP', int(s[2:-1])), 'argnostrnum'),
        (R(r'\\[0-9]'), lambda s: ('INTERP', int(s[1:])), 'argnostrnum'),
        (R(r'\\\{[0-9]+\}'), lambda s: ('INTERP', int(s[2:-1])), 'argnostrnum'),
        (R(r'\+\+'), lambda s: ('OP', '++'), 'argnostr'),
        (R(r'--'), lambda s: ('OP', '--'), 'argnostr'),
        (R(r'[0-9]+[bB]'), lambda s: _number('BREF', s[:-1]), 'argnostr'),
        (R(r'[0-9]+[fF]'), lambda s: _number('FREF', s[:-1]), 'argnostr'),
    ] + [(r, f, 'argnostr') for r, f in numbers] + [
        (R(r'[0-9]*\.[0-9]+'), lambda s: ('FLOAT', float(s)), 'argnostr'),
        (R(r'[0-9]+\.'), lambda s: ('FLOAT', float(s)), 'argnostr'),
    ] + [(R(re.escape(o)), lambda s: ('OP', s), 'arg')
         for o in ('<<', '>>', '<=', '>=', '==', '!=', '&&', '||')] + [
        (R(r'[!#%&(*+\-:<>?\[^|~]'), lambda s: ('OP', s), 'arg'),
        (R(r'[)\]]'), lambda s: ('OP', s), 'argnostr'),
        (R(r','), lambda s: ('OP', s), 'arg'),
        (R(WS + r'*;.*'), None, None),
        (R(WS + r'+'), None, None),
        (R(r'.'), lambda s: ('CH', s), None)]
    RULES['arg'] = ([(R(r'[/"]'), lambda s: ('DELIM', s), 'string')] +
                    [(R(WORD), lambda s: ('WORD', s), 'argnostr')] + argint)
    slash = [(R(r'/'), lambda s: ('OP', s), 'arg')]
    RULES['argnostr'] = (slash + [(R(WORD), lambda s: ('WORD', s), 'argnostr')] + argint)
    RULES['argnostrnum'] = (slash + [(R(r'[A-Za-z0-9_.]+'), lambda s: ('ID', s), 'argnostrnum')] + argint)
    RULES['string'] = (
        [(R(r'[/"]'), lambda s: ('Q', s), None),
         (R(r'&[0-9]'), lambda s: ('INTERP', int(s[1:])), None),
         (R(r'&\{[0-9]+\}'), lambda s: ('INTERP', int(s[2:-1])), None),
         (R(r'&&'), lambda s: ('TEXT', '&'), None),
         (R(r'&'), lambda s: ('TEXT', '&'), None),
         (R(r'\\[0-9]'), lambda s: ('INTERP', int(s[1:])), None),
         (R(r'\\\{[0-9]+\}'), lambda s: ('INTERP', int(s[2:-1])), None),
         (R(r'\\n'), lambda s: ('TEXT', '\n'), None),
         (R(r'\\r'), lambda s: ('TEXT', '\r'), None),
         (R(r'\\.'), lambda s: ('TEXT', s[1:]), None),
         (R(r'[^\n\r"&/\\]+'), lambda s: ('TEXT', s), None),
         (R(r'.'), lambda s: ('CH', s), None)])


def _chr(c):
    return ord(c)


_build()


def scan(text):
    """Tokens of one line (no newline)."""
    out = []
    state = 'INITIAL'
    pos = 0
    n = len(text)
    delim = None
    while pos < n:
        if text[pos] == '\r':
            pos += 1          # skipped everywhere
            continue
        best = None
        for rx, fn, nxt in RULES[state]:
            m = rx.match(text, pos)
            if m and (best is None or m.end() > best[0]):
                best = (m.end(), fn, nxt, m.group(0))
        if best is None:
            raise Unsupported('scan')
        end, fn, nxt, s = best
        pos = end
        if fn is None:
            if nxt:
                state = nxt
            continue
        tok = fn(s)
        if tok[0] == 'WORD':
            # only a whole word can name a register, and never an instruction
            if state == 'opcode' or (state == 'INITIAL' and (end > len(s) or text[end:end + 1] in ('\\', '&'))):
                tok = ('ID', s)
            elif state in ('arg', 'argnostr') and (text[end:end + 1] == '\\' or text[end:end + 2] == '&{'):
                tok = ('ID', s)
        if state == 'string' and tok[0] == 'Q':
            if tok[1] == delim:
                out.append(('DELIM', tok[1]))
                state = 'argnostr'
            else:
                out.append(('TEXT', tok[1]))
            continue
        if tok[0] == 'DELIM':
            delim = tok[1]
        out.append(tok)
        if nxt:
            state = nxt
    return out


# ---------------------------------------------------------------------------
# Parser.  Nodes are tuples: (kind, ..., attr) with attr last for arguments.

class ParseError(Exception):
    pass


BINPREC = {'||': 2, '&&': 3, '|': 4, '^': 5, '&': 6, '==': 7, '!=': 7,
           '<': 8, '<=': 8, '>': 8, '>=': 8, '<<': 9, '>>': 9,
           '+': 10, '-': 10, '*': 11, '/': 11, '%': 11}


class Node:
    __slots__ = ('k', 'v', 'attr')

    def __init__(self, k, v=None, attr=None):
        self.k = k
        self.v = v
        self.attr = attr


class Parser:
    def __init__(self, toks, regs):
        self.t = toks
        self.p = 0
        self.regs = regs

    def peek(self):
        return self.t[self.p] if self.p < len(self.t) else ('EOL', None)

    def isop(self, o):
        a = self.peek()
        return a[0] == 'OP' and a[1] == o

    def next(self):
        a = self.peek()
        self.p += 1
        return a

    def isreg(self, tok):
        return tok[0] == 'WORD' and tok[1].lower() in self.regs

    def idparts(self):
        parts = []
        while True:
            a = self.peek()
            if a[0] in ('WORD', 'ID') and not (a[0] == 'WORD' and a[1].lower() in self.regs):
                parts.append(('s', a[1]))
            elif a[0] == 'INTERP':
                parts.append(('i', a[1]))
            else:
                break
            self.p += 1
        return parts

    def arglist(self, closing):
        """Returns (args, how) where how is 'ok', 'comment', 'drop' or 'argerr'."""
        args = []
        while True:
            try:
                args.append(self.arg(closing))
            except ParseError:
                if closing:
                    raise
                if args:
                    return args, 'argerr'
                return None, 'drop'
            if self.isop(','):
                self.next()
                continue
            break
        if closing:
            if not self.isop(']'):
                raise ParseError
            self.next()
            return args, 'ok'
        if self.peek()[0] == 'EOL':
            return args, 'ok'
        if len(args) == 1 and args[0].k == 'empty':
            return None, 'comment'
        return args, 'comment'

    def at_arg_end(self):
        a = self.peek()
        return a[0] == 'EOL' or (a[0] == 'OP' and a[1] in (',', ']'))

    def arg(self, closing):
        a = self.peek()
        if self.at_arg_end():
            if a == ('OP', ']') and not closing:
                raise ParseError
            return Node('empty')
        if a[0] == 'OP':
            o = a[1]
            if o == '[':
                self.next()
                args, _ = self.arglist(True)
                return Node('array', args)
            if o in ('#', '<<', '<', '>'):
                self.next()
                if o in ('<', '>') and self.at_arg_end():
                    return Node('bref' if o == '<' else 'fref', 0)
                if o in ('<', '>'):
                    b = self.peek()
                    # "<" alone may be followed by a comment
                    if not self._starts_expr(b):
                        return Node('bref' if o == '<' else 'fref', 0)
                n = self.expr(0)
                n.attr = o
                return n
            if o in ('-', '--'):
                nx = self.t[self.p + 1] if self.p + 1 < len(self.t) else ('EOL', None)
                if self.isreg(nx):
                    self.p += 2
                    return Node('reg', nx[1].lower(), '-r' if o == '-' else '--r')
                if o == '--':
                    raise ParseError
        if self.isreg(a):
            self.next()
            n = Node('reg', a[1].lower())
            b = self.peek()
            if b[0] == 'OP' and b[1] in ('+', '++', '-'):
                self.next()
                n.attr = {'+': '+', '++': '++', '-': 'r-'}[b[1]]
            return n
        if not self._starts_expr(a):
            if not closing and self.p == 0 or True:
                raise ParseError
        return self.expr(0)

    def _starts_expr(self, a):
        if a[0] in ('INT', 'FLOAT', 'BREF', 'FREF', 'DELIM', 'INTERP', 'ID'):
            return True
        if a[0] == 'WORD':
            return not self.isreg(a)
        return a[0] == 'OP' and a[1] in ('(', '-', '+', '~', '!', '*')

    def primary(self):
        a = self.next()
        k = a[0]
        if k == 'INT':
            return Node('int', a[1])
        if k == 'FLOAT':
            return Node('float', a[1])
        if k == 'BREF':
            return Node('bref', a[1])
        if k == 'FREF':
            return Node('fref', a[1])
        if k == 'DELIM':
            parts = []
            while True:
                b = self.next()
                if b[0] == 'TEXT':
                    parts.append(('s', b[1]))
                elif b[0] == 'INTERP':
                    parts.append(('i', b[1]))
                elif b[0] == 'DELIM' and parts:
                    return Node('text', parts)
                else:
                    raise ParseError
        if k in ('WORD', 'ID', 'INTERP'):
            self.p -= 1
            parts = self.idparts()
            if not parts:
                raise ParseError
            return Node('id', parts)
        if k == 'OP':
            o = a[1]
            if o == '(':
                n = self.expr(0)
                if not self.isop(')'):
                    raise ParseError
                self.next()
                return n
            if o in ('-', '+', '~', '!'):
                return Node('op', (o, [self.primary()]))
            if o == '*':
                return Node('pc')
        raise ParseError

    def expr(self, minprec):
        left = self.primary()
        while True:
            a = self.peek()
            if a[0] != 'OP':
                return left
            o = a[1]
            if o == '?':
                if minprec > 1:
                    return left
                self.next()
                mid = self.expr(0)
                if not self.isop(':'):
                    raise ParseError
                self.next()
                right = self.expr(1)
                left = Node('op', ('?', [left, mid, right]))
                continue
            pr = BINPREC.get(o)
            if pr is None or pr < minprec:
                return left
            self.next()
            right = self.expr(pr + 1)
            left = Node('op', (o, [left, right]))


def parse_line(text, regs):
    ln = Line()
    ln.text = text
    toks = scan(text)
    p = Parser(toks, regs)
    # label
    a = p.peek()
    if a[0] == 'INT':
        p.next()
        ln.label = Node('int', a[1])
    else:
        parts = p.idparts()
        if parts:
            ln.label = Node('id', parts)
    a = p.peek()
    if a[0] == 'EOL':
        return ln
    if a[0] != 'WS':
        ln.bad = 'line'
        return ln
    p.next()
    if p.peek()[0] == 'EOL':
        # label followed only by space then (in opcode state) a comment: the
        # grammar wants an opcode after the space
        if ln.label is None and not any(t[0] != 'WS' for t in toks):
            # whitespace then comment is eaten by the scanner, blank lines by
            # its end of line rule; neither reaches here with a WS token
            pass
        ln.bad = 'line'
        return ln
    parts = p.idparts()
    if not parts:
        ln.bad = 'line'
        return ln
    ln.opcode = Node('id', parts)
    a = p.peek()
    if a[0] == 'EOL':
        return ln
    if a[0] != 'WS':
        return ln             # rest of line ignored
    p.next()
    sub = Parser(p.t[p.p:], regs)
    args, how = sub.arglist(False)
    ln.args = args
    if how == 'argerr':
        ln.bad = 'arg'
    return ln


def split_lines(data):
    """Source bytes to a list of line texts as the scanner sees them."""
    if b'\0' in data:
        raise Unsupported('NUL')
    s = data.decode('latin-1')
    lines = s.split('\n')
    last = lines.pop()
    lines = [l[:-1] if l.endswith('\r') else l for l in lines]
    return lines + [last] if last else lines


# ---------------------------------------------------------------------------

class Stop(Exception):
    """Fatal error: assembly of everything stops."""


class Prog:
    def __init__(self, name, lines, kind):
        self.name = name
        self.lines = lines
        self.kind = kind
        self.passno = None


class Section:
    def __init__(self, name, dp):
        self.name = name
        self.locals = {}
        self.passno = None
        self.line = 0
        self.pc = 0
        self.put = 0
        self.dp = dp
        self.last_pc = 0
        self.last_put = 0
        self.spans = []      # [put, org, bytearray]


class Result:
    pass


VDG_CACHE = {}


def vdg(c, inv):
    if c >= 0x80:
        return c
    if c < 0x20:
        r = c
    elif c < 0x40:
        r = c + 64
    elif c < 0x60:
        r = c
    elif c == 0x60:
        r = 0x20
    else:
        r = c - 96
    return r ^ (0x40 if inv else 0)


MIN_ADDR = -0x10000
MAX_ADDR = 0x1000000


class Asm:
    def __init__(self, files, mains, isa6309=False, defines=(), setdp=-1,
                 max_passes=12, exec_opt=None, listing=True):
        self.files = files
        self.mains = mains
        self.is6309 = isa6309
        self.regs = ISA.REGS_6309 if isa6309 else ISA.REGS_6809
        self.ops = ISA.OPS_6309 if isa6309 else ISA.OPS_6809
        self.defines = list(defines)
        self.setdp = setdp
        self.max_passes = max_passes
        self.exec_opt = exec_opt
        self.progs = {}
        self.macros = {}
        self.symbols = {}      # name -> [value, pass]
        self.sections = {}
        self.exports = []
        self.level = NONE
        self.errs = []
        self.passno = 0
        self.depth = 0
        self.interp = []
        self.ctx = []
        self.cur = None
        self.listing = []
        self.ignore_undef = False
        self.def_macro = None
        self.def_level = 0
        self.steps = 0
        self.max_steps = 400000
        self.uses = []         # (kind,...) facts gathered in the final pass
        self.stats = {}

    # errors -----------------------------------------------------------------
    def err(self, level, msg=''):
        if level == INCONSISTENT and self.level == OUT_OF_RANGE:
            self.level = INCONSISTENT
        elif level == OUT_OF_RANGE and self.level == INCONSISTENT:
            pass
        elif level > self.level:
            self.level = level
        if msg is not None:
            if self.ctx:
                self.errs.append((level, self.ctx[-1][0].name, self.ctx[-1][1], msg))
            else:
                self.errs.append((level, None, 0, msg))

    # source -----------------------------------------------------------------
    def file_data(self, name):
        if name not in self.files:
            try:
                name = name.encode('latin-1').decode()
            except UnicodeError:
                return None
            if name and not name.endswith('/'):
                name = posixpath.normpath(name)
        return self.files.get(name)

    def load(self, name):
        if name in self.progs:
            return self.progs[name]
        data = self.file_data(name)
        if data is None:
            self.err(FATAL, 'file not found')
            return None
        prog = Prog(name, [], 'file')
        self.ctx.append([prog, 0])
        n = 0
        for text in split_lines(data):
            n += 1
            ln = parse_line(text, self.regs)
            ln.num = n
            if ln.bad == 'line':
                ln.label = ln.opcode = ln.args = None
            self.ctx[-1][1] = n
            prog.lines.append(ln)
            if ln.opcode is not None and len(ln.opcode.v) and all(k == 's' for k, _ in ln.opcode.v):
                if ''.join(s for _, s in ln.opcode.v).lower() == 'end':
                    break
        self.ctx.pop()
        self.progs[name] = prog
        return prog

    # evaluation -------------------------------------------------------------
    def sym_get(self, name):
        s = self.symbols.get(name)
        if s is None or s[0] is None:
            if s is not None and s[0] is None:
                # defined, but its value was undefined
                pass
            if self.ignore_undef:
                return v_int(0)
            self.err(INCONSISTENT, "symbol '%s' not defined" % name)
            return None
        return s[0]

    def interp_get(self, n):
        if not self.interp:
            self.err(SYNTAX, 'no positional variables')
            return None
        args = self.interp[-1]
        if n < 1 or n > len(args):
            self.err(SYNTAX, 'invalid positional variable')
            return None
        return args[n - 1]

    def paste(self, parts, text=False):
        out = ''
        for k, v in parts:
            if k == 's':
                out += v
                continue
            x = self.interp_get(v)
            if x is None:
                return None
            if x.t == 'str':
                out += x.v
            elif x.t == 'int':
                out += str(x.v)
            elif x.t == 'reg' and x.attr is None:
                out += x.v
            else:
                # omitting an argument may omit a label
                if text or len(parts) > 1 or x.t != 'empty':
                    self.err(SYNTAX, 'value can not be pasted')
                return None
        return out

    def ev(self, n):
        k = n.k
        if k == 'int':
            return V('int', n.v, n.attr)
        if k == 'float':
            return V('float', n.v, n.attr)
        if k == 'reg':
            return V('reg', n.v, n.attr)
        if k == 'empty':
            return V('empty')
        if k == 'pc':
            return V('int', self.cur.pc, n.attr)
        if k == 'bref':
            return self.local(n, True)
        if k == 'fref':
            return self.local(n, False)
        if k == 'id':
            if len(n.v) == 1 and n.v[0][0] == 'i':
                x = self.interp_get(n.v[0][1])
                return x.with_attr_if(n.attr) if x is not None else None
            name = self.paste(n.v)
            if name is None:
                return None
            x = self.sym_get(name)
            return x.with_attr_if(n.attr) if x is not None else None
        if k == 'text':
            s = self.paste(n.v, True)
            return V('str', s, n.attr) if s is not None else None
        if k == 'array':
            return V('array', [self.ev(a) for a in n.v], n.attr)
        if k == 'op':
            op, a = n.v
            if len(a) == 1:
                r = self.op1(op, a[0])
            elif len(a) == 2:
                r = self.op2(op, a[0], a[1])
            else:
                r = self.op3(a)
            return r.with_attr(n.attr) if r is not None else None
        raise Unsupported('node ' + k)

    def local(self, n, back):
        tab = self.cur.locals.get(n.v)
        best = None
        if tab:
            if back:
                c = [l for l in tab if l <= self.cur.line]
                best = max(c) if c else None
            else:
                c = [l for l in tab if l > self.cur.line]
                best = min(c) if c else None
        if best is None:
            self.err(INCONSISTENT, 'local not defined')
            return None
        x = tab[best][0]
        return x.with_attr(n.attr) if x is not None else None

    def f2i(self, f):
        if f >= -9223372036854775808.0 and f < 9223372036854775808.0:
            return int(f)
        self.err(OUT_OF_RANGE, 'float')
        return 0

    def str_int(self, s):
        v = 0
        for c in s:
            o = ord(c)
            v = ((v << 8) | o) & 0xffffffff
        return v

    def to_int(self, x):
        """As an integer V, or None if not a number or string."""
        if x is None:
            return None
        if x.t == 'int':
            return x
        if x.t == 'float':
            return V('int', self.f2i(x.v), x.attr)
        if x.t == 'str':
            return V('int', self.str_int(x.v), x.attr)
        return None

    def bad(self):
        self.err(SYNTAX, 'invalid operand in expression')

    def op1(self, op, an):
        a = self.ev(an)
        if a is None:
            return None
        if a.t == 'str':
            a = self.to_int(a)
        if op == '-':
            if a.t == 'int':
                return v_int(wrap64(-a.v))
            if a.t == 'float':
                return V('float', -a.v)
            self.bad()
            return None
        if op == '+':
            if a.t in ('int', 'float'):
                return V(a.t, a.v)
            self.bad()
            return None
        if op == '!':
            a = self.to_int(a)
            return v_int(1 if a is None or a.v == 0 else 0)
        if op == '~':
            a = self.to_int(a)
            if a is None:
                self.bad()
                return None
            return v_int(~a.v)
        raise Unsupported('op ' + op)

    def op2(self, op, an, bn):
        a = self.ev(an)
        if a is None:
            return None
        b = self.ev(bn)
        if b is None:
            return None
        rel = op in ('<', '<=', '>', '>=', '==', '!=')
        if a.t == 'str' and b.t == 'str' and rel:
            x, y = a.v, b.v
            r = {'<': x < y, '<=': x <= y, '>': x > y, '>=': x >= y,
                 '==': x == y, '!=': x != y}[op]
            return v_int(int(r))
        if a.t == 'str':
            a = self.to_int(a)
        if b.t == 'str':
            b = self.to_int(b)
        if rel or op in ('*', '/', '+', '-'):
            if a.t not in ('int', 'float') or b.t not in ('int', 'float'):
                self.bad()
                return None
            if a.t == 'int' and b.t == 'int' and op != '/':
                x, y = a.v, b.v
                if op == '*':
                    return v_int(wrap64(x * y))
                if op == '+':
                    return v_int(wrap64(x + y))
                if op == '-':
                    return v_int(wrap64(x - y))
            else:
                x, y = float(a.v), float(b.v)
                if op == '*':
                    return V('float', x * y)
                if op == '+':
                    return V('float', x + y)
                if op == '-':
                    return V('float', x - y)
                if op == '/':
                    if y == 0:
                        if x == 0 or x != x:
                            r = math.nan
                        else:
                            r = math.copysign(math.inf, x) * math.copysign(1, y)
                    else:
                        r = x / y
                    return V('float', r)
            r = {'<': x < y, '<=': x <= y, '>': x > y, '>=': x >= y,
                 '==': x == y, '!=': x != y}[op]
            return v_int(int(r))
        # integer only
        a = self.to_int(a)
        if a is None:
            self.bad()
            return None
        b = self.to_int(b)
        if b is None:
            self.bad()
            return None
        x, y = a.v, b.v
        if op == '%':
            if y == 0:
                self.err(OUT_OF_RANGE, 'modulo by zero')
                return None
            return v_int(int(math.copysign(1, x)) * (abs(x) % abs(y)) if x else 0)
        if op == '<<':
            if y < 0:
                self.err(OUT_OF_RANGE, 'negative shift')
            return v_int(0 if y < 0 or y > 63 else wrap64(x << y))
        if op == '>>':
            if y < 0:
                self.err(OUT_OF_RANGE, 'negative shift')
                return v_int(-1 if x < 0 else 0)
            return v_int(x >> min(y, 64))
        if op == '&':
            return v_int(x & y)
        if op == '|':
            return v_int(x | y)
        if op == '^':
            return v_int(x ^ y)
        if op == '&&':
            return v_int(int(bool(x and y)))
        if op == '||':
            return v_int(int(bool(x or y)))
        raise Unsupported('op ' + op)

    def op3(self, a):
        c = self.ev(a[0])
        if c is None:
            return None
        c = self.to_int(c)
        if c is None:
            self.bad()
            return None
        return self.ev(a[1] if c.v != 0 else a[2])

    # symbols ----------------------------------------------------------------
    @staticmethod
    def equal(a, b):
        if a is None or b is None or a.t != b.t:
            return False
        if a.t == 'reg':
            return a.v == b.v and a.attr == b.attr
        if a.t in ('int', 'float', 'str'):
            return a.v == b.v
        if a.t == 'empty':
            return True
        if a.t == 'array':
            return len(a.v) == len(b.v) and all(Asm.equal(x, y) for x, y in zip(a.v, b.v))
        return False

    def sym_set(self, name, val, changeable, passno):
        old = self.symbols.get(name)
        if not changeable and old is not None and old[1] == passno:
            self.err(SYNTAX, "symbol '%s' redefined" % name)
            return
        self.symbols[name] = [val, passno]
        if old is not None and not self.equal(old[0], val) and not changeable:
            self.err(INCONSISTENT, 'unstable')

    def set_label(self, label, val, changeable=False):
        if label is None:
            return
        if label.t == 'int':
            tab = self.cur.locals.setdefault(label.v, {})
            ln = self.cur.line
            if ln in tab and not self.equal(tab[ln][0], val):
                self.err(INCONSISTENT, 'local unstable')
            tab[ln] = (val, self.passno)
        elif label.t == 'str':
            self.sym_set(label.v, val, changeable, self.passno)

    # emission ---------------------------------------------------------------
    def emit(self, data):
        s = self.cur
        data = bytes(b & 0xff for b in data)
        if s.spans and s.spans[-1][0] + len(s.spans[-1][2]) == s.put \
                and s.spans[-1][1] + len(s.spans[-1][2]) == s.pc:
            sp = s.spans[-1]
        else:
            sp = [s.put, s.pc, bytearray()]
            s.spans.append(sp)
        if s.pc < 0:
            self.err(OUT_OF_RANGE, 'negative address')
        s.pc += len(data)
        s.put += len(data)
        sp[2] += data
        if s.pc > 0x10000 or s.put > 2 * MAX_ADDR:
            self.err(OUT_OF_RANGE, 'beyond memory')
        self.cur_span = sp

    def emit_op(self, op):
        self.emit([op >> 8, op & 0xff] if op > 0xff else [op])

    def emit16(self, v):
        self.emit([(v >> 8) & 0xff, v & 0xff])

    # passes -----------------------------------------------------------------
    def select(self, name):
        s = self.sections.get(name)
        if s is None:
            s = self.sections[name] = Section(name, self.setdp)
        if s.passno != self.passno:
            s.spans = []
            if self.cur is not None and self.cur.passno == self.passno:
                s.pc = self.cur.last_pc
                s.put = self.cur.last_put
            else:
                s.pc = s.put = 0
            s.passno = self.passno
            s.dp = self.setdp
            s.line = 0
        self.cur = s

    def run(self):
        r = Result()
        r.asm = self
        for k, v in self.defines:
            if k in self.symbols:
                self.err(SYNTAX, 'redefined')
            else:
                self.symbols[k] = [v_int(v), 0]
        progs = []
        for m in self.mains:
            progs.append(self.load(m))
        if self.level >= SYNTAX:
            return self.finish(r, False)
        for p in range(self.max_passes):
            self.passno = p
            self.level = NONE
            self.errs = []
            self.listing = []
            self.select('CODE')
            self.symbols.pop('.exec', None)
            if p > 0:
                for k, v in self.defines:
                    self.symbols[k] = [v_int(v), p]
            try:
                for prog in progs:
                    if self.level < FATAL:
                        self.assemble(prog)
            except Stop:
                pass
            self.depth = 0
            for s in self.sections.values():
                if s.passno != self.passno:
                    s.spans = []
                    continue
                if s.last_pc != s.pc or s.last_put != s.put:
                    s.last_pc = s.pc
                    s.last_put = s.put
                    self.err(INCONSISTENT, None)
                stale = False
                for tab in s.locals.values():
                    for ln in [l for l in tab if tab[l][1] != self.passno]:
                        del tab[ln]
                        stale = True
                if stale:
                    self.err(INCONSISTENT, None)
            r.passes = p + 1
            if self.level != INCONSISTENT:
                break
        return self.finish(r, True)

    def finish(self, r, assembled):
        r.level = self.level
        r.errs = list(self.errs)
        r.ok = self.level < INCONSISTENT
        r.assembled = assembled and r.ok
        if not r.assembled:
            r.ok = False
            return r
        r.listing = self.listing
        r.symbols = {k: v[0] for k, v in self.symbols.items() if k != '.exec'}
        spans = []
        seq = 0
        for s in self.sections.values():
            for sp in s.spans:
                spans.append((sp[0], bytes(sp[2])))
        spans.sort(key=lambda t: t[0])
        r.overlap = False
        mem = {}
        segs = []
        end = None
        for put, data in spans:
            if not data:
                continue
            if end is not None and put < end:
                r.overlap = True
            if end is not None and put == end:
                segs[-1][1].extend(data)
            else:
                segs.append([put, bytearray(data)])
            end = max(end or 0, put + len(data))
        r.segs = [(p, bytes(d)) for p, d in segs]
        ex = self.symbols.get('.exec')
        r.exec = None
        r.exec_error = False
        if self.exec_opt is not None:
            e = parse_opt_int(self.exec_opt)
            if e is None:
                s = self.symbols.get(self.exec_opt)
                x = self.to_int(s[0]) if s and s[0] is not None else None
                if x is None:
                    r.exec_error = True
                    e = 0
                else:
                    e = x.v & 0xffff
            r.exec = e
        elif ex is not None and ex[0] is not None:
            r.exec = ex[0].v
        if r.exec is not None:
            r.exec = r.exec & 0xffff if r.exec >= 0 else None
        r.export_undef = [k for k in self.exports
                          if k not in self.macros and
                          (k not in self.symbols or self.symbols[k][0] is None)]
        r.export_bad = [k for k in self.exports if k in self.macros and any(l.bad for l in self.macros[k].lines)]
        r.export_bad += [k for k in self.exports if k not in self.macros and k in self.symbols and
                         self.symbols[k][0] is not None and self.symbols[k][0].t == 'empty']
        r.exports = list(self.exports)
        r.macros = self.macros
        return r

    def list_line(self, pc, data, text, span=None):
        self.listing.append((pc, data, text))

    def tick(self):
        self.steps += 1
        if self.steps > self.max_steps:
            raise Unsupported('too long for the model')

    def assemble(self, prog):
        if self.depth >= 8:
            self.err(FATAL, 'maximum program depth exceeded')
            return
        self.depth += 1
        ctx = [prog, 0]
        self.ctx.append(ctx)
        conds = []            # list of dicts, top last
        excluded = None
        lines = list(prog.lines)
        idx = 0
        while idx < len(prog.lines) and self.level < FATAL:
            l = prog.lines[idx]
            idx += 1
            ctx[1] = idx
            self.tick()
            self.cur.line += 1
            if l.label is None and l.opcode is None and l.args is None and not l.bad:
                if self.def_macro is not None:
                    self.def_macro.lines.append(l)
                    self.ctx[-1][1] += 1
                self.list_line(-1, b'', l.text)
                continue
            opcode = None
            if l.opcode is not None:
                # not known where not expanded
                if not ((self.def_level > 0 or excluded) and any(k == 'i' for k, _ in l.opcode.v)):
                    opcode = self.paste(l.opcode.v)
            lop = opcode.lower() if opcode is not None else None

            if not excluded and lop == 'macro':
                self.def_level += 1
                if self.def_level == 1:
                    lab = None
                    if l.label is not None and l.label.k == 'id':
                        lab = self.paste(l.label.v)
                    self.start_macro(lab)
                    self.list_line(-1, b'', l.text)
                    continue
            if not excluded and lop == 'endm':
                if self.def_level == 0:
                    self.err(SYNTAX, 'ENDM without MACRO')
                    continue
                self.def_level -= 1
                if self.def_level == 0:
                    if self.def_macro is not None:
                        self.ctx.pop()
                    self.def_macro = None
                    args = [self.ev(a) for a in l.args] if l.args is not None else []
                    if len(args) > 1:
                        self.err(SYNTAX, 'endm args')
                    elif args and (args[0] is None or args[0].t != 'str'):
                        self.err(SYNTAX, 'endm arg')
                    self.list_line(-1, b'', l.text)
                    continue
            if self.def_level > 0:
                if self.def_macro is not None:
                    self.def_macro.lines.append(l)
                    self.ctx[-1][1] += 1
                self.list_line(-1, b'', l.text)
                continue
            if lop in ('opt', 'sttl', 'ttl'):
                self.list_line(-1, b'', l.text)
                continue

            if l.bad and not excluded:
                self.err(SYNTAX, 'bad line')

            if lop == 'if':
                self.list_line(-1, b'', l.text)
                if excluded:
                    conds.append({'s': 'done'})
                    continue
                c = self.cond(l, 'IF')
                if c is None:
                    continue
                if c:
                    conds.append({'s': 'done'})
                else:
                    conds.append({'s': 'if'})
                    excluded = conds[-1]
                continue
            if lop == 'elsif':
                self.list_line(-1, b'', l.text)
                if not conds:
                    self.err(SYNTAX, 'ELSIF without IF')
                elif conds[-1]['s'] == 'else':
                    self.err(SYNTAX, 'repeated ELSE')
                elif not excluded:
                    excluded = conds[-1]
                elif excluded is conds[-1] and conds[-1]['s'] != 'done':
                    if l.bad:
                        self.err(SYNTAX, 'invalid argument')
                    c = self.cond(l, 'ELSIF')
                    if c is None:
                        continue
                    if c:
                        excluded = None
                        conds[-1]['s'] = 'done'
                continue
            if lop == 'else':
                self.list_line(-1, b'', l.text)
                if not conds:
                    self.err(SYNTAX, 'ELSE without IF')
                elif conds[-1]['s'] == 'else':
                    self.err(SYNTAX, 'repeated ELSE')
                elif excluded is conds[-1]:
                    if conds[-1]['s'] != 'done':
                        excluded = None
                    conds[-1]['s'] = 'else'
                elif not excluded:
                    conds[-1]['s'] = 'else'
                    excluded = conds[-1]
                continue
            if lop == 'endif':
                self.list_line(-1, b'', l.text)
                if not conds:
                    self.err(SYNTAX, 'ENDIF without IF')
                    continue
                if excluded is conds[-1]:
                    excluded = None
                conds.pop()
                continue
            if excluded:
                self.list_line(-1, b'', l.text)
                continue
            self.statement(l, opcode, lop)
        if conds:
            self.err(SYNTAX, 'IF not matched')
        if self.def_macro is not None:
            self.err(SYNTAX, 'unfinished macro')
            self.ctx.pop()
            self.def_macro = None
        self.def_level = 0
        self.depth -= 1
        self.ctx.pop()

    def cond(self, l, name):
        self.ignore_undef = True
        args = [self.ev(a) for a in l.args] if l.args is not None else []
        self.ignore_undef = False
        if not self.nargs(args, 1, 1):
            return None
        return self.have_int(args, 0, 0) != 0

    def start_macro(self, name):
        if name is None:
            self.err(SYNTAX, 'macro name')
            return
        m = self.macros.get(name)
        if m is not None and m.passno == self.passno:
            self.err(SYNTAX, 'macro redefined')
            return
        m = Prog(name, [], 'macro')
        m.passno = self.passno
        self.macros[name] = m
        self.def_macro = m
        self.ctx.append([m, 0])

    def nargs(self, args, lo, hi):
        if len(args) < lo or (hi is not None and len(args) > hi):
            self.err(SYNTAX, 'number of arguments')
            return False
        return True

    def have_int(self, args, i, default):
        if i >= len(args):
            return default
        x = args[i]
        if x is None:
            return default
        if x.t == 'empty':
            return 0
        if x.t == 'int':
            return x.v
        if x.t == 'float':
            return self.f2i(x.v)
        self.err(SYNTAX, 'expected integer')
        return default

    def statement(self, l, opcode, lop):
        label = None
        if l.label is not None:
            if l.label.k == 'int':
                label = v_int(l.label.v)
            else:
                s = self.paste(l.label.v)
                label = V('str', s) if s is not None else None
        if lop == 'export':
            args = l.args or []
            if self.nargs(args, 1, None):
                for a in args:
                    s = None
                    if a.k in ('id', 'text'):
                        s = self.paste(a.v, a.k == 'text')
                    else:
                        self.err(SYNTAX, 'invalid argument to EXPORT')
                    if s is not None and s not in self.exports:
                        self.exports.append(s)
            self.list_line(-1, b'', l.text)
            return
        args = [self.ev(a) for a in l.args] if l.args is not None else []

        if lop in ('equ', 'set'):
            if not self.nargs(args, 1, 1):
                return
            self.set_label(label, args[0], lop == 'set')
            x = None
            if args[0] is not None and not (args[0].t == 'float' and not
                                            (-9223372036854775808.0 <= args[0].v < 9223372036854775808.0)):
                x = self.to_int(args[0])
            self.list_line(x.v & 0xffff if x is not None else -1, b'', l.text)
            return
        if lop == 'org':
            if not self.nargs(args, 1, 1):
                return
            v = self.have_int(args, 0, self.cur.pc)
            if v < MIN_ADDR or v > MAX_ADDR:
                self.err(OUT_OF_RANGE, 'ORG')
                return
            self.cur.pc = v
            if v >= 0:
                self.cur.put = v
            self.set_label(label, v_int(v))
            self.list_line(v & 0xffff, b'', l.text)
            return
        if lop == 'section':
            if not self.nargs(args, 1, 1):
                return
            if args[0] is None:
                return
            if args[0].t != 'str':
                self.err(SYNTAX, 'SECTION')
                return
            self.select(args[0].v)
            self.set_label(label, v_int(self.cur.pc))
            self.list_line(self.cur.pc & 0xffff, b'', l.text)
            return
        if lop in ('code', 'data', 'bss', 'ram', 'auto'):
            self.select(opcode)
            self.set_label(label, v_int(self.cur.pc))
            self.list_line(self.cur.pc & 0xffff, b'', l.text)
            return
        if label is not None:
            self.set_label(label, v_int(self.cur.pc))
        if lop is None:
            if label is not None:
                self.list_line(self.cur.pc & 0xffff, b'', l.text)
            return
        old = self.cur.pc
        self.cur_span = None
        nsp = len(self.cur.spans)
        osz = len(self.cur.spans[-1][2]) if nsp else 0
        if lop in DATA_OPS:
            self.data_op(lop, args)
            self.list_line(old & 0xffff, self.emitted(nsp, osz), l.text)
            return
        if lop in OTHER_OPS:
            self.list_line(self.cur.pc & 0xffff, b'', l.text)
            self.other_op(lop, args)
            return
        if lop in self.ops:
            args = self.no_floats(args)
            self.instruction(lop, self.ops[lop], args, l)
            self.list_line(old & 0xffff, self.emitted(nsp, osz), l.text)
            return
        m = self.macros.get(opcode)
        if m is not None:
            self.list_line(self.cur.pc & 0xffff, b'', l.text)
            self.interp.append(args)
            self.assemble(m)
            self.interp.pop()
            return
        self.err(SYNTAX, 'unknown instruction')

    def no_floats(self, args):
        out = []
        for a in args:
            if a is not None and a.t == 'float':
                a = V('int', self.f2i(a.v), a.attr)
            elif a is not None and a.t == 'array':
                a = V('array', self.no_floats(a.v), a.attr)
            out.append(a)
        return out

    def emitted(self, nsp, osz):
        s = self.cur.spans
        if len(s) > nsp:
            return (s[-1], 0, len(s[-1][2]))
        if nsp and len(s[-1][2]) > osz:
            return (s[-1], osz, len(s[-1][2]))
        return b''

    # pseudo-ops -------------------------------------------------------------
    def data_op(self, op, args):
        if op in ('fcb', 'fcc', 'fcn', 'fcs', 'fcv', 'fci'):
            if not self.nargs(args, 1, None):
                return
            for a in args:
                self.emit_form(op, a)
            if op == 'fcn':
                self.emit([0])
        elif op in ('fdb', 'fqb'):
            if not self.nargs(args, 1, None):
                return
            for i in range(len(args)):
                v = self.have_int(args, i, 0)
                if op == 'fdb':
                    self.emit16(v)
                else:
                    self.emit([(v >> 24) & 255, (v >> 16) & 255, (v >> 8) & 255, v & 255])
        elif op in ('rzb', 'fzb', 'zmb', 'bsz'):
            if not self.nargs(args, 1, 2):
                return
            n = self.have_int(args, 0, 0)
            f = self.have_int(args, 1, 0)
            if n < 0:
                self.err(OUT_OF_RANGE, 'negative count')
            self.fill(f, n)
        elif op == 'fill':
            if not self.nargs(args, 2, 2):
                return
            f = self.have_int(args, 0, 0)
            n = self.have_int(args, 1, 0)
            if n < 0:
                self.err(OUT_OF_RANGE, 'negative count')
            self.fill(f, n)
        elif op == 'rmb':
            if not self.nargs(args, 1, 1):
                return
            n = self.have_int(args, 0, 0)
            if n < 0:
                self.err(OUT_OF_RANGE, 'negative RMB')
                return
            self.skip(n)
        elif op == 'align':
            if not self.nargs(args, 1, 2):
                return
            n = self.have_int(args, 0, 0)
            f = self.have_int(args, 1, 0)
            if n < 1:
                self.err(OUT_OF_RANGE, 'ALIGN')
                return
            pc = self.cur.pc
            rem = abs(pc) % n
            if pc < 0:
                rem = -rem
            cnt = n - rem
            cnt = cnt % n if cnt >= 0 else -((-cnt) % n)
            if len(args) < 2:
                self.skip(cnt)
            else:
                self.fill(f, cnt)
        elif op == 'includebin':
            if not self.nargs(args, 1, 1):
                return
            if args[0] is None or args[0].t != 'str':
                self.err(SYNTAX, 'INCLUDEBIN')
                return
            data = self.file_data(args[0].v)
            if data is None:
                self.err(FATAL, 'file not found')
                return
            room = 0x10000 - self.cur.pc
            chunk = data if len(data) <= room else data[:max(room, 0) + 1]
            for i in range(0, len(chunk)):
                self.emit([chunk[i]])
                if self.cur.pc > 0x10000:
                    break
        else:
            raise Unsupported(op)

    def fill(self, v, n):
        for _ in range(max(n, 0)):
            self.emit([v])
            if self.cur.pc > 0x10000:
                break

    def skip(self, n):
        if n > MAX_ADDR - self.cur.pc:
            self.err(OUT_OF_RANGE, 'reserving beyond memory')
            return
        self.cur.pc += n
        self.cur.put += n

    def emit_form(self, op, a):
        last = 0x80 if op == 'fcs' else 0
        if a is None:
            self.emit([0])
        elif a.t == 'empty':
            self.emit([0])
        elif a.t == 'int':
            self.emit([(a.v & 0xff) | last])
        elif a.t == 'float':
            self.emit([(self.f2i(a.v) & 0xff) | last])
        elif a.t == 'str':
            for i, c in enumerate(a.v):
                b = ord(c)
                if i == len(a.v) - 1:
                    b |= last
                if op == 'fcv':
                    b = vdg(b, False)
                elif op == 'fci':
                    b = vdg(b, True)
                self.emit([b])
        else:
            self.err(SYNTAX, 'expected string or integer')

    def other_op(self, op, args):
        if op == 'put':
            if not self.nargs(args, 1, 1):
                return
            v = self.have_int(args, 0, self.cur.put)
            if v < 0 or v > MAX_ADDR:
                self.err(OUT_OF_RANGE, 'PUT')
                return
            self.cur.put = v
        elif op == 'setdp':
            if not self.nargs(args, 1, 1):
                return
            v = self.have_int(args, 0, -1)
            self.cur.dp = v & 0xff if v >= 0 else -1
        elif op in ('include', 'lib'):
            if not self.nargs(args, 1, None):
                return
            if args[0] is None or args[0].t != 'str':
                self.err(SYNTAX, 'INCLUDE')
                return
            old = self.cur
            p = self.load(args[0].v)
            if p is None:
                return
            self.assemble(p)
            self.cur = old
        elif op == 'end':
            if not self.nargs(args, 0, 1):
                return
            if len(args) < 1:
                return
            x = self.to_int(args[0])
            if x is None and args[0] is not None:
                self.err(SYNTAX, 'END')
            old = self.symbols.get('.exec')
            if old is not None and old[1] == self.passno:
                self.err(SYNTAX, "symbol '.exec' redefined")
            else:
                self.symbols['.exec'] = [x, self.passno]
        # the rest do nothing

    # instructions -----------------------------------------------------------
    def instruction(self, name, op, args, l):
        k = op['k']
        if k == 'inh':
            if args:
                self.err(SYNTAX, 'unexpected argument')
            self.emit_op(op['code'])
        elif k == 'imm' or (k == 'mem' and 'imm' in op and l.args and l.args[0].attr == '#'):
            self.immediate(op, args, l)
        elif k == 'immmem':
            self.immmem(op, args)
        elif k == 'mem':
            self.memory(op, args, None)
        elif k == 'rel8' or k == 'rel16':
            self.relative(op, args)
        elif k == 'stack':
            self.stack(op, args)
        elif k == 'pair':
            self.pair(op, args)
        elif k == 'tfm':
            self.tfm(op, args)
        elif k == 'bit':
            self.bitop(op, args)
        else:
            raise Unsupported(k)

    def immediate(self, op, args, l):
        if op['k'] == 'imm' and not (l.args and l.args[0].attr == '#'):
            self.err(SYNTAX, 'invalid addressing mode')
            return
        if len(args) != 1:
            self.err(SYNTAX, 'number of arguments')
            return
        code, size = op['imm']
        self.emit_op(code)
        x = self.to_int(args[0])
        if x is None and args[0] is not None:
            self.err(SYNTAX, 'invalid immediate')
        v = x.v if x is not None else 0
        self.emit([(v >> (8 * i)) & 0xff for i in range(size - 1, -1, -1)])

    def relative(self, op, args):
        if len(args) != 1:
            self.err(SYNTAX, 'number of arguments')
            return
        self.emit_op(op['code'])
        a = args[0]
        if a is None or a.t != 'int' or a.attr == '#':
            if a is not None:
                self.err(SYNTAX, 'invalid branch target')
            self.emit([0] if op['k'] == 'rel8' else [0, 0])
            return
        if op['k'] == 'rel8':
            d = s16(a.v - (self.cur.pc + 1))
            if d < -128 or d > 127:
                self.err(OUT_OF_RANGE, 'branch')
            self.emit([d])
        else:
            d8 = s16(a.v - (self.cur.pc + 1))
            if -128 <= d8 <= 127 and a.attr != '>':
                self.err(INEFFICIENT, 'long branch')
            self.emit16(a.v - (self.cur.pc + 2))

    def memory(self, op, args, imm8):
        n = len(args)
        if n < 1 or n > 2 or ('idx' not in op and n > 1):
            self.err(SYNTAX, 'number of arguments')
            return
        if n == 2 or (args[0] is not None and args[0].t == 'array'):
            self.indexed(op, args, imm8)
            return
        x = self.to_int(args[0])
        if x is None and args[0] is not None:
            self.err(SYNTAX, 'invalid addressing mode')
            return
        attr = '>'
        addr = self.cur.pc & 0xffffffff
        if x is not None:
            attr = x.attr
            addr = x.v & 0xffff
        if 'dir' in op and (attr == '<' or (attr is None and self.cur.dp == (addr >> 8))):
            self.emit_op(op['dir'])
            if imm8 is not None:
                self.emit([imm8])
            self.emit([addr])
            return
        if 'ext' in op and attr in (None, '>'):
            self.emit_op(op['ext'])
            if imm8 is not None:
                self.emit([imm8])
            self.emit16(addr)
            return
        self.indexed(op, args, imm8)

    def indexed(self, op, args, imm8):
        ind = False
        if len(args) == 1 and args[0] is not None and args[0].t == 'array':
            ind = True
            args = args[0].v
        if len(args) < 1 or len(args) > 2:
            self.err(SYNTAX, 'number of arguments')
            return
        if 'idx' not in op:
            raise Unsupported('indexed form of ' + repr(op))
        self.emit_op(op['idx'])
        if imm8 is not None:
            self.emit([imm8])
        a0 = args[0]
        if a0 is not None and a0.t == 'str':
            a0 = self.to_int(a0)
        if len(args) == 1:
            if a0 is not None and a0.t != 'int':
                self.err(SYNTAX, 'invalid addressing mode')
                return
            if a0 is not None and a0.attr not in (None, '>'):
                self.err(SYNTAX, 'invalid addressing mode')
                return
            if not ind:
                self.err(ILLEGAL, 'illegal indexed addressing form')
            self.emit([0x9f if ind else 0x8f])
            self.emit16(a0.v if a0 is not None else 0)
            return
        a1 = args[1]
        if a0 is None or a1 is None:
            self.emit([0])
            return
        enc = ISA.encode_indexed(a0, a1, ind, self.cur.pc, self.is6309)
        if enc is None:
            self.err(SYNTAX, 'invalid addressing mode')
            return
        data, illegal = enc
        if illegal:
            self.err(ILLEGAL, 'illegal indirect indexed mode')
        for b in data:
            self.emit([b])

    def immmem(self, op, args):
        if len(args) < 2 or len(args) > 3:
            self.err(SYNTAX, 'number of arguments')
            return
        x = self.to_int(args[0])
        if x is None and args[0] is not None:
            self.err(SYNTAX, 'invalid immediate')
        v = x.v if x is not None else 0
        self.memory(op, args[1:], v & 0xff)

    def stack(self, op, args):
        pb = 0
        for a in args:
            if a is None:
                continue
            if a.t != 'reg':
                self.err(SYNTAX, 'invalid argument')
                return
            bit = ISA.STACK_BITS.get(a.v)
            if bit is None or a.v == op['own'] or a.attr is not None:
                self.err(SYNTAX, 'invalid register')
                return
            pb |= bit
        self.emit_op(op['code'])
        self.emit([pb])

    def pair(self, op, args):
        if len(args) != 2:
            self.err(SYNTAX, 'number of arguments')
            return
        nib = [0, 0]
        size = [24, 24]
        for i, a in enumerate(args):
            if a is None:
                continue
            if a.t == 'reg':
                if a.v not in ISA.TFR or a.attr is not None:
                    self.err(SYNTAX, 'invalid register')
                    return
                nib[i], size[i] = ISA.TFR[a.v]
            elif a.t == 'int':
                v = a.v
                if v == 0 and self.is6309:
                    nib[i] = 12
                else:
                    self.err(ILLEGAL, 'numeric register')
                    if v < 0 or v > 15:
                        self.err(OUT_OF_RANGE, 'register number')
                    nib[i] = v & 15
            else:
                self.err(SYNTAX, 'invalid register')
                return
        if size[0] & size[1] == 0:
            self.err(ILLEGAL, 'register size mismatch')
        self.emit_op(op['code'])
        self.emit([nib[0] << 4 | nib[1]])

    def tfm(self, op, args):
        if len(args) != 2:
            self.err(SYNTAX, 'number of arguments')
            return
        nib = [0, 0]
        attr = [None, None]
        for i, a in enumerate(args):
            if a is None:
                attr[i] = 'undef'
                continue
            attr[i] = a.attr
            if a.t == 'reg':
                v = ISA.TFR.get(a.v, (-1,))[0]
                if v < 0 or v > 4:
                    self.err(SYNTAX, 'invalid register')
                    return
                nib[i] = v
            elif a.t == 'int':
                self.err(ILLEGAL, 'numeric register')
                if a.v < 0 or a.v > 4:
                    self.err(OUT_OF_RANGE, 'register number')
                nib[i] = a.v & 15
            else:
                self.err(SYNTAX, 'invalid register')
                return
        mod = {('+', '+'): 0, ('r-', 'r-'): 1, ('+', None): 2, (None, '+'): 3}.get((attr[0], attr[1]))
        if 'undef' in attr:
            mod = 0
        if mod is None:
            self.err(SYNTAX, 'invalid TFM mode')
            return
        self.emit_op(op['code'] + mod)
        self.emit([nib[0] << 4 | nib[1]])

    def bitop(self, op, args):
        if len(args) != 4:
            self.err(SYNTAX, 'number of arguments')
            return
        pb = 0xc0
        a = args[0]
        if a is not None:
            if a.t == 'int':
                pb = (a.v & 3) << 6
                self.err(ILLEGAL, 'numeric register')
                if not 0 <= a.v <= 3:
                    self.err(OUT_OF_RANGE, 'numeric register')
            elif a.t == 'reg' and a.v in ('cc', 'a', 'b') and a.attr is None:
                pb = {'cc': 0, 'a': 0x40, 'b': 0x80}[a.v]
            else:
                self.err(SYNTAX, 'invalid register')
                return
        for i, sh in ((1, 3), (2, 0)):
            a = args[i]
            if a is not None and a.t == 'int':
                if a.v < 0 or a.v > 7:
                    self.err(OUT_OF_RANGE, 'bit')
                else:
                    pb |= a.v << sh
        for a in args[1:]:
            if a is not None and a.t != 'int':
                self.err(SYNTAX, 'invalid argument')
        self.emit_op(op['code'])
        self.emit([pb])
        a = args[3]
        self.emit([a.v & 0xff if a is not None and a.t == 'int' else 0])


def s16(v):
    v &= 0xffff
    return v - 65536 if v > 32767 else v


def parse_opt_int(s):
    for pat, base in ((r'(?:\$|0x)([0-9A-Fa-f]+)', 16), (r'@([0-7]+)', 8), (r'(?:%|0b)([01]+)', 2), (r'([0-9]+)', 10)):
        m = re.fullmatch(pat, s)
        if m:
            v = int(m.group(1), base)
            return v if v <= I64MAX else None
    return None


DATA_OPS = {'fcb', 'fcc', 'fcn', 'fcs', 'fcv', 'fci', 'fdb', 'fqb', 'rzb', 'fzb',
            'zmb', 'bsz', 'fill', 'rmb', 'align', 'includebin'}
OTHER_OPS = {'put', 'setdp', 'include', 'lib', 'end', 'page', 'opt', 'spc', 'ttl',
             'sttl', 'nam', 'name'}


# ---------------------------------------------------------------------------
# What the outputs should be

def listing_text(r):
    """Expected lines of the listing file (without newline)."""
    out = []
    for pc, data, text in r.listing:
        s = ''
        if pc >= 0:
            s += '%04X  ' % (pc & 0xffff)
        if data:
            sp, a, b = data
            s += bytes(sp[2][a:b]).hex().upper()
        s += ' '
        while len(s) < 22:
            s += ' '
        col = 0
        t = ''
        for c in text:
            if c == '\t':
                t += ' '
                col += 1
                while col % 8:
                    t += ' '
                    col += 1
            else:
                t += c
                col += 1
        out.append(s + t)
    return out


def memory(r):
    m = {}
    for put, data in r.segs:
        for i, b in enumerate(data):
            m[put + i] = b
    return m


def binary_blob(r):
    if not r.segs:
        return b''
    lo = r.segs[0][0]
    out = bytearray()
    for put, data in r.segs:
        out += bytes(put - lo - len(out)) + data
    return bytes(out)
