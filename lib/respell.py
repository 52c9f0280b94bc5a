"""Rewrite a program the same way in other words: case of mnemonics, directives
and registers, space, comments, number bases, string delimiters, line endings."""
import re

REGS = {'a', 'b', 'd', 'e', 'f', 'w', 'q', 'v', 'x', 'y', 'u', 's', 'pc', 'pcr', 'cc', 'dp'}
DIRECTIVES = {'equ', 'set', 'org', 'put', 'rmb', 'align', 'section', 'setdp', 'if', 'elsif', 'else', 'endif', 'macro', 'endm',
              'include', 'lib', 'includebin', 'export', 'end', 'fcb', 'fcc', 'fcn', 'fcs', 'fcv', 'fci', 'fdb', 'fqb', 'fill', 'rzb',
              'zmb', 'bsz', 'fzb', 'page', 'spc', 'nam', 'name', 'opt', 'ttl', 'sttl'}
NOARGS = {'page', 'spc', 'nam', 'name', 'opt', 'ttl', 'sttl'}

WORD = r'[A-Za-z_][A-Za-z0-9_.]*'
INTERP = r'&\{\d+\}|\\\{\d+\}|\\\d'
NUMBER = r"%[01]+|0b[01]+|@[0-7]+|0x[0-9A-Fa-f]+|\$[0-9A-Fa-f]+|\d+|'[^\n\r]'|'[^\n\r]"
TOKEN = re.compile(r'''(?P<ws>[ \t]+)|(?P<comment>;.*)|(?P<interp>%s)|(?P<incdec>\+\+|--)|(?P<ref>\d+[bBfF](?![0-9A-Za-z_.]))
|(?P<float>\d*\.\d+|\d+\.)|(?P<num>%s)|(?P<word>%s)|(?P<op><<|>>|<=|>=|==|!=|&&|\|\||[!\#%%&(*+\-:<>?\[^|~)\],/])''' % (INTERP, NUMBER, WORD), re.X)
STRING = re.compile(r'\\.|&\{\d+\}|&\d|&&|.', re.S)


def number_value(t):
    if t[0] == "'":
        return ord(t[1])
    if t[0] == '%':
        return int(t[1:], 2)
    if t[:2] == '0b':
        return int(t[2:], 2)
    if t[0] == '@':
        return int(t[1:], 8)
    if t[:2] in ('0x',):
        return int(t[2:], 16)
    if t[0] == '$':
        return int(t[1:], 16)
    if t[0] == '0' and len(t) > 1 and all(c in '01234567' for c in t):
        return int(t, 8)
    return int(t)


def tokens(s):
    """Argument field -> [(kind, text)], or None if not understood."""
    out = []
    i = 0
    operand = False
    while i < len(s):
        c = s[i]
        if c == '"' or (c == '/' and not operand):
            j = i + 1
            parts = []
            while True:
                if j >= len(s):
                    return None
                if s[j] == c:
                    break
                m = STRING.match(s, j)
                parts.append(m.group())
                j = m.end()
            out.append(('str', (c, parts)))
            i = j + 1
            operand = True
            continue
        m = TOKEN.match(s, i)
        if not m:
            return None
        k = m.lastgroup
        # a binary number directly after an operand still lexes as a number
        out.append((k, m.group()))
        i = m.end()
        if k == 'ws':
            continue
        operand = k in ('interp', 'ref', 'float', 'num', 'word') or m.group() in (')', ']')
        if k == 'incdec':
            operand = True
    return out


class Respell:
    def __init__(self, r, keep_ops=(), what=None):
        self.r = r
        self.keep = set(keep_ops)
        self.n = {}
        # which kinds of change to make this time
        self.on = what or {k for k in ('case', 'space', 'comment', 'base', 'delim', 'eol', 'arg space') if r.random() < 0.7}

    def did(self, k):
        self.n[k] = self.n.get(k, 0) + 1

    def case(self, s):
        r = self.r
        if 'case' not in self.on or r.random() < 0.2:
            return s
        self.did('case')
        return r.choice([s.upper(), s.lower(), s.capitalize(), ''.join(r.choice((c.upper(), c.lower())) for c in s)])

    def sp(self, old=None):
        r = self.r
        if 'space' not in self.on:
            return old or ' '
        self.did('space')
        k = r.random()
        if k < 0.02:
            return r.choice(' \t') * r.choice([100, 1000, 9000, 20000])
        return ''.join(r.choice(' \t') for _ in range(r.choice([1, 1, 2, 3, 5, 9])))

    def number(self, t, after):
        r = self.r
        if 'base' not in self.on or r.random() < 0.2:
            return t
        v = number_value(t)
        c = ['$%x', '$%X', '0x%x', '0x%X', '0x%04X', '$%04x', '%d', '@%o']
        if v:
            c.append('0%o')
            if len('%o' % v) > 1 or v < 8:
                c.append('00%o')
        k = r.choice(c + ['bin', 'bin', 'chr'])
        self.did('base')
        if k == 'bin':
            return r.choice(['%%%s', '0b%s', '%%0000%s', '0b00%s']) % bin(v)[2:]
        if k == 'chr':
            if (33 <= v < 127 or 160 <= v < 256) and v != 39:
                return "'%s'" % chr(v)
            return '$%x' % v
        return k % v

    def string(self, c, parts):
        r = self.r
        if 'delim' not in self.on or r.random() < 0.2:
            return c + ''.join(parts) + c
        n = '/' if c == '"' else '"'
        self.did('delim')
        return n + ''.join('\\' + p if p == n else p for p in parts) + n

    def args(self, s):
        toks = tokens(s)
        if toks is None:
            return None
        r = self.r
        out = ''
        prev = None
        for i, (k, t) in enumerate(toks):
            nxt = toks[i + 1] if i + 1 < len(toks) else (None, '')
            if k == 'comment':
                break
            adj = (prev and prev[0] == 'interp') or nxt[0] == 'interp'
            if k == 'ws':
                # between things that would run together, or is it at the end
                out += self.sp(t) if 'arg space' in self.on and not adj else t
                prev = (k, t)
                continue
            if k == 'num' and not adj:
                x = self.number(t, prev)
                if x.startswith('%') and prev and prev[1] == '%' or (nxt[0] in ('word', 'num', 'float', 'ref', 'interp')) or (prev and prev[0] in ('word', 'num', 'float', 'ref')):
                    x = t
            elif k == 'word' and t.lower() in REGS and not adj:
                x = self.case(t)
            elif k == 'ref':
                x = self.case(t)
            elif k == 'str':
                x = self.string(*t)
            else:
                x = t
            # a number after a word would join it; / after an operator is a string
            if ('arg space' in self.on and prev and prev[0] != 'ws' and not adj and r.random() < 0.25
                    and k in ('op', 'num', 'word', 'ref', 'incdec', 'str', 'float') and t not in ('%',)
                    and prev[1] not in ('%',) and not (prev[0] == 'str' and k == 'str')):
                out += self.sp()
                self.did('arg space')
            out += x
            prev = (k, t)
        return out.rstrip(' \t')

    def comment(self):
        r = self.r
        return r.choice([';', '; plain', ';\t" unbalanced', '; * / \\1 &{2} \\{9} && end', ';;;', '; lda #5', '; \xe9\xff\x01', ";'", '; macro', ';' + 'long ' * r.choice([1, 50, 5000] if r.random() < 0.1 else [3])])

    def line(self, ln):
        """The line respelled."""
        r = self.r
        m = re.match(r'^(?P<lab>[^ \t;*]*)(?P<rest>.*)$', ln, re.S)
        lab, rest = m.group('lab'), m.group('rest')
        if re.match(r'^[ \t]*[;*]', rest) or not ln.strip():
            # a comment, or nothing, perhaps after a label
            if 'comment' in self.on:
                self.did('comment')
                if lab:
                    return lab + r.choice(['', ' ', '\t', '  ; c', ';c', ' ;' if rest else ''])
                return r.choice(['', ' ', '\t \t', self.comment(), ' ' + self.comment(), '*' + self.comment(), '\t* x'])
            return ln
        if re.fullmatch(r'\d+', lab):
            lab = self.number(lab, None)
            if lab[0] == "'":
                lab = '%d' % ord(lab[1])
        if not rest.strip():
            return lab + self.tail(rest)
        m = re.match(r'^([ \t]+)(\S+?)(?:([ \t]+)(.*))?$', rest, re.S)
        if not m or ';' in m.group(2):
            return ln
        op, gap, arg = m.group(2), m.group(3), m.group(4)
        low = op.lower()
        word = re.fullmatch(WORD, op)
        if word and op not in self.keep and low not in ('code', 'data', 'bss', 'ram', 'auto'):
            op2 = self.case(op)
        else:
            op2 = op
        if not word and ';' in op:
            return ln
        s = lab + self.sp(m.group(1)) + op2
        if arg is None or not arg.strip() or arg.lstrip().startswith(';'):
            return s + self.tail('')
        if low in NOARGS and word:
            return s + self.sp(gap) + arg
        a = self.args(arg)
        if a is None:
            return s + self.sp(gap) + arg
        return s + self.sp(gap) + a + self.tail('')

    def tail(self, old):
        r = self.r
        k = r.random()
        if 'comment' in self.on and k < 0.3:
            self.did('comment')
            return r.choice(['', ' ', '\t', '   ']) + self.comment()
        if 'space' in self.on and k < 0.5:
            return r.choice([' ', '\t', '  \t '])
        return old

    def text(self, data):
        r = self.r
        s = data.decode('latin-1').replace('\r\n', '\n')
        if not s:
            return b''
        ls = s.split('\n')
        final = ls[-1] == ''
        if final:
            ls.pop()
        out = []
        for ln in ls:
            while 'comment' in self.on and r.random() < 0.08:
                self.did('comment')
                out.append(r.choice([self.comment(), '  ' + self.comment(), '*', '* ' + self.comment(), '', '   ', '\t* \\1']))
            out.append(self.line(ln))
        eol = r.choice(['\n', '\r\n', None]) if 'eol' in self.on else '\n'
        t = ''
        for i, ln in enumerate(out):
            last = i == len(out) - 1
            if last and (not final or ('eol' in self.on and r.random() < 0.4)):
                t += ln
                if not final and 'eol' in self.on and r.random() < 0.5:
                    t += '\n'
                self.did('last newline')
                break
            e = eol or r.choice(['\n', '\r\n'])
            if e != '\n':
                self.did('crlf')
            t += ln + e
        return t.encode('latin-1')
