"""C08: expressions evaluate by the documented precedence and types."""
import decimal
import math
import random
import struct

from lib import build, core, formats, model, scale
from lib.core import Case

RULE = ('Random expression trees over every operator, literal form and operand type (integers to 64 bits, floats, '
        'strings, symbols of each type), written with the fewest parentheses the documented precedence allows or with '
        'redundant ones, and evaluated by a separate tree evaluator; their values are read back from the output '
        '(32 bits at a time) and from the symbols file, and the whole program is compared with the model, which '
        'parses the text itself. Plus invalid operand types, division by zero, shifts, and overflow. Non-trivial: a '
        'distinct expression with its value.')

PREC = {'||': 2, '&&': 3, '|': 4, '^': 5, '&': 6, '==': 7, '!=': 7, '<': 8, '<=': 8, '>': 8, '>=': 8, '<<': 9, '>>': 9,
        '+': 10, '-': 10, '*': 11, '/': 11, '%': 11}
M64 = 1 << 64


def w64(v):
    v &= M64 - 1
    return v - M64 if v >> 63 else v


class Err(Exception):
    pass


def toint(x):
    if isinstance(x, int):
        return x
    if isinstance(x, str):
        v = 0
        for c in x:
            v = (v << 8 | ord(c)) & 0xffffffff
        return v
    if x != x or not -2.0 ** 63 <= x < 2.0 ** 63:
        raise Err
    return int(x)


def ev(t):
    k = t[0]
    if k == 'lit':
        return t[1]
    if k == 'un':
        a = ev(t[2])
        if isinstance(a, str):
            a = toint(a)
        if t[1] == '-':
            return w64(-a) if isinstance(a, int) else -a
        if t[1] == '+':
            return a
        if t[1] == '~':
            return ~toint(a)
        return int(toint(a) == 0)
    if k == '?':
        return ev(t[2]) if toint(ev(t[1])) else ev(t[3])
    op, a, b = t[1], ev(t[2]), ev(t[3])
    rel = {'<': lambda x, y: x < y, '<=': lambda x, y: x <= y, '>': lambda x, y: x > y, '>=': lambda x, y: x >= y,
           '==': lambda x, y: x == y, '!=': lambda x, y: x != y}
    if op in rel and isinstance(a, str) and isinstance(b, str):
        return int(rel[op](a, b))
    a = toint(a) if isinstance(a, str) else a
    b = toint(b) if isinstance(b, str) else b
    if op in rel:
        if isinstance(a, float) or isinstance(b, float):
            a, b = float(a), float(b)
        return int(rel[op](a, b))
    if op in '+-*':
        f = {'+': lambda x, y: x + y, '-': lambda x, y: x - y, '*': lambda x, y: x * y}[op]
        if isinstance(a, int) and isinstance(b, int):
            return w64(f(a, b))
        return f(float(a), float(b))
    if op == '/':
        a, b = float(a), float(b)
        if b == 0:
            raise Err
        return a / b
    a, b = toint(a), toint(b)
    if op == '%':
        if b == 0:
            raise Err
        return int(math.fmod(1, 1)) if a == 0 else (abs(a) % abs(b)) * (1 if a > 0 else -1)
    if op == '<<':
        if b < 0:
            raise Err
        return w64(a << b) if b < 64 else 0
    if op == '>>':
        if b < 0:
            raise Err
        return a >> min(b, 63)
    if op == '&':
        return a & b
    if op == '|':
        return a | b
    if op == '^':
        return a ^ b
    if op == '&&':
        return int(bool(a) and bool(b))
    return int(bool(a) or bool(b))


class E:
    def __init__(self, r):
        self.r = r
        self.syms = {}

    def lit(self):
        r = self.r
        k = r.random()
        if k < 0.72:
            v = r.choice([r.randrange(10), r.randrange(256), r.randrange(65536), r.randrange(1 << 32), r.randrange(1 << 63),
                          r.choice([0, 1, 2, 127, 128, 255, 256, 32767, 32768, 65535, 65536, (1 << 31) - 1, 1 << 31,
                                    (1 << 32) - 1, 1 << 32, (1 << 63) - 1])])
            k = r.randrange(10)
            t = str(v)
            if k == 0:
                t = '$%x' % v
            elif k == 1:
                t = '$%X' % v
            elif k == 2:
                t = '0x%x' % v
            elif k == 3:
                t = '%' + bin(v)[2:]
            elif k == 4:
                t = '0b' + bin(v)[2:]
            elif k == 5:
                t = '@%o' % v
            elif k == 6 and v:
                t = '0%o' % v
            elif k == 7:
                v = r.choice([i for i in range(33, 127)])
                t = "'%c" % v + r.choice(['', "'"])
                # 'c followed by ' is one literal of three characters
            return ('lit', v, t)
        if k < 0.82:
            v = r.choice([0.0, 0.5, 1.5, 2.25, 100.125, 3.0, 65535.75, 0.1, 1e6, 123456789.5, 0.001])
            t = repr(v)
            if 'e' in t:
                t = '1000000.'
            if v == int(v) and r.random() < 0.5:
                t = '%d.' % int(v)
            if t.startswith('0.') and len(t) > 2 and r.random() < 0.5:
                t = t[1:]
            return ('lit', v, t)
        if k < 0.9:
            n = r.randrange(1, 6)
            s = ''.join(r.choice('ABCxyz019 +-,;()#' if r.random() < 0.9 else [chr(r.randrange(128, 256))]) for _ in range(n))
            d = r.choice('"/')
            return ('lit', s, d + s + d)
        # a symbol
        n = 'sy%d' % len(self.syms)
        v = r.choice([r.randrange(-1000, 70000), -r.randrange(1 << 40), r.choice([0.5, -2.75, 12.0]), r.choice(['Q', 'hello', 'ab', 'a\xe9', '\xff', '\x80a'])])
        self.syms[n] = v
        return ('lit', v, n)

    def near(self):
        """A comparison of two values that are equal or all but."""
        r = self.r
        if r.random() < 0.35:
            return self.near_strings()
        if r.random() < 0.25:
            v = r.choice([0, 1, 255, 65535, (1 << 31) - 1, 1 << 31, (1 << 32) - 1, 1 << 32, (1 << 63) - 1, r.randrange(1 << 63)])
            w = min(max(v + r.choice([0, 0, 1, -1, 1 << 32, -(1 << 32), 1 << 16]), 0), (1 << 63) - 1)
            a, b = ('lit', v, str(v)), ('lit', w, r.choice(['%d', '$%x', '@%o']) % w)
            if r.random() < 0.3:
                a, b = ('un', '-', a), ('un', '-', b)
            return ('bin', r.choice(['<', '<=', '>', '>=', '==', '!=', '-', '/', '%', '&&', '||']), a, b)
        v = r.choice([0.1, 1.0, 1 / 3, 2.0 / 3, 256.0, 16777216.0, 16777217.0, 65535.99999, 4294967295.0, 4294967296.5, 2.0 ** 53, 2.0 ** 62,
                      r.random(), r.random() * 2 ** r.randrange(60)])
        def lit(x):
            if isinstance(x, float):
                t = format(decimal.Decimal(x), 'f')
                t += '' if '.' in t else r.choice(['.', '.0'])
            else:
                t = '%d' % x
            return ('lit', x, t)
        w = r.choice([v, math.nextafter(v, math.inf), math.nextafter(v, 0), v * (1 + 2.0 ** -r.randrange(20, 53)), v + 1, v + 0.5, int(v), int(v) + 1])
        if r.random() < 0.3:
            v = int(v)
        a, b = lit(v), lit(w)
        if r.random() < 0.2:
            a, b = ('un', '-', a), ('un', '-', b)
        if r.random() < 0.3:
            a = ('bin', r.choice('+-*/'), a, r.choice([lit(1), lit(1.0), lit(3)]))
        if r.random() < 0.5:
            a, b = b, a
        return ('bin', r.choice(['<', '<=', '>', '>=', '==', '!=', '-']), a, b)

    def near_strings(self):
        r = self.r
        n = r.choice([1, 1, 2, 3, 4, 5, 8, 9, 16, 17, 33])
        al = r.choice(['ab', 'aA', 'Qq019 +-', 'a\xe9\xff\x80'])
        v = ''.join(r.choice(al) for _ in range(n))
        k = r.randrange(6)
        w = v
        if k == 2:
            i = r.randrange(n)
            w = v[:i] + r.choice(al) + v[i + 1:]
        elif k == 3:
            w = v + r.choice(al)
        elif k == 4 and n > 1:
            w = v[:-1]
        elif k == 5:
            w = v[:-1] + chr(ord(v[-1]) ^ 1 if v[-1] not in '#' else ord('$'))
        if '"' in w:
            w = v
        out = []
        for x in r.choice([(v, w), (w, v)]):
            if r.random() < 0.5:
                self.syms['sy%d' % len(self.syms)] = x
                out.append(('lit', x, 'sy%d' % (len(self.syms) - 1)))
            else:
                out.append(('lit', x, '"%s"' % x))
        return ('bin', r.choice(['<', '<=', '>', '>=', '==', '!=']), out[0], out[1])

    def tree(self, d):
        r = self.r
        if d > 0 and r.random() < 0.12:
            return self.near()
        if d <= 0 or r.random() < 0.1:
            return self.lit()
        k = r.random()
        if k < 0.15:
            return ('un', r.choice('-+~!'), self.tree(d - 1))
        if k < 0.22:
            return ('?', self.tree(d - 1), self.tree(d - 1), self.tree(d - 1))
        op = r.choice(list(PREC))
        if op in ('<<', '>>'):
            b = ('lit', 0, '0')
            v = r.choice([0, 1, 2, 7, 8, 15, 31, 32, 33, 62, 63, 64, 65, 100, r.randrange(64)])
            b = ('lit', v, str(v))
            return ('bin', op, self.tree(d - 1), b)
        return ('bin', op, self.tree(d - 1), self.tree(d - 1))

    def text(self, t, redundant, spaces):
        """(text, precedence of the outermost operator)"""
        r = self.r
        sp = lambda: r.choice(['', ' ', ' ', '  ', '\t']) if spaces else ''
        k = t[0]
        if k == 'lit':
            s, p = t[2], 99
            if s[0] == "'" and len(s) == 2:
                s += ' '
        elif k == 'un':
            a, pa = self.text(t[2], redundant, spaces)
            if pa < 20:
                a = '(%s)' % a
            s, p = t[1] + a, 20
            # "--" and "++" are single tokens
            if a[0] in '+-' or a[0] == '*':
                s = '%s(%s)' % (t[1], a)
            if t[1] == '!' and a[0] == '=':
                s = '!(%s)' % a
        elif k == '?':
            a, pa = self.text(t[1], redundant, spaces)
            b, pb = self.text(t[2], redundant, spaces)
            c, pc = self.text(t[3], redundant, spaces)
            if pa <= 1:
                a = '(%s)' % a
            s, p = a + sp() + '?' + sp() + b + sp() + ':' + sp() + c, 1
        else:
            op = t[1]
            p = PREC[op]
            a, pa = self.text(t[2], redundant, spaces)
            b, pb = self.text(t[3], redundant, spaces)
            if pa < p:
                a = '(%s)' % a
            if pb <= p:
                b = '(%s)' % b
            o = op
            if op == '%':
                o = ' % '
            if op in '+-' and b[0] in '+-':
                b = '(%s)' % b
            if op == '&' and b[0] == '&':
                b = '(%s)' % b
            s = a + sp() + o + sp() + b
            if a.endswith(' ') and False:
                pass
        if redundant and r.random() < 0.3:
            return '(%s)' % s, 99
        return s, p


def make(seed):
    r = random.Random(seed)
    e = E(r)
    exprs = []
    for i in range(r.choice([1, 4, 10])):
        for _ in range(20):
            t = e.tree(r.choice([1, 1, 2, 2, 3, 4, 5]))
            try:
                v = ev(t)
                if isinstance(v, str):
                    continue        # only numbers can be assembled as words
                elif isinstance(v, float) and (v != v or abs(v) > 1e15 or (v and abs(v) < 1e-15)):
                    continue
                break
            except (Err, OverflowError):
                continue
        else:
            continue
        redundant = r.random() < 0.3
        spaces = r.random() < 0.3
        text = e.text(t, redundant, spaces)[0]
        if text[0] in '<>#[':
            text = '(%s)' % text
        exprs.append((text, v))
    src = []
    late = []
    for n, v in e.syms.items():
        if isinstance(v, str):
            d = '%s equ "%s"' % (n, v)
        elif isinstance(v, float):
            d = '%s equ %r' % (n, v)
        else:
            d = '%s equ %d' % (n, v)
        (src if r.random() < 0.5 else late).append(d)
    src.append(' org 0')
    exp = []
    for i, (t, v) in enumerate(exprs):
        src.append('r%d equ %s' % (i, t))
        iv = toint(v) & (M64 - 1)
        exp.append(('r%d' % i, v, t))
        src.append(' fqb %s,r%d>>32' % (t, i))
        src.append(' fqb (%s)&$ffffffff' % t)
        src.append(' fdb %s' % t)
    return Case(src + late), exp


def job(exe):
    def f(seed):
        case, exp = make(seed)
        res = core.compare(exe, case, ('status', 'image', 'symbols'))
        out = core.trim(res)
        if res['verdict'] == 'bad':
            return out
        run = res['run'] if 'run' in res else core.run_tool(exe, case.files, case.args(), ('out', 'lst', 'sym'))

        def bad(kind, why):
            out.update(verdict='bad', kind=kind, why=why, case=case)
            return out
        if run.rc != 0:
            return bad('rejected', 'valid expressions rejected: %s' % run.err[:300])
        mem = formats.srec(run.files['out'])[0]
        syms, _ = core.parse_symbols(run.files['sym'])
        a = 0
        for name, v, t in exp:
            iv = toint(v) & (M64 - 1)
            want = struct.pack('>I', iv & 0xffffffff) + struct.pack('>I', iv >> 32) + struct.pack('>I', iv & 0xffffffff) \
                + struct.pack('>H', iv & 0xffff)
            if isinstance(v, str):
                # FQB takes numbers only: strings are tested inside expressions
                pass
            got = bytes(mem.get(a + i, 0) for i in range(14))
            a += 14
            if got != want:
                return bad('value', '%s is assembled as %s, expected %s' % (t, got.hex(), want.hex()))
            ty, x = core.sym_text(syms.get(name, ''))
            if isinstance(v, int) and (ty, x) != ('int', v):
                return bad('value', '%s is listed as %s, expected %d' % (t, syms.get(name), v))
            if isinstance(v, float) and (ty, x) != ('float', v):
                return bad('value', '%s is listed as %s, expected %r' % (t, syms.get(name), v))
        out['verdict'] = 'ok'
        out['case'] = None
        out['extra'] = {'expressions evaluated': len(exp)}
        return out
    return f


def run(ctx):
    ctx.rule = RULE
    exe = build.build('plain')
    r = ctx.rng
    f = job(exe)
    seeds = ['%s/%d/%d' % (ctx.prop, ctx.seed, i) for i in range(ctx.n(4000, 120000))]
    for s in seeds[:3]:
        ctx.sample([t for n, v, t in make(s)[1]])
    for t in core.pmap(f, seeds):
        ctx.evaluations += 1
        if t.get('harness'):
            ctx.log(t['why'])
            continue
        ctx.distinct.add(t['digest'])
        for k, v in (t.get('extra') or {}).items():
            ctx.count(k, v)
        if t['verdict'] == 'bad':
            ctx.violate('expr-' + t['kind'], t['why'], t['case'], t['case'].args())
    # every pair of operators side by side, from text
    ops = list(PREC)
    cases = []
    un = ['', '-', '~', '!', '+']
    for a in ops:
        src = []
        for b in ops:
            for x, y, z in ((7, 3, 2), (-5, 2, 4), (1, 0, 3), (255, 256, 1)):
                for u in (r.choice(un), ''):
                    def sp(o):
                        return ' %s ' % o if o == '%' else o
                    if (a == '%' and y == 0) or (b == '%' and z == 0):
                        continue
                    src.append(' fqb (%d)%s%s%d%s%d' % (x, sp(a), u if not (u and a in '+-&' and u == a) else '', y, sp(b), z))
            src.append(' fqb 1?2%s3:4%s5' % (sp(a), sp(b)))
            src.append(' fqb 1%s0?2%s3:4' % (sp(a), sp(b)))
            src.append(' fqb 0?1:2%s1?3:4%s2' % (sp(a), sp(b)))
        # few in a program, as one that is refused hides the others
        cases += [Case(src[i:i + 6]) for i in range(0, len(src), 6)]
    core.campaign(ctx, exe, cases, ('status', 'image'), 'operator pairs')
    # literals of every form, with what may follow them
    src = []
    for v in [0, 1, 7, 8, 9, 10, 15, 16, 127, 128, 255, 256, 1000, 65535, 65536, (1 << 31), (1 << 32) - 1, (1 << 63) - 1]:
        for t in ('%d' % v, '$%x' % v, '$%X' % v, '0x%x' % v, '0x%X' % v, '%' + bin(v)[2:], '0b' + bin(v)[2:], '@%o' % v, '0%o' % v):
            src += [' fqb %s' % t, ' fqb (%s)>>32' % t]
    for c in range(33, 256):
        src.append(" fdb '%c,'%c'" % (c, c))
    for c in range(33, 256):
        if chr(c) not in '"\\':
            src.append(' fqb 0+"%c",0+"%cA",0+"A%c",0+"AB%cC",-"%c","%c"<"A"' % (c, c, c, c, c, c))
    src += [' fdb 1.5,.5,2.,100.25,0.75*4,7/2,1/3*3', " fdb ' ,' '"]
    core.campaign(ctx, exe, [Case(src)], ('status', 'image'), 'literal forms')
    # errors
    neg = []
    vals = ['1', '0', '-1', '1.5', '"ab"', 'x', 'und', 'K', 'R', 'ST', '99999999999999999999.0*1000000.', '[1]', '(1)', '']
    for o in ops + ['?']:
        for a in vals:
            for b in vals:
                if o == '?':
                    t = '%s?%s:%s' % (a, b, b)
                else:
                    t = '%s %s %s' % (a, o, b)
                neg.append(t)
    for u in un[1:] + ['--', '++', '#', '<', '*']:
        for a in vals:
            neg.append(u + a)
    neg += ['(1', '1)', '1+', '1++2', '1--2', '(', ')', '1 2', '1,', '1<<-1', '1>>-1', '-1>>-1', '1%0', '1%(2-2)', '1.5%0', '0/0',
            '1/0', '-1/0', '(1/0)*0', '~1.5', '~(1/0)', '9999999999999999999', '1<<64', '1<<63', '-1<<63', '(-9223372036854775807-1)%(-1)',
            '(-9223372036854775807-1)/(-1)', '-(-9223372036854775807-1)', '9223372036854775807+1', '(-9223372036854775807-1)-1',
            '9223372036854775807*9223372036854775807', '-1>>1', '-1>>63', '-1>>64', '1<<4294967296', '1>>4294967296', '"abcdef"', '""',
            '"a"+1', '"abcd"<<8', '1?2', '1:2', '?1:2', '1?:2', "'", "''", "'ab", '$', '0x', '@8', '08', '0b2', '%2', '1e5', '.', '1..2', '*', '**', '***',
            '*+*', '* * *', '1*-1', '1*+1', '2**', '2*-*']
    # numbers that are, or aren't, too large
    for v in ((1 << 63) - 1, 1 << 63, (1 << 63) + 5, (1 << 64) - 1, 1 << 64, (1 << 64) + 5, 1 << 70, 10 ** 30, 10 ** 90 + 7):
        for t in ('%d' % v, '$%x' % v, '$%X' % v, '0x%x' % v, '%' + bin(v)[2:], '0b' + bin(v)[2:], '@%o' % v, '0%o' % v):
            neg += [t, '1,' + t, '(%s)&255' % t, '1+' + t]
    # infinities, and what is no number, compared
    for a in ('(0/0)', '(1/0)', '(-1/0)', 'I*0', 'I', '-I', '1', '0.', '-0.'):
        for b in ('(0/0)', '(1/0)', 'I-I', 'I', '-1/0', '9007199254740993'):
            for o in ('==', '!=', '<', '<=', '>', '>='):
                neg.append('(%s)%s(%s)' % (a, o, b))
    cases = []
    for t in neg:
        cases.append(Case(['I equ 1/0', 'K equ 5', 'ST equ "q"', 'R equ x', ' org $10', ' fqb %s' % t, ' fcb 1']))
    core.campaign(ctx, exe, cases, ('status', 'image'), 'operand types and limits')
    core.campaign(ctx, exe, scale.expressions(), ('status', 'image'), 'large')
    core.campaign(ctx, exe, core.randoms(ctx, ctx.n(500, 10000), weights={'equ': 40, 'set': 10, 'data': 30}), ('status', 'image', 'symbols'), 'random')
