"""C14: macro expansion is equivalent to writing out its body."""
import itertools
import random

from lib import build, core, formats, scale
from lib.core import Case
from checks.c09 import drive

RULE = ('Random sets of macros taking numbers, addresses, registers, strings, name parts, instruction names and operands with '
        '#, < and > (up to 15 arguments, in every spelling of a positional variable, in operands, strings, labels, symbol and '
        'instruction names), calling and defining each other, defined and used in files, included files and branches of '
        'conditions. Each program is also written out with every call expanded by hand (by the generator, not the model); image, EXEC address and '
        'symbols must be equal. Programs with a missing argument, a redefinition or a structural error must be rejected, '
        'one at the nesting limit accepted and one beyond it rejected. Non-trivial: a distinct program with a macro expanded.')


class Arg:
    """An argument: how it is written in a call, and what it stands for when written out."""
    def __init__(self, kind, call, operand, text):
        self.kind, self.call, self.operand, self.text = kind, call, operand, text


class P:
    def __init__(self, r, is6309):
        self.r = r
        self.is6309 = is6309
        self.macros = []         # (name, kinds, items)
        self.nlab = 0
        self.tmp = 0
        self.calls = 0
        self.consts = ['k%d' % i for i in range(6)]
        self.labels = []

    def case(self, s):
        return self.r.choice([s, s, s.upper(), s.capitalize()])

    def var(self, i, instr=False):
        r = self.r
        o = ['\\{%d}' % i, '&{%d}' % i]
        if i < 10:
            o += ['\\%d' % i] * 3
            if instr:
                o += ['&%d' % i]
        return r.choice(o)

    # body items: each is a list of pieces ('t', text), ('v', index, how)
    def item(self, kinds):
        r = self.r
        usable = [i for i, k in enumerate(kinds)]
        if not usable or r.random() < 0.15:
            return ['line', [('t', r.choice([' nop', ' lda #5', ' fdb $1234', ' rmb 3', '; text', ' leax 5,y', ' fcc "text"', '', ' ldx k1', ' bra *']))]]
        i = r.choice(usable)
        k = kinds[i]
        v = ('v', i, 'operand')
        s = ('v', i, 'text')
        if k == 'int':
            c = r.randrange(8)
            if c == 0:
                return ['line', [('t', ' fdb '), v, ('t', ',2*'), v, ('t', '+1')]]
            if c == 1:
                return ['line', [('t', ' ldx #'), v]]
            if c == 2:
                return ['line', [('t', ' fqb '), v, ('t', '-'), v, ('t', ',k2')]]
            if c == 3:
                return ['line', [('t', ' leay '), v, ('t', ',x')]]
            if c == 4:
                return ['line', [('t', ' lda '), v]]
            if c == 5:
                return ['line', [('t', ' fcb ('), v, ('t', ')&$7f')]]
            if c == 6:
                return ['line', [('t', ' fdb -'), v, ('t', ' ; text')]]
            return ['line', [('t', ' jmp ['), v, ('t', ']')]]
        if k == 'attr':
            return ['line', [('t', r.choice([' lda ', ' adda ', ' ldx ', ' cmpd '])), v]]
        if k == 'float':
            return ['line', [('t', ' fdb '), v, ('t', '*2')]]
        if k == 'reg':
            return ['line', [('t', r.choice([' leax 5,', ' lda ,', ' tfr d,', ' leax a,', ' jmp [,'])), v]]
        if k == 'regop':
            return ['line', [('t', ' lda '), v]] if False else ['line', [('t', ' pshs a,'), v, ('t', ',cc')]]
        if k == 'str':
            c = r.randrange(4)
            if c == 0:
                return ['line', [('t', ' fcc '), ('v', i, 'string')]]
            if c == 1:
                return ['line', [('t', ' fcc "<'), s, ('t', '>')] + [('t', '"')], 'instr']
            if c == 2:
                return ['line', [('t', ' fcb 1,/'), s, s, ('t', '/,2')], 'instr']
            return ['line', [('t', ' fcn "'), s, ('t', '",'), ('v', i, 'string')], 'instr']
        if k in ('num', 'snum'):
            # a number where text is wanted stands for its decimal digits
            c = r.choice([0, 1, 2, 4]) if k == 'snum' else r.randrange(6)
            if c == 0:
                return ['line', [('t', ' fcc "'), s, ('t', '"')], 'instr']
            if c == 1:
                return ['line', [('t', ' fcn /a'), s, ('t', 'b'), s, ('t', '/,1')], 'instr']
            if c == 2:
                return ['line', [('t', ' fqb '), v, ('t', ',2*'), v]]
            if c == 3:
                return ['line', [('t', ' fdb num_'), s, ('t', ',3')]]
            if c == 4:
                return ['line', [('t', ' fcs "'), s, ('t', '"')], 'instr']
            return ['line', [('t', ' fdb num'), s, ('t', '_.'), s, ('t', '+1')]]
        if k == 'regt':
            c = r.randrange(4)
            if c == 0:
                return ['line', [('t', ' fcc "'), s, ('t', '"')], 'instr']
            if c == 1:
                return ['line', [('t', ' ld'), s, ('t', ' #5')]]
            if c == 2:
                return ['line', [('t', ' fdb reg_'), s, ('t', '.'), s]]
            return ['line', [('t', ' cmp'), s, ('t', ' $12')]]
        if k == 'name':
            c = r.randrange(5)
            if c == 0:
                return ['line', [('t', ' fdb pre_'), s, ('t', ',1')]]
            if c == 1:
                return ['line', [('t', ' fdb '), s, ('t', '_post')]]
            if c == 2:
                return ['line', [('t', ' fdb mid_'), s, ('t', '.'), s]]
            if c == 3:
                return ['deflabel', i]
            return ['line', [('t', ' fcc "'), s, ('t', '"')], 'instr']
        if k == 'op':
            return ['line', [('t', ' '), s]]
        if k == 'opsfx':
            return ['line', [('t', ' ld'), s, ('t', r.choice([' #1', ' $1234', ' ,y']))]]
        if k == 'cond':
            return ['if', i]

    def define(self, name=None):
        r = self.r
        n = r.choice([0, 1, 2, 3, 3, 6, 15])
        kinds = [r.choice(['int', 'int', 'num', 'snum', 'regt', 'attr', 'float', 'reg', 'regop', 'str', 'str', 'name', 'op', 'opsfx', 'cond']) for _ in range(n)]
        items = []
        for _ in range(r.choice([1, 2, 4, 8])):
            if self.macros and r.random() < 0.25 and len(self.macros) < 7:
                items.append(['call', r.randrange(len(self.macros)), None])
            else:
                items.append(self.item(kinds))
        name = 'Mac%d' % len(self.macros)
        m = [name, kinds, items]
        # inner calls: arguments decided here so that the body is fixed
        for it in items:
            if it[0] == 'call':
                sub = self.macros[it[1]]
                it[2] = [self.inner_arg(k, kinds) for k in sub[1]]
            elif it[0] == 'if':
                it.append([self.item([k for k in kinds if k != 'cond'] and kinds) for _ in range(2)])
                it[2] = [x if x[0] == 'line' else ['line', [('t', ' nop')]] for x in it[2]]
            elif it[0] == 'deflabel':
                self.nlab += 1
                it.append(self.nlab)
        self.macros.append(m)
        return m

    def inner_arg(self, kind, kinds):
        """An argument of a call inside a macro: either passed on or built."""
        r = self.r
        same = [i for i, k in enumerate(kinds) if k == kind]
        if same and r.random() < 0.7:
            i = r.choice(same)
            if kind == 'int' and r.random() < 0.5:
                c = r.randrange(1, 100)
                return ('sum', i, c)
            if kind in ('str', 'name') and r.random() < 0.5:
                return ('join', i)
            return ('pass', i)
        return ('new', self.arg(kind, plain=True))

    def string(self):
        r = self.r
        if r.random() < 0.25:
            return ''.join(r.choice(['a', 'Z ', '1', '& ', '&&', '\\\\', '\\"', '\\/', "'", '\\n', '\\r', '%', '\\&', '\\x', '\xe9', '\xff', '~']) for _ in range(r.randrange(1, 9)))
        return ''.join(r.choice('abcXYZ 019,;*#+-.') for _ in range(r.randrange(1, 9)))

    def arg(self, kind, plain=False):
        r = self.r
        if kind == 'int':
            c = r.randrange(7)
            if c == 0 and not plain and self.labels:
                l = r.choice(self.labels)
                return Arg(kind, l + '+1', '(%s+1)' % l, None)
            if c == 1:
                l = r.choice(self.consts)
                return Arg(kind, l, l, None)
            if c == 2 and not plain:
                self.tmp += 1
                return Arg(kind, '*', 'tmp%d' % self.tmp, 'tmp%d' % self.tmp)
            if c == 3:
                return Arg(kind, 'later', 'later', None)
            v = r.choice([r.randrange(256), r.randrange(65536), r.randrange(-128, 0), 0, 1])
            return Arg(kind, str(v), '(0%+d)' % v if v < 0 else str(v), None)
        if kind in ('num', 'snum'):
            v = r.choice([0, 1, 7, 10, 255, 256, 65535, 65536, -1, -128, -32768, (1 << 31) - 1, 1 << 31, (1 << 32) - 1, 1 << 32, (1 << 32) + 1, -(1 << 31) - 1, (1 << 63) - 1, 1 - (1 << 63), 1 << 62, r.randrange(-1000, 100000), r.randrange(1 << 62)])
            if kind == 'num':
                v = abs(v)
            k = r.random()
            if v < 0:
                c = str(v)
            elif k < 0.3:
                c = '$%x' % v
            elif k < 0.4:
                c = '0b{:b}'.format(v)
            elif k < 0.5 and v:
                c = '%d+1' % (v - 1)
            elif k < 0.6:
                c = '(%d)' % v
            else:
                c = str(v)
            return Arg(kind, c, '(0%+d)' % v if v < 0 else str(v), str(v))
        if kind == 'regt':
            t = r.choice(['x', 'y', 'u', 's', 'a', 'b', 'd'])
            return Arg(kind, r.choice([t, t.upper()]), t, t)
        if kind == 'attr':
            v = r.randrange(256)
            a = r.choice(['#', '<', '>', ''])
            # passed by value
            return Arg(kind, '%s%d' % (a, v), str(v), None)
        if kind == 'float':
            v = r.choice(['1.5', '2.25', '0.5', '100.75', 'k1/4'])
            return Arg(kind, v, '(%s)' % v, None)
        if kind == 'reg':
            t = r.choice(['x', 'y', 'u', 's', 'X', 'Y'])
            return Arg(kind, t, t, None)
        if kind == 'regop':
            t = r.choice(['x', 'b', 'dp', 'Y', 'pc', 'B'])
            return Arg(kind, t, t, None)
        if kind == 'str':
            s = self.string()
            d = r.choice('"/')
            return Arg(kind, d + s + d, d + s + d, s)
        if kind == 'name':
            t = r.choice(['a', 'one', 'Two', 'x1', '_u', '9', '10', 'n.m'])
            return Arg(kind, '"%s"' % t, None, t)
        if kind == 'op':
            t = r.choice(['nop', 'clra', 'RTS', 'Abx', 'swi2'])
            return Arg(kind, '"%s"' % t, None, t)
        if kind == 'opsfx':
            t = r.choice(['x', 'U', 'd', 'y', 's'])
            return Arg(kind, '"%s"' % t, None, t)
        if kind == 'cond':
            t = r.choice(['0', '1', 'k0', 'k1-k1', '2'])
            return Arg(kind, t, t, None)

    def body_text(self, m):
        """The macro as written."""
        name, kinds, items = m
        out = []
        for it in items:
            out += self.item_text(it, m)
        return out

    def item_text(self, it, m):
        if it[0] == 'line':
            instr = len(it) > 2
            s = ''
            parts = it[1]
            for j, p in enumerate(parts):
                if p[0] == 't':
                    s += p[1]
                else:
                    # &n only within strings
                    inq = instr and p[2] == 'text'
                    v = self.var(p[1] + 1, inq)
                    s += v
            # a digit after a short form would be another variable's number only in braces
            return [s]
        if it[0] == 'deflabel':
            end = '.q' if it[2] % 2 else ''
            return ['d%d_%s' % (it[2], self.var(it[1] + 1)) + end + ' nop', ' fdb d%d_%s' % (it[2], self.var(it[1] + 1)) + end]
        if it[0] == 'if':
            o = [' if ' + self.var(it[1] + 1)] + self.item_text(it[2][0], m) + [' else'] + self.item_text(it[2][1], m) + [' endif']
            return o
        if it[0] == 'call':
            sub = self.macros[it[1]]
            a = []
            for x in it[2]:
                if x[0] == 'new':
                    a.append(x[1].call)
                elif x[0] == 'pass':
                    a.append(self.var(x[1] + 1))
                elif x[0] == 'sum':
                    a.append('%s+%d' % (self.var(x[1] + 1), x[2]))
                else:
                    a.append('"z%s_"' % self.var(x[1] + 1, True))
            return [' %s %s' % (sub[0], ','.join(a))]

    def expand(self, m, args):
        """The macro written out."""
        self.calls += 1
        out = []
        for it in m[2]:
            out += self.expand_item(it, args)
        return out

    def expand_item(self, it, args):
        if it[0] == 'line':
            s = ''
            for p in it[1]:
                if p[0] == 't':
                    s += p[1]
                elif p[2] == 'text':
                    s += args[p[1]].text
                else:
                    s += args[p[1]].operand
            return [s]
        if it[0] == 'deflabel':
            n = 'd%d_%s' % (it[2], args[it[1]].text) + ('.q' if it[2] % 2 else '')
            return [n + ' nop', ' fdb ' + n]
        if it[0] == 'if':
            v = args[it[1]].operand not in ('0', 'k1-k1', 'k0')
            return self.expand_item(it[2][0 if v else 1], args)
        if it[0] == 'call':
            sub = self.macros[it[1]]
            a = []
            for x, k in zip(it[2], sub[1]):
                if x[0] == 'new':
                    a.append(x[1])
                elif x[0] == 'pass':
                    a.append(args[x[1]])
                elif x[0] == 'sum':
                    a.append(Arg('int', None, '(%s+%d)' % (args[x[1]].operand, x[2]), None))
                else:
                    t = 'z%s_' % args[x[1]].text
                    a.append(Arg(k, None, '"%s"' % t, t))
            return self.expand(sub, a)


def make(seed):
    r = random.Random(seed)
    is6309 = r.random() < 0.3
    p = P(r, is6309)
    src = ['k%d equ %d' % (i, v) for i, v in enumerate([0, 7, 300, 1, 0x1234, 255])]
    src.append(' org $1000')
    exp = list(src)
    files = {}
    for i in range(r.choice([1, 2, 4, 7])):
        m = p.define()
        text = ['%s %s' % (m[0], p.case('macro'))] + p.body_text(m) + [' %s%s' % (p.case('endm'), r.choice(['', '', ' "%s"' % m[0]]))]
        how = r.random()
        if how < 0.1:
            files['m%d.s' % i] = ('\n'.join(text) + '\n').encode('latin-1')
            src.append(' include "m%d.s"' % i)
        elif how < 0.2:
            src += [' if k1'] + text + [' endif']
        elif how < 0.3:
            # defined by another macro
            src += ['Def%d macro' % i] + text + [' endm', ' Def%d' % i]
        else:
            src += text
    used = set()
    for i in range(r.choice([1, 2, 4, 8])):
        m = r.choice(p.macros)
        args = [p.arg(k) for k in m[1]]
        if has_label(p, m):
            # labels pasted from arguments must be distinct
            for a in args:
                if a.kind == 'name':
                    p.tmp += 1
                    a.text = 'q%d' % p.tmp
                    a.call = '"%s"' % a.text
        lab = ''
        if r.random() < 0.3:
            lab = 'L%d' % i
            p.labels.append(lab)
        src.append('%s %s %s' % (lab, m[0], r.choice([',', ', ', ' , ']).join(a.call for a in args)))
        if lab:
            exp.append(lab)
        for a in args:
            if a.call == '*':
                exp.append(a.operand)
        exp += p.expand(m, args)
        if r.random() < 0.3:
            src.append(' fcb %d' % i)
            exp.append(' fcb %d' % i)
    tail = ['later equ 5']
    names = set()
    for l in exp:
        if not l.startswith(' fdb '):
            continue
        for w in l.replace(',', ' ').replace('"', ' ').replace('+', ' ').split():
            if w.startswith(('pre_', 'mid_', 'num', 'reg_')) or w.endswith('_post'):
                names.add(w)
    for j, n in enumerate(sorted(names)):
        tail.append('%s equ %d' % (n, 1000 + j))
    src += tail
    exp += tail
    files['main.s'] = ('\n'.join(src) + '\n').encode('latin-1')
    e = {'main.s': ('\n'.join(exp) + '\n').encode('latin-1')}
    return Case(files=files, isa6309=is6309), Case(files=e, isa6309=is6309), p.calls


def has_label(p, m):
    return any(it[0] == 'deflabel' or it[0] == 'call' and has_label(p, p.macros[it[1]]) for it in m[2])


def job(exe):
    def f(seed):
        case, eq, calls = make(seed)
        res = core.compare(exe, case, ('status', 'image', 'symbols', 'listing'))
        out = core.trim(res)
        if res.get('kind') == 'crash':
            return out
        run = core.run_tool(exe, case.files, case.args(), ('out', 'sym'))
        ref = core.run_tool(exe, eq.files, eq.args(), ('out', 'sym'))

        def bad(kind, why):
            out.update(verdict='bad', kind=kind, why=why, case=case)
            return out
        if ref.rc != 0:
            if run.rc == 0:
                return bad('accepted', 'accepted, though the written out program is rejected: %s' % ref.err[:300])
            out['extra'] = {'both rejected': 1}
            return out
        if run.rc != 0:
            return bad('rejected', 'rejected, though the written out program is accepted: %s' % run.err[:300])
        if run.files['out'] != ref.files['out']:
            return bad('bytes', 'output differs from that of the written out program ' +
                       str(core.diff_mem(formats.srec(run.files['out'])[0], formats.srec(ref.files['out'])[0])))
        sa, sb = core.parse_symbols(run.files['sym'])[0], core.parse_symbols(ref.files['sym'])[0]
        sb = {k: v for k, v in sb.items() if not k.startswith('tmp')}
        if sa != sb:
            return bad('symbols', 'symbols differ from those of the written out program: %r' % sorted(set(sa.items()) ^ set(sb.items()))[:4])
        out['extra'] = {'expansions': calls, 'programs equal to their expansion': 1}
        return out
    return f


SMALL = [
    ['m macro', ' fdb \\1', ' endm', ' m'], ['m macro', ' fdb \\2', ' endm', ' m 1'], ['m macro', ' fdb \\1', ' endm', ' m 1', ' m 2,3'],
    ['m macro', ' fdb \\0', ' endm', ' m 1'], ['m macro', ' fdb \\{0}', ' endm', ' m 1'], ['m macro', ' fdb \\{10}', ' endm', ' m 1,2,3,4,5,6,7,8,9,10'],
    ['m macro', ' fdb \\{11}', ' endm', ' m 1,2,3,4,5,6,7,8,9,10'], ['m macro', ' fcc "\\10"', ' endm', ' m "a"'], ['m macro', ' fcc "&{1}0"', ' endm', ' m "a"'],
    ['m macro', ' fcc "\\2"', ' endm', ' m "a"'], ['m macro', 'l\\2', ' endm', ' m "a"'], ['m macro', ' ld\\2 #1', ' endm', ' m "a"'], ['m macro', ' fdb s\\1', ' endm', ' m'],
    ['m macro', ' nop', ' endm', 'm macro', ' nop', ' endm'], ['m macro', ' nop', ' endm', ' m', 'm macro', ' rts', ' endm', ' m'],
    ['m macro', ' nop'], ['m macro'], [' endm'], [' nop', ' endm'], ['m macro', ' endm', ' endm'], [' macro', ' endm'], ['1 macro', ' endm'], ['x macro', ' endm'],
    ['m macro', 'n macro', ' nop', ' endm', ' m'], ['m macro', 'n macro', ' nop', ' endm', ' endm', ' n'], ['m macro', 'n macro', ' nop', ' endm', ' endm', ' m', ' n'],
    ['m macro', 'n macro', ' fcb \\1', ' endm', ' endm', ' m', ' n 5'], ['m macro', 'n macro', ' fcb \\1', ' endm', ' n 7', ' endm', ' m 5'],
    ['m macro', 'n macro', ' nop', ' endm', ' endm', ' m', ' m'],
    ['m macro', ' m', ' endm', ' m'], ['m macro', ' n', ' endm', 'n macro', ' m', ' endm', ' m'], ['m macro', ' m', ' endm', ' nop'],
    ['m macro', ' if \\1', ' m \\1-1', ' fcb \\1', ' endif', ' endm', ' m 6'], ['m macro', ' if \\1', ' m \\1-1', ' fcb \\1', ' endif', ' endm', ' m 7'],
    ['m macro', ' if \\1', ' m \\1-1', ' fcb \\1', ' endif', ' endm', ' m 5'], ['m macro', ' if \\1', ' m \\1-1', ' fcb \\1', ' endif', ' endm', ' m 8'],
    [' m', 'm macro', ' nop', ' endm'], ['m macro', ' nop', ' endm', 'm equ 5', ' m', ' lda #m'], ['m equ 5', 'm macro', ' nop', ' endm', ' m', ' lda #m'],
    ['nop macro', ' rts', ' endm', ' nop'], ['fcb macro', ' rts', ' endm', ' fcb 1'], ['M macro', ' nop', ' endm', ' m'], ['M macro', ' nop', ' endm', 'm macro', ' rts', ' endm', ' m', ' M'],
    ['m macro', ' fcc \\1', ' endm', ' m "a"', ' m 65', ' m /b"/'], ['m macro', ' fdb \\1', ' endm', ' m "ab"'], ['m macro', ' lda \\1', ' endm', ' m #5', ' m <5', ' m >5', ' m 5', ' m [5]'],
    ['m macro', ' lda \\1,\\2', ' endm', ' m 5,x', ' m <5,x', ' m a,y', ' m ,x+', ' m 0,x'], ['m macro', ' lda \\1', ' endm', ' m x+'], ['m macro', ' lda ,\\1', ' endm', ' m x+', ' m x++', ' m -x', ' m --x', ' m x'],
    ['m macro', ' lda #\\1', ' endm', ' m #5'], ['m macro', ' lda <\\1', ' endm', ' m 5', ' m >5', ' m #5'], ['m macro', ' fdb \\1+1', ' endm', ' m <5', ' m #5', ' m "a"', ' m 1.5', ' m x'],
    ['m macro', '\\1 equ 5', ' endm', ' m "a1"', ' lda #a1'], ['m macro', '\\1 nop', ' endm', ' m 1', ' bra 1b'], ['m macro', '\\1 nop', ' endm', ' m "1"', ' bra 1b'], ['m macro', 'q\\1 nop', ' endm', ' m 1', ' bra q1'],
    ['m macro', 'q\\1 nop', ' endm', ' m -1'], ['m macro', 'q\\1 nop', ' endm', ' m $10', ' bra q16'], ['m macro', 'q\\1 nop', ' endm', ' m 1.5'], ['m macro', 'q\\1 nop', ' endm', ' m x'],
    ['a1 equ 5', 'm macro', ' fdb q\\1', ' endm', 'q5 equ 77', ' m a1', ' m 5', ' m "5"'], ['m macro', ' fcc "\\1"', ' endm', ' m 12', ' m -5', ' m 1.5', ' m x'],
    ['m macro', ' fdb *', ' endm', ' nop', ' m', ' m'], ['m macro', ' fdb \\1', ' endm', ' m *', ' m *+1'], ['m macro', 'l set \\1', ' endm', ' m 1', ' m 2', ' fcb l'],
    ['l set 1', 'm macro', ' fcb \\1,l', 'l set 9', ' fcb \\1,l', ' endm', ' m l', ' m l+1'], ['m macro', ' section "two"', ' org $100', ' nop', ' endm', ' m', ' rts'],
    ['m macro', ' end $1234', ' endm', ' m', ' nop'], ['m macro', ' org $1000', ' nop', ' endm', ' m'], ['m macro', ' setdp \\1', ' lda $1234', ' endm', ' m $12'],
    ['m macro', '; \\1', '* \\1', ' ; \\5', ' nop ; \\5', ' endm', ' m'], ['m macro', ' ttl \\1', ' opt \\1', ' page', ' endm', ' m'], ['m macro', ' export \\1', ' endm', 'foo equ 5', ' m "foo"'],
    [' if 0', 'm macro', ' nop', ' endif', ' endm'], [' if 0', 'm macro', ' nop', ' endm', ' endif', ' nop'], [' if 1', 'm macro', ' nop', ' endm', ' else', 'm macro', ' rts', ' endm', ' endif', ' m'],
    [' if 0', 'm macro', ' nop', ' endm', ' else', 'm macro', ' rts', ' endm', ' endif', ' m'], ['m macro', ' nop', ' endm "m"', ' m'], ['m macro', ' nop', ' endm "z"', ' m'], ['m macro', ' nop', ' endm m', ' m'], ['m macro', ' nop', ' endm 5'],
    ['m macro \\1', ' nop', ' endm', ' m'], ['m macro 1,2', ' nop', ' endm', ' m'], ['m macro', ' fcb 1,@', ' endm', ' nop'], ['m macro', ' fcb 1,@', ' endm', ' m'], [' \\1'], [' fcb \\1'], ['l\\1 nop'], [' fcc "\\1"'], [' fcc "&1"'], [' fcb &{1}'],
    ['m macro', ' \\1', ' endm', ' m'], ['m macro', ' \\1', ' endm', ' m "nop"', ' m "bad"', ' m nop'], ['m macro', ' \\1 \\2', ' endm', ' m "lda",#5'], ['m macro', ' \\1', ' endm', ' m 5'],
    ['m macro', ' if \\1', ' ld\\2 #1', ' endif', ' nop', ' endm', ' m 0'], ['m macro', ' if \\1', ' ld\\2 #1', ' endif', ' nop', ' endm', ' m 1'], ['m macro', ' if \\1', ' fcb \\2', 'l\\2', ' endif', ' nop', ' endm', ' m 0'],
    ['m macro', '', '', ' nop', '', ' endm', ' m'], ['m macro', ' m2 \\2,\\1', ' endm', 'm2 macro', ' fcb \\1,\\2', ' endm', ' m 3,4'], ['m macro', ' m2 \\1', ' fcb \\1', ' endm', 'm2 macro', ' fcb \\1+1', ' endm', ' m 3'],
    ['m macro', ' m2', ' endm', 'm2 macro', ' fcb \\1', ' endm', ' m 3'], ['m macro', ' fcb \\1', ' endm', ' m ,', ' m ,1', ' m 1,,2'], ['m macro', ' fdb \\1', ' endm', ' m later', 'later equ 9'], ['m macro', ' fdb \\1', ' endm', ' m nowhere'], ['m macro', ' nop', ' endm', ' m nowhere'],
] + [['m macro', ' fcb %s' % v, ' endm', ' m 5,6,7'] for v in ('\\{4294967297}', '&{4294967297}', '\\{18446744073709551617}', '\\{65537}', '\\{257}', '\\{00000000001}', '\\{0000}', '&{003}', '\\{4}', '&{4}', '\\{99999999999999999999999}', '"&{4294967298}"', 'q\\{4294967297}')]

# a variable in every position: (body with @ for argument 1 and ~ for 2, arguments, the same written out)
POSITIONS = [
    (['@ equ 5'], '"one"', ['one equ 5']), (['@_b equ 6'], '"one"', ['one_b equ 6']), (['p@ equ 7'], '"one"', ['pone equ 7']), (['p@q.r equ 8'], '"One"', ['pOneq.r equ 8']),
    (['@~ equ 9'], '"on","e2"', ['one2 equ 9']), (['@_~_ equ 9'], '"on",12', ['on_12_ equ 9']), (['p@~@ equ 9'], '1,2', ['p121 equ 9']), (['@.5 nop', ' fdb z1.5'], '"z1"', ['z1.5 nop', ' fdb z1.5']),
    (['@0 nop', ' fdb z10'], '"z1"', ['z10 nop', ' fdb z10']), (['@'], '"one"', ['one']), (['p@'], '"one"', ['pone']), (['@ set 3', '@_ set 4', ' fcb one,one_'], '"one"', ['one set 3', 'one_ set 4', ' fcb one,one_']),
    ([' @'], '"nop"', [' nop']), ([' @ #5'], '"lda"', [' lda #5']), ([' l@ #5'], '"da"', [' lda #5']), ([' ld@ #5'], '"x"', [' ldx #5']), ([' ld@ #5'], 'x', [' ldx #5']),
    ([' @b ,~'], '"ld",x', [' ldb ,x']), ([' l@b ,y'], '"d"', [' ldb ,y']), ([' @~ 5'], '"ad","da"', [' adda 5']), ([' swi@'], '2', [' swi2']), ([' @'], '"fdb"', [' fdb']), ([' f@b 1,2'], '"d"', [' fdb 1,2']),
    ([' cl@', ' @ts'], '"r"', [' clr', ' rts']), (['l@ ld@ #5', ' ld~ l@'], '"a","b"', ['la lda #5', ' ldb la']), (['@ ~ #7'], '"lab","ldu"', ['lab ldu #7']), ([' tf@ a,b'], '"r"', [' tfr a,b']),
    ([' b@ *'], '"ra"', [' bra *']), ([' lb@ *'], '"eq"', [' lbeq *']), ([' inne@ 3'], '"r"', [' inner 3']), (['@ macro', ' nop', ' endm', ' one'], '"one"', ['one macro', ' nop', ' endm', ' one']),
    (['x@ macro', ' fcb ~', ' endm', ' xone 9'], '"one",4', None), ([' i@ 1', ' fcb 1', ' endif'], '"f"', None), ([' @cb 1'], '"f"', [' fcb 1']),
]
POSITION_ARGS = [       # in operands, where &n is an operator
    ([' fcb @'], '5', [' fcb 5']), ([' fcb @,~,@'], '5,6', [' fcb 5,6,5']), ([' fdb p@'], '"1"', [' fdb p1']), ([' fdb @1'], '"p"', [' fdb p1']), ([' fdb p@_'], '1', [' fdb p1_']), ([' fdb @~'], '"p",1', [' fdb p1']),
    ([' fdb p@~@'], '"_",1', [' fdb p_1_']), ([' fdb @p+@q'], '"z"', [' fdb zp+zq']), ([' lda @,x'], '5', [' lda 5,x']), ([' lda ,@'], 'y', [' lda ,y']), ([' lda [@,~]'], '5,u', [' lda [5,u]']), ([' pshs @,~'], 'a,x', [' pshs a,x']),
    ([' ldx #@+~'], '3,4', [' ldx #3+4']), ([' fdb @*~'], '3+1,4', [' fdb (3+1)*4']), ([' fdb @-~'], '9,3-1', [' fdb 9-(3-1)']), ([' fcb @&$0f'], '$35', [' fcb $35&$0f']), ([' fcb (@)'], '3', [' fcb 3']), ([' bra @'], 'near', [' bra near']),
    ([' fdb p1.@'], '"a"', [' fdb p1.a']), ([' fcb @?~:3'], '0,2', [' fcb 3']), ([' fcb ~-@'], '3,7', [' fcb 7-3']), ([' rmb @', ' fcb 1'], '3', [' rmb 3', ' fcb 1']),
]
POSITION_STRINGS = [
    ([' fcc "@"'], '"ab"', [' fcc "ab"']), ([' fcc "x@"'], '"ab"', [' fcc "xab"']), ([' fcc "@x"'], '"ab"', [' fcc "abx"']), ([' fcc "x@y~z@"'], '"ab",7', [' fcc "xaby7zab"']), ([' fcc /@~/'], '12,34', [' fcc /1234/']),
    ([' fcc "@5"'], '1', [' fcc "15"']), ([' fcc "@","~"'], '"a","b"', [' fcc "a","b"']), ([' fcn "@"'], '-5', [' fcn "-5"']), ([' fcs "@ @"'], '"q"', [' fcs "q q"']), ([' fcc "(@)"'], 'x', [' fcc "(x)"']), ([' fci "@"'], '"A"', [' fci "A"']),
]


def positions():
    """(body, arguments, written out) for every way to write a variable"""
    out = []
    for forms, rows in ((['\\%d', '\\{%d}', '&{%d}', '&{0%d}'], POSITIONS),
                        (['\\%d', '\\{%d}', '&{%d}', '\\{00%d}'], POSITION_ARGS),
                        (['\\%d', '&%d', '\\{%d}', '&{%d}'], POSITION_STRINGS)):
        for fa, fb in itertools.product(forms, repeat=2):
            for body, args, plain in rows:
                if plain is None:
                    continue
                if '~' not in ''.join(body) and fb != fa:
                    continue
                out.append(([l.replace('@', fa % 1).replace('~', fb % 2) for l in body], args, plain))
                if fa == fb:
                    # as arguments 9 and, where the form allows it, 10 and beyond
                    for k in ((8,) if '{' not in fa else (8, 9, 11, 120)):
                        if '~' in ''.join(body) and k == 8 and '{' not in fa:
                            k = 7
                        out.append(([l.replace('@', fa % (1 + k)).replace('~', fb % (2 + k)) for l in body], ','.join(str(j + 40) for j in range(k)) + ',' + args, plain))
    return out


def positions_job(exe):
    head = ['inner macro', ' fcb 77,\\1', ' endm', 'near equ $1010', ' org $1000']
    tail = ['p1 equ $1234', 'p1_ equ $2345', 'p_1_ equ $3456', 'zp equ 3', 'zq equ 4', 'p1.a equ $789a']

    def f(row):
        body, args, plain = row
        case = Case(head + ['mac macro'] + body + [' endm', ' fcb 1', ' mac ' + args, ' fcb 2'] + tail)
        eq = Case(head + [' fcb 1'] + plain + [' fcb 2'] + tail)
        run = core.run_tool(exe, case.files, case.args(('out', 'sym')), ('out', 'sym'))
        ref = core.run_tool(exe, eq.files, eq.args(('out', 'sym')), ('out', 'sym'))
        out = {'verdict': 'ok', 'why': '', 'digest': case.digest(), 'extra': {'positions': 1}}
        if run.rc not in (0, 1):
            out.update(verdict='bad', kind='crash', why='exit status %s' % run.rc, case=case)
        elif ref.rc:
            if run.rc == 0:
                out.update(verdict='bad', kind='status', why='accepted, though refused when written out', case=case)
            out['extra']['positions refused either way'] = 1
        elif run.rc:
            out.update(verdict='bad', kind='status', why='rejected, though accepted when written out: %s' % run.err[:200], case=case)
        elif run.files['out'] != ref.files['out'] or core.parse_symbols(run.files['sym'])[0] != core.parse_symbols(ref.files['sym'])[0]:
            out.update(verdict='bad', kind='expansion', why='differs from the same written out', case=case)
        return out
    return f


def run(ctx):
    ctx.rule = RULE
    exe = build.build('plain')
    base = '%s/%d/' % (ctx.prop, ctx.seed)
    for i in range(3):
        ctx.sample(make(base + str(i))[0].files['main.s'].decode('latin-1')[:500])
    drive(ctx, job(exe), [base + str(i) for i in range(ctx.n(2000, 50000))], 'expand')
    cases = [Case(s) for s in SMALL] + [Case(s, isa6309=True) for s in SMALL]
    cases += [Case(files={'main.s': ('\n'.join(s) + '\n').encode(), 'b.s': b' nop\n m 1,2\n'}, mains=['main.s', 'b.s']) for s in SMALL]
    cases += [Case(files={'i.s': ('\n'.join(s) + '\n').encode(), 'main.s': b' nop\n include "i.s"\n'}) for s in SMALL]
    core.campaign(ctx, exe, cases, ('status', 'image', 'symbols', 'listing', 'diag'), 'small')
    # nesting around the limit, by every mix of macros and files
    r = ctx.rng
    drive(ctx, positions_job(exe), positions(), 'positions')
    cases = []
    for n in range(1, 12):
        for mix in range(6):
            files = {}
            defs = []
            how = [r.choice('mi') if mix > 1 else 'mi'[mix] for _ in range(n)]
            call = [' mac%d \\1' % (i + 1) if h == 'm' else ' include "f%d.s"' % (i + 1) for i, h in enumerate(how)]
            for i, h in enumerate(how):
                body = [' fcb %d' % i] + ([call[i + 1].replace(' \\1', '' if h == 'i' else ' \\1')] if i + 1 < n else []) + [' fcb %d' % (100 + i)]
                if i + 1 < n and how[i + 1] == 'm':
                    body[1] = ' mac%d 5' % (i + 2)
                if h == 'm':
                    defs += ['mac%d macro' % (i + 1)] + body + [' endm']
                else:
                    files['f%d.s' % (i + 1)] = ('\n'.join(body) + '\n').encode()
            files['main.s'] = ('\n'.join(defs + [call[0].replace('\\1', '5')]) + '\n').encode()
            cases.append(Case(files=files))
    core.campaign(ctx, exe, cases, ('status', 'image', 'listing', 'diag'), 'nesting')
    core.campaign(ctx, exe, scale.pastes(), ('status', 'image', 'symbols', 'diag', 'exec'), 'pastes')
    core.campaign(ctx, exe, scale.depths('m'), ('status', 'image', 'symbols', 'listing'), 'depths')
    core.campaign(ctx, exe, scale.macros(), ('status', 'image', 'symbols', 'listing'), 'large')
    core.campaign(ctx, exe, core.randoms(ctx, ctx.n(800, 15000), weights={'macrodef': 25, 'macrouse': 40, 'if': 6, 'instr': 12}),
                  ('status', 'image', 'symbols'), 'random')
