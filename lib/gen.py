"""Random programs.  The generator only has to make programs that are mostly
correct and use the language's features together in many combinations; what
they should assemble to is the model's business."""
import random

from . import isa as ISA

WEIGHTS = {
    'instr': 30, 'data': 10, 'label': 8, 'equ': 5, 'set': 3, 'org': 2, 'put': 1, 'rmb': 3, 'align': 2,
    'section': 2, 'setdp': 1, 'if': 3, 'macrodef': 2, 'macrouse': 4, 'include': 1, 'includebin': 1,
    'local': 5, 'comment': 3, 'blank': 2, 'export': 1, 'end': 0, 'bang': 1, 'error': 0, 'noop': 1,
}


class Gen:
    def __init__(self, rng, isa6309=False, weights=None, size=40, errors=0.0, style=1, unstable=0.03,
                 floats=True, nonascii=False, deep=False):
        self.r = rng
        self.is6309 = isa6309
        self.ops = ISA.OPS_6309 if isa6309 else ISA.OPS_6809
        self.byk = {}
        for k, v in self.ops.items():
            self.byk.setdefault(v['k'], []).append(k)
        for k in self.byk:
            self.byk[k].sort()
        self.w = dict(WEIGHTS)
        self.w.update(weights or {})
        self.size = size
        self.errors = errors
        self.style = style
        self.unstable = unstable
        self.floats = floats
        self.nonascii = nonascii
        self.files = {}
        self.n = 0
        self.labels = []          # defined so far (addresses)
        self.consts = []          # defined so far, EQU of numbers
        self.strs = []            # EQU of strings
        self.regs = []            # EQU of registers
        self.sets = []
        self.fwd = []             # promised labels, to be defined later
        self.macros = []          # (name, kinds of args)
        self.depth = 0
        self.inmacro = None       # kinds of positional arguments available
        self.nextorg = 0
        self.section = 'CODE'
        self.sections = {'CODE'}
        self.in_if = 0
        self.parts = []
        self.features = set()

    # small pieces -----------------------------------------------------------
    def name(self, p='L'):
        self.n += 1
        k = self.r.random()
        if k < 0.8:
            return '%s%d' % (p, self.n)
        if k < 0.9:
            return '_%s.%d' % (p.lower(), self.n)
        return '%s_longer_name%d' % (p, self.n)

    def case(self, s):
        if not self.style:
            return s
        k = self.r.random()
        if k < 0.6:
            return s
        if k < 0.85:
            return s.upper()
        return ''.join(c.upper() if self.r.random() < 0.5 else c for c in s)

    def num(self, v):
        """A literal with value v >= 0."""
        k = self.r.randrange(9)
        if k == 0:
            return '$%x' % v
        if k == 1:
            return '0x%X' % v
        if k == 2 and v < 1 << 16:
            return '%' + bin(v)[2:]
        if k == 3 and v < 1 << 16:
            return '0b' + bin(v)[2:]
        if k == 4:
            return '@%o' % v
        if k == 5 and v:
            return '0%o' % v
        if k == 6 and 33 <= v < 127 and chr(v) not in ';"/\\&':
            return "'%s" % chr(v) + ("'" if self.r.random() < 0.5 else '')
        return '%d' % v

    def lit(self, lo=-300, hi=70000):
        r = self.r
        v = r.choice([r.randrange(0, 16), r.randrange(0, 256), r.randrange(0, 65536),
                      r.choice([0, 1, 15, 16, 127, 128, 129, 255, 256, 0x7fff, 0x8000, 0xffff])])
        if r.random() < 0.25:
            v = -v
        v = max(lo, min(hi, v))
        return ('-' + self.num(-v)) if v < 0 else self.num(v)

    def symref(self, fwd_ok=True):
        r = self.r
        k = r.random()
        if self.inmacro and k < 0.35:
            i = [j for j, t in enumerate(self.inmacro) if t == 'int']
            if i:
                return self.pos(r.choice(i) + 1)
        c = []
        if self.labels:
            c += [('l', 4)]
        if self.consts:
            c += [('c', 4)]
        if self.sets:
            c += [('s', 2)]
        if fwd_ok:
            c += [('f', 2)]
        if not c:
            return self.lit(0)
        t = r.choices([x for x, _ in c], [w for _, w in c])[0]
        if t == 'l':
            return r.choice(self.labels)
        if t == 'c':
            return r.choice(self.consts)
        if t == 's':
            return r.choice(self.sets)
        if self.fwd and r.random() < 0.6:
            return r.choice(self.fwd)
        n = self.name('F')
        self.fwd.append(n)
        return n

    def pos(self, i):
        k = self.r.randrange(3)
        if k == 0 and i < 10:
            return '\\%d' % i
        if k == 1:
            return '\\{%d}' % i
        return '&{%d}' % i

    def expr(self, depth=None, fwd_ok=True, pc=True):
        r = self.r
        if depth is None:
            depth = r.choice([0, 0, 0, 0, 1, 1, 2])
        if depth <= 0:
            k = r.random()
            if k < 0.5:
                return self.lit(0)
            if k < 0.9:
                return self.symref(fwd_ok)
            if k < 0.94 and pc:
                return '*'
            if k < 0.96 and self.floats:
                return r.choice(['1.5', '.25', '3.', '100.75'])
            if k < 0.98:
                return r.choice(['"A"', '/ab/', '"xyz"'])
            return self.lit(0)
        k = r.random()
        if k < 0.12:
            return r.choice(['-', '~', '+', '!']) + self.par(depth - 1, fwd_ok, pc)
        if k < 0.17:
            return '%s?%s:%s' % (self.par(depth - 1, fwd_ok, pc), self.par(depth - 1, fwd_ok, pc),
                                 self.par(depth - 1, fwd_ok, pc))
        ops = ['+', '-', '*', '+', '-', '&', '|', '^', '<<', '>>', '<', '<=', '>', '>=', '==', '!=', '&&', '||']
        op = r.choice(ops)
        a = self.expr(depth - 1, fwd_ok, pc)
        if op in ('<<', '>>'):
            b = str(r.randrange(0, 20))
        else:
            b = self.expr(depth - 1, fwd_ok, pc)
        if r.random() < 0.06:
            op = '/' if self.floats else '+'
            b = self.num(r.randrange(1, 300))
        elif r.random() < 0.05:
            op = ' % '
            b = '%d' % r.randrange(2, 300)
        e = '%s%s%s' % (a, op, b)
        if op.strip() in ('&', '*', '+', '-') and b.startswith(('&', '+', '-', '*')):
            e = '%s%s(%s)' % (a, op, b)
        return '(%s)' % e if r.random() < 0.35 else e

    def par(self, depth, fwd_ok, pc):
        e = self.expr(depth, fwd_ok, pc)
        return '(%s)' % e if depth > 0 or e[0] in '-+~!*' else e

    def string(self, delim=None, maxlen=12):
        r = self.r
        d = delim or r.choice('"/')
        out = ''
        for _ in range(r.randrange(1, maxlen)):
            k = r.random()
            if k < 0.04:
                out += '\\n'
            elif k < 0.06:
                out += '\\' + r.choice('"/\\')
            elif k < 0.08:
                out += '"' if d == '/' else '/'
            elif k < 0.09 and not self.inmacro:
                out += '&&'
            elif k < 0.12 and self.inmacro:
                i = r.randrange(len(self.inmacro)) + 1
                if self.inmacro[i - 1] in ('int', 'str', 'name'):
                    out += r.choice(['&%d', '&{%d}', '\\{%d}'][(1 if i > 9 else 0):]) % i
            elif self.nonascii and k < 0.2:
                out += chr(r.randrange(0xa0, 0x100))
            else:
                c = chr(r.choice([r.randrange(0x20, 0x7f), r.randrange(0x41, 0x5b), r.randrange(0x61, 0x7b)]))
                if c in '"/\\&':
                    c = 'k'
                out += c
        return d + (out or 'z') + d

    # operands ---------------------------------------------------------------
    def indexed(self):
        r = self.r
        regs = ['x', 'y', 'u', 's']
        k = r.random()
        reg = self.case(r.choice(regs))
        if self.is6309 and r.random() < 0.15:
            o = r.choice([',w', ',w++', ',--w', '%s,w' % self.off(), '>%s,w' % self.off()])
        elif k < 0.15:
            o = ',' + reg
        elif k < 0.5:
            o = '%s,%s' % (self.off(), reg)
        elif k < 0.62:
            acc = ['a', 'b', 'd'] + (['e', 'f', 'w'] if self.is6309 else [])
            o = '%s,%s' % (self.case(r.choice(acc)), reg)
        elif k < 0.75:
            o = r.choice([',%s+', ',%s++', ',-%s', ',--%s']) % reg
            if r.random() < 0.1 and '+' in o:
                o = '0' + o
        elif k < 0.93:
            t = self.symref() if r.random() < 0.7 else '*+%d' % r.randrange(0, 200)
            o = '%s,%s' % (t, self.case('pcr'))
            if r.random() < 0.15:
                o = r.choice('<>') + o if False else ('>' + o)
        else:
            o = '%s,%s' % (self.off(), self.case('pc'))
        if r.random() < 0.25:
            if '+' in o[-2:] and not o.endswith('++') or (o[-2:-1] == '-' and o[-3:-2] != '-'):
                if r.random() < 0.8:
                    return o
            if o.startswith('<<'):
                o = o[2:]
            return '[%s]' % o
        return o

    def off(self):
        r = self.r
        v = r.choice([0, 1, -1, 15, 16, -16, -17, 127, 128, -128, -129, 255, 256, 32767, -32768,
                      r.randrange(-20, 20), r.randrange(-140, 140), r.randrange(-40000, 70000)])
        k = r.random()
        if k < 0.6:
            s = self.num(v) if v >= 0 else '-' + self.num(-v)
        else:
            s = self.expr(r.choice([0, 0, 1]))
            if s[0] in '-+':
                s = '(%s)' % s
            return s
        k = r.random()
        if k < 0.06 and -16 <= v <= 15:
            return '<<' + s
        if k < 0.12:
            return '<' + s
        if k < 0.18:
            return '>' + s
        return s

    def address(self):
        r = self.r
        k = r.random()
        if k < 0.1:
            return '<' + self.expr(r.choice([0, 1]))
        if k < 0.2:
            return '>' + self.expr(r.choice([0, 1]))
        e = self.expr()
        return e

    def near(self):
        """Target for a short branch."""
        r = self.r
        k = r.random()
        if k < 0.5:
            return '*+%d' % r.randrange(-120, 120) if r.random() < 0.97 else '*+%d' % r.randrange(-300, 300)
        if k < 0.8 and self.labels and self.recent > 0:
            return self.labels[-1]
        return '*%+d' % r.randrange(-100, 100)

    def instr(self):
        r = self.r
        kinds = list(self.byk)
        wt = {'inh': 6, 'imm': 1, 'mem': 30, 'immmem': 4, 'rel8': 5, 'rel16': 4, 'stack': 3, 'pair': 3,
              'tfm': 1, 'bit': 2}
        k = r.choices(kinds, [wt[x] for x in kinds])[0]
        op = r.choice(self.byk[k])
        o = self.ops[op]
        if k == 'inh':
            a = ''
        elif k == 'imm':
            a = '#' + self.expr()
        elif k in ('mem', 'immmem'):
            if 'imm' in o and r.random() < 0.35:
                a = '#' + self.expr()
            else:
                c = r.random()
                if 'dir' not in o and 'ext' not in o:
                    a = self.indexed() if c < 0.95 else '[%s]' % self.symref()
                elif c < 0.5:
                    a = self.indexed()
                elif c < 0.56:
                    a = '[%s]' % self.expr(r.choice([0, 1]))
                else:
                    a = self.address()
                if k == 'immmem':
                    a = '#' * (r.random() < 0.9) + self.expr(0) + ',' + a
        elif k == 'rel8':
            a = self.near()
        elif k == 'rel16':
            a = self.symref() if r.random() < 0.7 else self.expr()
            if r.random() < 0.1:
                a = '>' + a
        elif k == 'stack':
            regs = ['cc', 'a', 'b', 'd', 'dp', 'x', 'y', 'pc', 'u' if o['own'] == 's' else 's']
            c = r.sample(regs, r.randrange(1, 6))
            a = ','.join(self.case(x) for x in c)
        elif k == 'pair':
            r16 = ['d', 'x', 'y', 'u', 's', 'pc'] + (['w', 'v'] if self.is6309 else [])
            r8 = ['a', 'b', 'cc', 'dp'] + (['e', 'f'] if self.is6309 else [])
            s = r.choice([r16, r8])
            a = '%s,%s' % (self.case(r.choice(s)), self.case(r.choice(s if r.random() < 0.9 else r8)))
            if self.is6309 and r.random() < 0.05:
                a = '0,' + r.choice(r8)
        elif k == 'tfm':
            q = ['x', 'y', 'u', 's', 'd']
            f = r.choice(['%s+,%s+', '%s-,%s-', '%s+,%s', '%s,%s+'])
            a = f % (r.choice(q), r.choice(q))
        elif k == 'bit':
            a = '%s,%d,%d,%s' % (r.choice(['a', 'b', 'cc']), r.randrange(8), r.randrange(8), self.lit(0))
        return self.case(op), a

    def data(self):
        r = self.r
        d = r.choice(['fcb', 'fcc', 'fcn', 'fcs', 'fcv', 'fci', 'fdb', 'fqb', 'fill', 'rzb', 'zmb', 'bsz',
                      'fzb', 'fcb', 'fdb', 'fcc'])
        if d in ('fcb', 'fcc', 'fcn', 'fcs', 'fcv', 'fci'):
            a = []
            for _ in range(r.choice([1, 1, 2, 3, r.randrange(1, 10)])):
                a.append(self.string() if r.random() < (0.15 if d == 'fcb' else 0.7) else self.expr())
        elif d in ('fdb', 'fqb'):
            a = [self.expr() for _ in range(r.choice([1, 1, 2, 4, r.randrange(1, 20)]))]
        elif d == 'fill':
            a = [self.expr(0), str(r.choice([0, 1, 2, 5, 31, 32, 33, 100, 127, 128, 129, r.randrange(300)]))]
        else:
            a = [str(r.choice([0, 1, 3, 32, 127, 128, 129, r.randrange(200)]))]
            if r.random() < 0.4:
                a.append(self.expr(0))
        # an argument whose first character could start a string is fine; one
        # that begins with a unary sign after a comma is too
        return self.case(d), ','.join(a)

    # lines ------------------------------------------------------------------
    def line(self, label, op, arg):
        r = self.r
        self.recent = getattr(self, 'recent', 0) - 1
        if not self.style:
            s = '%s\t%s' % (label or '', op)
            if arg:
                s += '\t' + arg
            return s
        sp = lambda: r.choice([' ', ' ', '\t', '  ', '\t\t', ' \t ', '        '])
        s = label or ''
        if op:
            s += sp() + op
            if arg:
                s += sp() + arg
        if r.random() < 0.08 and s.strip():
            s += r.choice([' ; comment', '\t;c "x', ' ;', '; see below'])
        elif r.random() < 0.04 and op:
            s += r.choice([' ', '\t', '   '])
        return s

    def maybe_label(self):
        r = self.r
        if r.random() < 0.15:
            if self.fwd and r.random() < 0.6 and not self.inmacro and not self.in_if:
                n = self.fwd.pop(r.randrange(len(self.fwd)))
            elif self.inmacro or self.in_if:
                return None
            else:
                n = self.name('L')
            self.labels.append(n)
            self.recent = 12
            return n
        return None

    def block(self, n, out):
        for _ in range(n):
            self.item(out)

    def item(self, out):
        r = self.r
        kinds = list(self.w)
        k = r.choices(kinds, [self.w[x] for x in kinds])[0]
        getattr(self, 'do_' + k)(out)

    def do_instr(self, out):
        lab = self.maybe_label()
        op, a = self.instr()
        out.append(self.line(lab, op, a))

    def do_data(self, out):
        lab = self.maybe_label()
        op, a = self.data()
        out.append(self.line(lab, op, a))
        self.features.add(op.lower())

    def do_label(self, out):
        if self.inmacro or self.in_if:
            return self.do_instr(out)
        n = self.fwd.pop(0) if self.fwd and self.r.random() < 0.7 else self.name('L')
        out.append(self.line(n, None, None))
        self.labels.append(n)
        self.recent = 12

    def do_local(self, out):
        r = self.r
        n = r.choice([0, 1, 1, 2, 3, 10, 99])
        k = r.random()
        if k < 0.45:
            op, a = self.instr() if r.random() < 0.6 else ('', '')
            out.append(self.line(str(n), op, a))
        elif k < 0.8:
            # reference and definition close together
            op = r.choice(['bra', 'bne', 'lbra', 'fdb', 'leax', 'jmp'])
            suf = ',pcr' if op == 'leax' else ''
            ln = [self.line(str(n), '', ''), self.line(None, op, '%d%s%s' % (n, self.case('b'), suf))]
            if r.random() < 0.5:
                ln = [self.line(None, op, '%d%s%s' % (n, self.case('f'), suf)), self.line(str(n), 'nop', '')]
            for l in ln:
                out.append(l)
                if r.random() < 0.3:
                    self.do_instr(out)
        else:
            out.append(self.line(str(n), 'fdb', '%db,%df' % (n, n)))
            out.append(self.line(str(n), '', ''))
        self.features.add('local')

    def do_bang(self, out):
        r = self.r
        if r.random() < 0.5:
            out += ['!', ' fdb <' if False else '\tlbra\t<']
        else:
            out += ['\tlbra\t>', '!\tnop']

    def do_equ(self, out):
        if self.inmacro or self.in_if:
            return self.do_instr(out)
        r = self.r
        n = self.name('K')
        k = r.random()
        if k < 0.1:
            out.append(self.line(n, self.case('equ'), self.string()))
            self.strs.append(n)
        elif k < 0.15:
            out.append(self.line(n, self.case('equ'), r.choice(['a', 'b', 'x', 'y', 'u', 's', 'd', 'cc', 'dp', 'pcr'])))
            self.regs.append(n)
        elif k < 0.2 and self.floats:
            out.append(self.line(n, 'equ', r.choice(['1.5', '2.25*4', '7/2', '1/3', '100.', '-0.125'])))
            self.consts.append(n)
        else:
            out.append(self.line(n, self.case('equ'), self.expr()))
            self.consts.append(n)
        self.features.add('equ')

    def do_set(self, out):
        r = self.r
        if self.sets and r.random() < 0.6:
            n = r.choice(self.sets)
            e = r.choice(['%s+1' % n, self.expr(fwd_ok=False), '%s*2' % n]) if not self.in_if else self.lit(0)
        else:
            n = self.name('S')
            self.sets.append(n) if not (self.inmacro or self.in_if) else None
            e = self.expr(fwd_ok=False)
        if self.inmacro or self.in_if:
            return self.do_instr(out)
        out.append(self.line(n, self.case('set'), e))

    def do_org(self, out):
        r = self.r
        if self.inmacro or self.in_if or self.depth:
            return self.do_instr(out)
        self.nextorg += r.choice([0x100, 0x200, 0x333, 0x1000, 0x1800])
        if self.nextorg > 0xf800:
            return self.do_instr(out)
        lab = self.maybe_label()
        out.append(self.line(lab, self.case('org'), self.num(self.nextorg)))
        if r.random() < 0.1:
            out.append(self.line(None, 'put', self.num(self.nextorg)))
        self.features.add('org')

    def do_put(self, out):
        r = self.r
        if self.inmacro or self.in_if or self.depth:
            return self.do_instr(out)
        self.nextorg += 0x400
        if self.nextorg > 0xf800:
            return
        out.append(self.line(None, self.case('put'), self.num(self.nextorg)))
        self.features.add('put')

    def do_rmb(self, out):
        out.append(self.line(self.maybe_label(), self.case('rmb'), str(self.r.choice([0, 1, 2, 16, 100, self.r.randrange(50)]))))
        self.features.add('rmb')

    def do_align(self, out):
        r = self.r
        a = str(r.choice([1, 2, 4, 8, 16, 32, 3, 10]))
        if r.random() < 0.6:
            a += ',' + r.choice(['$ff', '0', '18', '-1'])
        out.append(self.line(self.maybe_label(), self.case('align'), a))
        self.features.add('align')

    def do_section(self, out):
        r = self.r
        if self.inmacro or self.in_if:
            return self.do_instr(out)
        k = r.random()
        if k < 0.5:
            s = r.choice(['"CODE"', '"one"', '"two"', '/three/'])
            out.append(self.line(self.maybe_label(), self.case('section'), s))
            key = s[1:-1]
        else:
            s = r.choice(['code', 'data', 'bss', 'ram', 'auto', 'CODE', 'DATA'])
            out.append(self.line(self.maybe_label(), s, ''))
            key = s
        if key not in self.sections:
            self.sections.add(key)
            if r.random() < 0.85:
                self.nextorg += 0x800
                if self.nextorg < 0xf800:
                    out.append(self.line(None, 'org', self.num(self.nextorg)))
        self.features.add('section')

    def do_setdp(self, out):
        out.append(self.line(None, self.case('setdp'), self.r.choice(['0', '$12', '-1', '$ff', '1', '$f0', '256'])))
        self.features.add('setdp')

    def do_if(self, out):
        r = self.r
        if self.depth > 3:
            return self.do_instr(out)
        self.depth += 1
        self.in_if += 1
        cond = lambda: r.choice(['0', '1', self.expr(fwd_ok=False, pc=False), '%s' % self.lit(), 'undefined_sym'])
        out.append(self.line(None, self.case('if'), cond()))
        self.block(r.randrange(0, 4), out)
        for _ in range(r.choice([0, 0, 1, 2])):
            out.append(self.line(None, self.case('elsif'), cond()))
            self.block(r.randrange(0, 3), out)
        if r.random() < 0.5:
            out.append(self.line(None, self.case('else'), ''))
            self.block(r.randrange(0, 3), out)
        out.append(self.line(None, self.case('endif'), ''))
        self.depth -= 1
        self.in_if -= 1
        self.features.add('if')

    def do_macrodef(self, out):
        r = self.r
        if self.inmacro or self.in_if or self.depth or len(self.macros) > 8:
            return self.do_instr(out)
        n = self.name('M')
        kinds = [r.choice(['int', 'int', 'int', 'str', 'name', 'reg', 'op', 'opsfx', 'part']) for _ in range(r.choice([0, 1, 1, 2, 3, 11]))]
        body = []
        self.inmacro = kinds
        self.depth += 2
        save = (self.labels, self.fwd, self.recent if hasattr(self, 'recent') else 0)
        self.labels = list(self.labels)
        self.block(r.randrange(1, 6), body)
        for i, t in enumerate(kinds):
            p = self.pos(i + 1)
            if r.random() < 0.7:
                if t == 'int':
                    body.append(self.line(None, r.choice(['fdb', 'fqb', 'fcb']), r.choice([p, p + '+1', '1,' + p])))
                elif t == 'str':
                    body.append(self.line(None, 'fcc', p))
                elif t == 'reg':
                    body.append(self.line(None, 'leax', '1,' + p))
                elif t == 'op':
                    body.append(self.line(None, self.pos(i + 1), ''))
                elif t == 'opsfx':
                    body.append(self.line(None, 'ld%s' % self.pos(i + 1), r.choice(['#5', '$1234', ',x'])))
                elif t == 'part':
                    # names built around one that would be a register's
                    k = r.choice(['a', 'x', 'S', 'pc', 'D', 'cc', 'b'])
                    body.append(self.line(None, 'fdb', '%s%s,%s%s' % (k, p, p, k)))
                    body.append(self.line(None, 'b%s' % self.pos(i + 1), '*'))
                    for n2 in (k + '@', '@' + k):
                        if n2 not in self.parts:
                            self.parts.append(n2)
                elif t == 'name':
                    body.append(self.line(None, 'fdb', 'pfx_%s' % (self.pos(i + 1))))
                    body.append(self.line(None, 'fdb', '%s_sfx' % (self.pos(i + 1))))
        self.inmacro = None
        self.depth -= 2
        self.labels = save[0]
        out.append(self.line(n, self.case('macro'), ''))
        out += body
        out.append(self.line(None, self.case('endm'), '' if r.random() < 0.8 else '"%s"' % n))
        self.macros.append((n, kinds))
        self.features.add('macro')

    def do_macrouse(self, out):
        r = self.r
        m = [x for x in self.macros]
        if not m or self.in_if and False:
            return self.do_macrodef(out) if not (self.inmacro or self.in_if or self.depth) else self.do_instr(out)
        if self.inmacro is not None and r.random() < 0.5:
            return self.do_instr(out)
        n, kinds = r.choice(m)
        a = []
        for t in kinds:
            if t == 'int':
                a.append(self.expr())
            elif t == 'str':
                a.append(self.string())
            elif t == 'op':
                a.append('"%s"' % r.choice(['nop', 'clra', 'ABX', 'Rts', 'no', 'swi2']))
            elif t == 'opsfx':
                a.append('"%s"' % r.choice(['a', 'B', 'd', 'X', 'y', 'u', 's', 'q' if self.is6309 else 's']))
            elif t == 'reg':
                a.append(r.choice(['x', 'y', 'u', 's']))
            elif t == 'part':
                a.append('"%s"' % r.choice(['ra', 'NE', 'eq', 'rn', 'mi']))
            else:
                k = self.name('n')
                if not hasattr(self, 'pasted'):
                    self.pasted = []
                self.pasted.append(k)
                a.append('"%s"' % k)
        out.append(self.line(None, n, ','.join(a)))
        self.features.add('macrouse')

    def do_include(self, out):
        r = self.r
        if self.inmacro or self.in_if or self.depth or len(self.files) > 6:
            return self.do_instr(out)
        f = 'inc%d.s' % len(self.files)
        self.files[f] = b''
        body = []
        self.depth += 1
        self.block(r.randrange(0, 6), body)
        self.depth -= 1
        self.files[f] = ('\n'.join(body) + ('\n' if r.random() < 0.8 and body else '')).encode('latin-1')
        out.append(self.line(None, self.case(r.choice(['include', 'include', 'lib'])), '"%s"' % f))
        self.features.add('include')

    def do_includebin(self, out):
        r = self.r
        f = 'bin%d' % r.randrange(4)
        if f not in self.files:
            n = r.choice([0, 1, 5, 31, 32, 33, 127, 128, 129, 300])
            self.files[f] = bytes(r.randrange(256) for _ in range(n))
        out.append(self.line(self.maybe_label(), self.case('includebin'), '"%s"' % f))
        self.features.add('includebin')

    def do_comment(self, out):
        out.append(self.r.choice(['; a comment', '* star comment', '  ; indented', '\t* indented star', ';',
                                  '*', ';* " / odd']))

    def do_blank(self, out):
        out.append(self.r.choice(['', '', '   ', '\t']))

    def do_noop(self, out):
        out.append(self.line(None, self.case(self.r.choice(['page', 'spc', 'nam', 'name', 'opt', 'ttl', 'sttl'])),
                             self.r.choice(['', '1', 'foo'])))

    def do_export(self, out):
        c = self.labels + self.consts + [m for m, _ in self.macros]
        if not c or self.inmacro or self.in_if:
            return self.do_instr(out)
        out.append(self.line(None, self.case('export'), self.r.choice(c)))

    def do_end(self, out):
        pass

    def do_error(self, out):
        r = self.r
        out.append(self.line(None, *r.choice([
            ('frob', '1'), ('lda', ''), ('lda', '#1,2'), ('nop', '5'), ('bra', '*+400'), ('fcb', ''),
            ('tfr', 'a'), ('tfr', 'a,q'), ('pshs', 's'), ('pshu', 'u'), ('leax', '5'), ('sta', '#1'),
            ('fdb', 'never_defined'), ('lda', '9b' if False else '77b'), ('lda', '<<200,x'), ('else', ''), ('endif', ''), ('elsif', '1'),
            ('endm', ''), ('org', ''), ('rmb', '-1'), ('fill', '1'), ('setdp', ''), ('include', '"nosuch.s"'),
            ('fcb', '1,,'), ('lda', '[,x'), ('fcb', '1,2+'), ('fdb', '1%0'), ('fdb', '"a"+x'), ('section', '5'),
            ('export', ''), ('end', '1,2'), ('align', '0'), ('lda', ',z'), ('ldx', '#'), ('jsr', '#5'),
        ])))

    def program(self, size=None):
        r = self.r
        out = []
        if r.random() < 0.8:
            self.nextorg = r.choice([0, 0x100, 0x1000, 0x4000, 0x7f00, 0x8000, 0xc000, 0xe000])
            out.append(self.line(None, 'org', self.num(self.nextorg)))
        n = size or self.size
        for _ in range(n):
            if self.errors and r.random() < self.errors:
                self.do_error(out)
            self.item(out)
        # keep promises
        for f in self.fwd:
            if r.random() < 0.7:
                out.append(self.line(f, self.case('equ'), self.lit(0)))
            else:
                out.append(self.line(f, None, None))
        for f in getattr(self, 'pasted', []):
            out.append(self.line('pfx_' + f, 'equ', self.lit(0)))
            out.append(self.line(f + '_sfx', 'equ', self.lit(0)))
        for f in self.parts:
            for x in ('ra', 'NE', 'eq', 'rn', 'mi'):
                out.append(self.line(f.replace('@', x), 'equ', self.lit(0)))
        if r.random() < 0.3:
            e = r.choice(['', self.lit(0), r.choice(self.labels) if self.labels else '$1234'])
            out.append(self.line(None, self.case('end'), e))
            if r.random() < 0.3:
                out.append(' this is after the end and ignored (')
        text = '\n'.join(out)
        if r.random() < 0.9:
            text += '\n'
        if self.style and r.random() < 0.1:
            text = text.replace('\n', '\r\n')
        self.files['main.s'] = text.encode('latin-1')
        return self.files
