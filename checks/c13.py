"""C13: conditional assembly selects exactly the right lines."""
import itertools
import random

from lib import build, core, formats, scale, soup
from lib.core import Case
from checks.c09 import drive

RULE = ('Random trees of IF/ELSIF/ELSE/ENDIF (depth up to 9, up to 60 branches, conditions from constants, symbols, undefined '
        'symbols, floats, expressions and macro arguments) in files, included files and macros. Selected lines each emit '
        'a unique number, unselected ones hold such lines and anything else: labels defined twice, bad instructions, undefined '
        'symbols, definitions of macros in use, END, INCLUDE of missing files, garbage text. The bytes emitted must be '
        'exactly the numbers of the selected lines in order, and output and symbols must equal those of the program with '
        'only the selected lines. Structural errors must be rejected: every short sequence of directives, and many long ones, is judged '
        'by a recogniser of its own. Non-trivial: a distinct tree with both a selected '
        'and an unselected line.')

GARBAGE = [' lda nowhere', ' frobnicate 1,2', ' lda #1,2,3', 'used nop', 'used equ 7', ' fcb 1,@', ' ldx [[', ' include "missing"',
           ' includebin "missing"', ' org -99999999', ' rmb -5', ' section nowhere', ' endm', ' export nowhere', ' fcb "abc',
           ' put 99999999', ' setdp 5', ' org $8000', ' align 0', ' bra nowhere', ' mac 1,2,3', ' fcb \\1', ' lda 1b', ' fdb 1/0',
           'mac macro', 'other macro', ' section "elsewhere"', ' leax a,pc', ' tfr a,x', ' fdb used2', 'used2 equ 3', 'x equ 3', ' ttl anything (',
           '; comment', '* comment', '1 nop', '!', ' ', '', ' opt (', ' page', ' jmp [x', ' fill 1', ' equ 5', ' set 5', 'used set 9', ' code']


class T:
    def __init__(self, r, inmacro):
        self.r = r
        self.n = 0
        self.sel = []
        self.full = []          # all lines
        self.only = []          # the selected
        self.inmacro = inmacro
        self.fwd = r.random() < 0.15
        self.branches = 0
        self.unsel = 0

    def cond(self, truth):
        r = self.r
        k = r.randrange(14)
        if self.fwd and r.random() < 0.3:
            # undefined, so zero, until the second pass
            return r.choice(['fwd', 'fwd-1+1', 'fwd*2', '!!fwd']) if truth else r.choice(['!fwd', 'fwd-1', 'fwd==0'])
        if self.inmacro and k < 3:
            i = self.inmacro.index(bool(truth)) if bool(truth) in self.inmacro else None
            if i is not None:
                return '\\%d' % (i + 1)
        if truth:
            return r.choice(['1', '-1', '$100', 'one', 'one+0', 'one-2', '1.5', '1.0', '!0', 'one==1', 'big>one', '!undefd', 'undefd==0', '~0', '65536',
                             '4294967296', '1&&1', '0||one', "'a", '1 ; 0', 'undefd+1', '"a"=="a"', '*+1'])
        return r.choice(['0', 'zero', 'one-1', '0.0', '0.5', '!1', 'one==2', 'big<one', 'undefd', 'undefd+0', 'undefd*5', '1-1', '0&&1', 'zero||0', 
                         '0 ; 1', '"a"=="b"', 'undefd&&1', 'undefd||undefe', '%0', 'undefd*undefe'])

    def kw(self, s):
        r = self.r
        return r.choice([s, s, s.upper(), s.capitalize()])

    def mark(self, on):
        self.n += 1
        l = ' fdb %d' % self.n
        self.full.append(l)
        if on:
            self.sel.append(self.n)
            self.only.append(l)
        else:
            self.unsel += 1

    def block(self, depth, on, left):
        r = self.r
        for _ in range(r.choice([0, 1, 1, 2, 3])):
            k = r.random()
            if k < 0.5 or depth <= 0:
                self.mark(on)
            elif k < 0.62 and not on and not self.fwd:
                g = r.choice(GARBAGE)
                self.full.append(g)
                self.unsel += 1
            elif k < 0.7 and on and not self.fwd:
                l = r.choice(['lab%d nop' % self.n, ' lda #1', '; text', 'v set %d' % self.n])
                if 'lab' in l and self.inmacro:
                    l = ' lda #1'
                self.n += 1
                self.full.append(l)
                self.only.append(l)
            elif self.branches < 60:
                self.cond_block(depth - 1, on)
            else:
                self.mark(on)

    def cond_block(self, depth, on):
        r = self.r
        taken = False
        n = r.choice([1, 1, 1, 2, 3, 6])
        for i in range(n):
            self.branches += 1
            truth = r.random() < 0.45
            live = on and not taken
            if live or self.fwd:
                c = self.cond(truth)
            else:
                c = r.choice([self.cond(r.random() < 0.5), 'nowhere/0', '"s"+1', '', '1,2', 'x', '(1', '[1]', '1/0'])
            self.full.append('%s %s %s' % (r.choice(['', '', ' ', '\t']), self.kw('if' if i == 0 else 'elsif'), c))
            self.block(depth, live and truth, 0)
            taken = taken or truth
            if live and not truth:
                pass
        if r.random() < 0.5:
            self.full.append(' ' + self.kw('else') + r.choice(['', ' ; x', '  ']))
            self.block(depth, on and not taken, 0)
        self.full.append(' ' + self.kw('endif') + r.choice(['', ' ; x', '  ']))


def make(seed):
    """(case, equivalent case, numbers expected)"""
    r = random.Random(seed)
    where = r.choice(['file', 'file', 'file', 'macro', 'include', 'nested macro'])
    args = [r.random() < 0.5 for _ in range(3)]
    t = T(r, args if 'macro' in where else None)
    depth = r.choice([1, 2, 3, 5, 9])
    for _ in range(r.choice([1, 2, 4])):
        t.mark(True)
        t.cond_block(depth, True)
    t.mark(True)
    head = ['one equ 1', 'zero equ 0', 'big equ 70000', 'used', 'mac macro', ' fcb 1', ' endm', ' org $1000']
    tail = ['fwd equ 1']
    # forward symbols decide in the first pass as undefined: only use them where that settles
    files = {}
    if where == 'file':
        src = head + t.full + tail
        only = head + t.only + tail
    elif where == 'include':
        files['i.s'] = ('\n'.join(t.full) + '\n').encode('latin-1')
        src = head + [' include "i.s"'] + tail
        only = head + t.only + tail
    else:
        call = ','.join(r.choice(['1', '5', 'one']) if a else r.choice(['0', 'zero']) for a in args)
        # an ENDM would end the macro wherever it is
        bad = {' endm', 'mac macro', 'other macro'}
        body = [l for l in t.full if l not in bad]
        src = head + ['tree macro'] + body + [' endm']
        if where == 'macro':
            src += [' tree ' + call]
        else:
            src += ['outer macro', ' tree \\1,\\2,\\3', ' endm', ' outer ' + call]
        src += tail
        only = head + t.only + tail
    f2 = {'main.s': ('\n'.join(only) + '\n').encode('latin-1')}
    files['main.s'] = ('\n'.join(src) + '\n').encode('latin-1')
    return Case(files=files), Case(files=f2), t.sel, t.unsel


def job(exe):
    def f(seed):
        case, eq, sel, unsel = make(seed)
        res = core.compare(exe, case, ('status', 'image', 'symbols', 'listing'))
        out = core.trim(res)
        if res.get('kind') == 'crash':
            return out
        run = core.run_tool(exe, case.files, case.args(), ('out', 'sym'))
        ref = core.run_tool(exe, eq.files, eq.args(), ('out', 'sym'))

        def bad(kind, why):
            out.update(verdict='bad', kind=kind, why=why, case=case)
            return out
        if ref.rc != 0:
            return {'verdict': 'undecided', 'why': 'reference rejected', 'digest': case.digest()}
        if run.rc != 0:
            return bad('status', 'rejected, though the selected lines alone are accepted: %s' % run.err[:300])
        if run.files['out'] != ref.files['out']:
            a, b = formats.srec(run.files['out'])[0], formats.srec(ref.files['out'])[0]
            return bad('lines', 'bytes differ from those of the selected lines alone ' + str(core.diff_mem(a, b)))
        mem = formats.srec(run.files['out'])[0]
        raw = bytes(mem[a] for a in sorted(mem))
        i = 0
        for n in sel:
            m = bytes([n >> 8, n & 255])
            j = raw.find(m, i)
            if j < 0:
                return bad('lines', 'selected line %d emitted nothing' % n)
            i = j + 2
        sa, sb = core.parse_symbols(run.files['sym'])[0], core.parse_symbols(ref.files['sym'])[0]
        if sa != sb:
            return bad('symbols', 'symbols differ from those of the selected lines alone: %r' % sorted(set(sa.items()) ^ set(sb.items()))[:3])
        if res['verdict'] == 'undecided':
            out.update(verdict='ok', why='', digest=case.digest())
        out['extra'] = {'selected lines': len(sel), 'unselected lines': unsel, 'trees': 1}
        return out
    return f


STEPS = ['if 0', 'if 1', 'elsif 0', 'elsif 1', 'else', 'endif']


def well_formed(steps):
    """By the rules of the manual alone: the indexes of the places (before,
    between and after the steps) that take effect, or None for an error."""
    live = [0]
    st = []     # [group matters, a branch was taken, ELSE was seen, this branch is selected]
    for i, s in enumerate(steps):
        w = s.split()
        here = all(g[3] for g in st)
        if w[0] == 'if':
            c = here and w[1] == '1'
            st.append([here, c, False, c])
        elif not st:
            return None
        elif w[0] == 'endif':
            st.pop()
        else:
            g = st[-1]
            if g[0]:
                if g[2]:
                    return None
                if w[0] == 'else':
                    g[2] = True
                g[3] = not g[1] and (w[0] == 'else' or w[1] == '1')
                g[1] = g[1] or g[3]
        if all(g[3] for g in st):
            live.append(i + 1)
    return None if st else live


def steps_job(exe):
    def f(key):
        seed, steps = key
        r = random.Random(str(seed) + '|'.join(steps))
        src = []
        for i in range(len(steps) + 1):
            src.append(' fcb %d' % (i + 1))
            if i < len(steps):
                w = steps[i].split()
                if len(w) > 1:
                    w[1] = r.choice(['0', 'zero', '2-2', 'undefd']) if w[1] == '0' else r.choice(['1', 'one', '7', '-1', '$10000'])
                src.append(' ' + ' '.join(w))
        head = ['zero equ 0', 'one equ 1']
        where = r.randrange(4)
        files = {}
        if where == 0 and len(steps) < 60:
            src = ['m macro'] + src + [' endm', ' m']
        elif where == 1:
            files['i.s'] = ('\n'.join(src) + '\n').encode()
            src = [' include "i.s"']
        files['main.s'] = ('\n'.join(head + src) + '\n').encode()
        case = Case(files=files)
        run = core.run_tool(exe, case.files, case.args(('out',)), ('out',))
        out = {'verdict': 'ok', 'why': '', 'digest': case.digest(), 'extra': {'sequences': 1}}
        want = well_formed(steps)
        if run.rc not in (0, 1):
            out.update(verdict='bad', kind='crash', why='exit status %s' % run.rc, case=case)
        elif want is None:
            out['extra']['sequences in error'] = 1
            if run.rc == 0:
                out.update(verdict='bad', kind='status', why='accepted: %s' % ' / '.join(steps), case=case)
        elif run.rc:
            out.update(verdict='bad', kind='status', why='rejected: %s: %s' % (' / '.join(steps), run.err[:200]), case=case)
        else:
            mem = formats.srec(run.files['out'])[0]
            got = [mem[a] for a in sorted(mem)]
            exp = [(i + 1) & 255 for i in want]
            if got != exp:
                out.update(verdict='bad', kind='lines', why='%s: places %r took effect, not %r' % (' / '.join(steps), got[:20], exp[:20]), case=case)
        return out
    return f


def step_seqs(ctx):
    out = []
    full = ctx.n(4, 6)
    for n in range(1, full + 1):
        out += itertools.product(STEPS, repeat=n)
    r = random.Random('%s/%d/steps' % (ctx.prop, ctx.seed))
    for _ in range(ctx.n(1500, 20000)):
        # mostly well formed, with an occasional step out of place
        n = r.choice([5, 6, 7, 8, 10, 14, 30])
        s = []
        d = 0
        while len(s) < n or d > 0:
            x = r.random()
            if x < 0.02:
                s.append(r.choice(STEPS))
            elif d == 0 or (x < 0.35 and len(s) < n):
                s.append(r.choice(['if 0', 'if 1']))
                d += 1
            elif x < 0.65 and len(s) < n:
                s.append(r.choice(['elsif 0', 'elsif 1', 'else']))
            else:
                s.append('endif')
                d -= 1
        if r.random() < 0.1:
            s.pop()
        out.append(tuple(s))
    return out


def forward(seed):
    """A program whose conditions are only known at its end, and the lines of
    it that should take effect."""
    r = random.Random(seed)
    full, only = [], []
    files = {}
    nf = r.choice([1, 1, 2, 3])
    vals = {'late%d' % i: r.choice([0, 1, 1, 2, -1]) for i in range(nf)}
    chain = r.choice([0, 0, 1, 2])
    # sections follow each other in order of definition
    if r.random() < 0.5:
        sects = [' section "a"', ' section "bb"', ' code', ' data', ' bss']
        r.shuffle(sects)
    else:
        sects = [' code', r.choice([' data', ' section "a"'])]
    serial = [0]

    def put(l, on):
        full.append(l)
        if on:
            only.append(l)

    def fcb():
        serial[0] += 1
        return ' fdb %d' % serial[0]

    # what each group defines: in all of its branches, lest a definition is
    # only made in a pass before the last
    known = []

    def branch(group, on, depth):
        for kind, name in group:
            if kind == 'macro':
                put('%s macro' % name, on)
                put(fcb(), on)
                if r.random() < 0.3:
                    put(r.choice([' fcb \\1+1', ' if \\1', ' lda #2', ' setdp $30', 'v set v+3', ' fcb v']), on)
                    if full[-1] == ' if \\1':
                        put(fcb(), on)
                        put(' endif', on)
                put(' endm', on)
                if r.random() < 0.3:
                    put(' %s 1' % name, on)
            elif kind == 'label':
                put(name + r.choice([' nop', ' rmb 3', ' fdb 5,6', '', ' lda $20']), on)
            elif kind == 'const':
                put('%s equ %d' % (name, r.choice([r.randrange(256), r.randrange(65536)])), on)
        for _ in range(r.choice([0, 1, 1, 2, 4])):
            k = r.randrange(15)
            if k == 0:
                put('v set %s' % r.choice(['v+1', '5', 'v*2', '*']), on)
            elif k == 1:
                put(' setdp %s' % r.choice(['0', '$20', '$30', '-1', 'late0']), on)
            elif k == 2:
                put(r.choice(sects), on)
            elif k == 3:
                put(' rmb %d' % r.randrange(1, 200), on)
            elif k == 4:
                put(r.choice([' lda $2010', ' lda end0', ' ldx <later', ' bra far', ' lbsr end0']) if r.random() < 0.8 else ' fdb *', on)
            elif k == 5:
                put(r.choice(['1 nop', '2 nop', ' fdb 1B+1F', '! nop', ' fdb 2F', ' fdb <']), on)
            elif k == 6 and depth:
                group2(depth - 1, on)
            elif k == 7 and known:
                m = r.choice(known)
                put(' %s %d' % (m, r.randrange(3)), on)
            elif k == 8:
                f = 'i%d.s' % len(files)
                files[f] = ('%s\n%s\n' % (fcb(), ' setdp $40' if r.random() < 0.3 else ' nop')).encode()
                put(' include "%s"' % f, on)
            elif k == 10:
                put(' align %d' % r.choice([2, 4, 16]), on)
            else:
                put(fcb(), on)

    def group2(depth, on):
        n = r.choice([1, 1, 2, 3])
        group = []
        if r.random() < 0.6:
            serial[0] += 1
            group.append((r.choice(['macro', 'macro', 'label', 'const']), 'n%d' % serial[0]))
        taken = False
        for i in range(n):
            k = r.choice(sorted(vals))
            c, t = r.choice([(k, vals[k] != 0), ('!' + k, vals[k] == 0), (k + '==1', vals[k] == 1), (k + '-1', vals[k] != 1), (k + '>0', vals[k] > 0), ('1', True), ('0', False)])
            full.append(' %s %s' % ('elsif' if i else 'if', c))
            branch(group, on and t and not taken, depth)
            taken = taken or t
        if group or r.random() < 0.6:
            full.append(' else')
            branch(group, on and not taken, depth)
        full.append(' endif')
        for kind, name in group:
            if kind == 'macro' and on:
                if depth == 2:
                    known.append(name)
                put(' %s 1' % name, on)
            elif on:
                put(r.choice([' fdb %s', ' ldx #%s', ' lda %s']) % name, on)

    put('v set 0', True)
    if len(sects) > 2:
        for l in sects:
            put(l, True)
    put(r.choice([' fdb later', ' lda later', ' rmb later-later+1', ' if later']), True)
    if full[-1] == ' if later':
        put(' fdb later', True)
        put(' endif', True)
    put('1 nop', True)
    put('2 nop', True)
    for _ in range(r.choice([1, 2, 4])):
        group2(2, True)
        put(fcb(), True)
    if r.random() < 0.3:
        # the END of an included file only ends that one
        k = r.choice(sorted(vals))
        c, t = r.choice([(k, vals[k] != 0), ('!' + k, vals[k] == 0)])
        full.append(' if ' + c)
        for on in r.choice([(t, not t), (t,)]):
            f = 'e%d.s' % len(files)
            files[f] = (fcb() + '\n end $%x\n fcb 99\n' % r.randrange(65536)).encode()
            put(' include "%s"' % f, on)
            full.append(' else')
        full[-1] = ' endif'
    for l in r.sample(sects, len(sects)):
        put(l, True)
        if l == sects[-1]:
            put('far nop', True)
        for l in ('1 nop', '2 nop', '! nop'):
            put(l, True)
    put('later nop', True)
    put('end0 equ $2077', True)
    tail = []
    for n, v in vals.items():
        if chain:
            for i in range(chain):
                tail.append('%s%s equ %s%s' % (n, 'x' * i, n, 'x' * (i + 1)))
            tail.append('%s%s equ %d' % (n, 'x' * chain, v))
        else:
            tail.append('%s equ %d' % (n, v))
    files2 = dict(files)
    mains = ['main.s']
    if r.random() < 0.3:
        files['z.s'] = files2['z.s'] = ('\n'.join(tail) + '\n').encode()
        mains = ['main.s', 'z.s']
        tail = []
    # known before use in the reference
    f2 = '\n'.join(tail + only) + '\n'
    files['main.s'] = ('\n'.join(full + tail) + '\n').encode()
    files2['main.s'] = f2.encode()
    fmt = r.choice(['srec', 'srec', 'hex'])
    return Case(files=files, mains=mains, fmt=fmt), Case(files=files2, mains=mains[::-1], fmt=fmt)


def forward_job(exe):
    def f(seed):
        case, eq = forward(seed)
        res = core.compare(exe, case, ('status', 'image', 'exec', 'symbols', 'listing'))
        out = core.trim(res)
        if out['verdict'] == 'bad':
            return out
        run = core.run_tool(exe, case.files, case.args(), ('out', 'sym'))
        ref = core.run_tool(exe, eq.files, eq.args(), ('out', 'sym'))
        if ref.rc != 0:
            return {'verdict': 'undecided', 'why': 'reference rejected: ' + ref.err.decode('latin-1')[:100], 'digest': case.digest()}

        def bad(kind, why):
            out.update(verdict='bad', kind=kind, why=why, case=case)
            return out
        if run.rc != 0:
            return bad('status', 'rejected, though the lines its conditions select are accepted: %s' % run.err[:300])
        if run.files['out'] != ref.files['out']:
            return bad('lines', 'output differs from that of the lines its conditions finally select')
        sa, sb = core.parse_symbols(run.files['sym'])[0], core.parse_symbols(ref.files['sym'])[0]
        # definitions in branches selected in an earlier pass: see C09
        if any(sa.get(k) != v for k, v in sb.items()):
            return bad('symbols', 'symbols differ from those of the lines finally selected: %r' % [(k, v, sa.get(k)) for k, v in sb.items() if sa.get(k) != v][:3])
        if res['verdict'] == 'undecided':
            out.update(verdict='ok', why='', digest=case.digest())
        out['extra'] = {'programs with forward conditions': 1}
        return out
    return f


STRUCT = [
    [' if 1'], [' if 0'], [' if 1', ' nop', ' else'], [' if 0', ' else'], [' if 0', ' elsif 1'], [' endif'], [' else'], [' elsif 1'],
    [' if 1', ' else', ' else', ' endif'], [' if 0', ' else', ' else', ' endif'], [' if 1', ' else', ' elsif 1', ' endif'],
    [' if 0', ' else', ' elsif 1', ' endif'], [' if 1', ' endif', ' endif'], [' if 1', ' if 1', ' endif'], [' if 0', ' if 1', ' endif'],
    [' if 0', ' if 1', ' else', ' else', ' endif', ' endif'], [' if', ' endif'], [' if 1,2', ' endif'], [' if "a"', ' endif'],
    [' if x', ' endif'], [' if 0', ' elsif', ' endif'], [' if 0', ' elsif 1,2', ' endif'], [' if 0', ' elsif "s"', ' endif'],
    [' if 1', ' elsif', ' endif'], [' if 1', ' elsif 1,2', ' endif'], ['m macro', ' if 1', ' endm', ' m', ' endif'],
    ['m macro', ' endif', ' endm', ' if 1', ' m'], ['m macro', ' if 1', ' endm', ' m'], ['m macro', ' if 0', ' endm', ' nop'],
    ['m macro', ' else', ' endm', ' if 1', ' m', ' endif'], [' if 1', 'm macro', ' endif', ' endm', ' endif'], [' if 0', 'm macro', ' endm', ' endif', ' m'],
    [' if 1', ' end', ' endif'], [' if 0', ' end', ' endif', ' nop'], ['lab if 1', ' endif'], [' if 1', 'lab endif', ' nop'], [' if 0', 'lab else', ' nop', ' endif', ' lda lab'],
    [' if 1 extra', ' endif'], [' if 1,@', ' endif'], [' if 0', ' fcb 1,@', ' endif'], [' if (1', ' endif'], [' if 1', ' else garbage', ' endif garbage'],
    [' if 0', ' elsif 1,@', ' endif'], [' if', ' nop'], [' if 1', ' fcb 1,@', ' endif'],
    [' if undefd', ' fcb 1', ' else', ' fcb 2', ' endif'], [' if later', ' fcb 1', ' else', ' fcb 2', ' endif', 'later equ 1'],
    [' if later', ' fcb 1', ' else', ' fcb 2', ' endif', 'later'], [' if undefd+1', ' fcb undefd', ' endif'], [' if undefd', ' endif', ' fcb undefd'],
    ['m macro', ' nop', ' if 1'], ['m macro', ' fcb 1', ' endm 1,2', ' m', 'n macro', ' fcb 2', ' endm', ' n'], ['m macro', ' fcb 1', ' endm 5', 'n macro', ' fcb 2', ' endm', ' n', ' m'],
    ['m macro', 'm macro', ' nop', ' endm'], ['m macro', 'n macro', ' nop', ' endm', ' endm', ' m', ' n'], ['m macro', ' endm', 'm macro', ' fcb 1', ' endm', 'n macro', ' fcb 2', ' endm', ' n'],
    [' macro', ' fcb 1', ' endm', 'n macro', ' fcb 2', ' endm', ' n'], [' endm', 'n macro', ' fcb 2', ' endm', ' n'], ['m macro', ' nop', ' end', ' endm'], ['m macro', ' if 0', 'n macro', ' endm', ' endif', ' fcb 3'],
    [' if later', 'a1 equ 1', ' else', 'a1 equ 2', ' endif', 'later equ 1', ' fcb a1'], [' if !a1', 'a1 equ 1', ' endif', ' fcb a1'],
    [' lda later', ' if late', 'm macro', ' fcb 1', ' endm', ' else', 'm macro', ' fcb 2', ' endm', ' endif', ' m', 'late equ 1', 'later nop'],
    [' lda later', ' if late', 'm macro', ' fcb 1', ' endm', 'm macro', ' fcb 3', ' endm', ' else', 'm macro', ' fcb 2', ' endm', ' endif', ' m', 'late equ 1', 'later nop'],
    [' lda later', ' if late', ' m', ' endif', 'm macro', 'm macro', ' nop', ' endm', ' endm', 'late equ 1', 'later nop'],
    [' if a1<5', 'b1 rmb 3', ' endif', 'a1 nop'], [' if a1<2', 'b1 rmb 3', ' endif', 'a1 nop'],
]


def run(ctx):
    ctx.rule = RULE
    exe = build.build('plain')
    base = '%s/%d/' % (ctx.prop, ctx.seed)
    for i in range(3):
        ctx.sample(make(base + str(i))[0].files['main.s'].decode('latin-1')[:500])
    drive(ctx, job(exe), [base + str(i) for i in range(ctx.n(2000, 50000))], 'tree')
    drive(ctx, steps_job(exe), [(base, s) for s in step_seqs(ctx)], 'steps')
    drive(ctx, forward_job(exe), [base + 'f%d' % i for i in range(ctx.n(1500, 40000))], 'forward')
    cases = []
    for s in STRUCT:
        cases.append(Case(s))
        cases.append(Case([' nop'] + s + [' nop']))
        cases.append(Case(['w macro'] + s + [' endm', ' w']))
        cases.append(Case(files={'i.s': ('\n'.join(s) + '\n').encode(), 'main.s': b' if 1\n include "i.s"\n endif\n'}))
        cases.append(Case(files={'i.s': ('\n'.join(s) + '\n').encode(), 'j.s': b' nop\n'}, mains=['i.s', 'j.s']))
        cases.append(Case(files={'i.s': ('\n'.join(s) + '\n').encode(), 'j.s': b'k macro\n fcb 9\n endm\n k\n if 1\n k\n endif\n'}, mains=['i.s', 'j.s']))
        cases.append(Case(files={'i.s': ('\n'.join(s) + '\n').encode(), 'main.s': b'k macro\n fcb 9\n endm\n k\n include "i.s"\n k\nl macro\n fcb 8\n endm\n l\n'}))
    core.campaign(ctx, exe, cases, ('status', 'image', 'symbols', 'listing', 'diag'), 'structure')
    cases = []
    for d in (1, 2, 7, 8, 9, 50, 300, ctx.n(2000, 20000)):
        for k in (0, 1, d // 2):
            src = []
            for i in range(d):
                src += [' if %d' % (i != k), ' fcb %d' % (i & 255)]
            for i in range(d):
                src += [' else', ' fcb 255', ' endif']
            cases.append(Case(src))
        src = [' if 0'] + [' elsif %d' % (i == d - 1) for i in range(d)] + [' fcb 3', ' elsif 1', ' fcb 4', ' endif']
        cases.append(Case(src))
    core.campaign(ctx, exe, cases, ('status', 'image'), 'deep')
    # conditions over every kind of value
    cases = []
    for e in ('0', '1', '-1', '256', '65536', '4294967296', '9223372036854775807', '0.0', '0.4', '-0.4', '0.999', '1e', '"0"', '""', '"a"', 'x', '#1', '<1', '>0', '<<0',
              '[1]', '*', '1b', '1f', '<', '>', '!', '!0', '1/2', '1/0', '0/0', '5 % 2', '4 % 2', "'a", '@0', '%0', '$0', '0x0', '1?0:1', '0?0:1', '\\1', '&1', 'x+', ',x'):
        cases.append(Case([' if %s' % e, ' fcb 1', ' else', ' fcb 2', ' endif']))
        cases.append(Case([' if 0', ' elsif %s' % e, ' fcb 1', ' else', ' fcb 2', ' endif']))
        cases.append(Case(['m macro', ' if \\1', ' fcb 1', ' else', ' fcb 2', ' endif', ' endm', ' m %s' % e]))
    core.campaign(ctx, exe, cases, ('status', 'image', 'diag'), 'values')
    core.campaign(ctx, exe, scale.depths(), ('status', 'image', 'symbols', 'listing', 'diag'), 'depths')
    core.campaign(ctx, exe, core.randoms(ctx, ctx.n(800, 15000), weights={'if': 40, 'macrodef': 6, 'macrouse': 6, 'instr': 15}),
                  ('status', 'image', 'symbols'), 'random')
