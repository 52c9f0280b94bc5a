"""C19: errors always fail the run and are reported at the right line."""
import random
import re

from lib import build, core, formats, scale, soup
from lib.core import Case
from checks.c09 import drive

RULE = ('Programs correct by construction, in one to four files, with includes, macros, conditions, comments and blank lines, into '
        'which one to four lines each wrong in a known way (60 kinds, over every directive and instruction class) are put at known '
        'places: main file, included file, macro body, branch of a condition, after changes of section, before and after forward '
        'references. The run must exit 1, name the file or macro and line of the first error of the most serious class, and leave '
        'absent files absent and existing output, listing, symbol and export files (old content, read-only, a directory) as they '
        'were. The same programs with warnings only, or with the wrong lines in an unselected branch, must exit 0 and report no '
        'error. Plus model-compared messages of damaged programs and token soup. Non-trivial: a distinct program judged.')

OUTS = ('out', 'lst', 'sym', 'exp')

# wrong lines, by class: the last class present is reported
SYNTAX = [' badop', ' lda', ' lda #', ' lda 1,2,3', ' sta #5', ' pshs pc,5', ' pshs s', ' pulu u', ' tfr a', ' exg a,b,x', ' tfr a,pcr', ' andcc 5',
          ' equ 5,6', 'zz equ', ' endif', ' else', ' elsif 1', ' endm', ' rmb', ' rmb 1,2', ' align', ' fill 1', ' fill 1,2,3', ' section', ' include 5',
          ' includebin 5', ' org', ' put', ' setdp', ' setdp 1,2', ' lda (5', ' lda 5+', ' lda "', ' fcb )', ' lda [,x', ' jmp #5', ' bra', ' bra x', ' lbra 1,2',
          ' nop 5', ' macro', ' fdb x', ' ldx #y', ' rmb "a"', ' org x', ' fcb 1+x', ' ldd ,--pc', ' if', ' if 1,2', ' abx 1', ' fcb \\1', 'good1 nop', 'good1 equ 3', ' sync ,', ' cwai', ' export 5+']
RANGE = [' rmb -1', ' rzb -1', ' fill 0,-1', ' align 0', ' align -4', ' org $2000000', ' org -$20000', ' put -1', ' put $2000000', ' bra good1+$400', ' fcb 1<<(0-1)', ' fcb 1>>(0-1)', ' fcb 5%(1-1)', ' lda #5%zer', ' bsr good1-$300',
         ' fdb 1e30' if False else ' ldx #10000000000000000000000.0', ' rmb $2000000']
INCONS = [' lda nowhere', ' fdb nowhere+1', ' bra nowhere', ' ldx #nowhere', ' fcb nowhere', ' leax nowhere,y', ' jmp [nowhere]', ' rmb nowhere', ' fdb 77b', ' fdb 78f', ' bra 79b', 'xx1 equ nowhere', ' leax nowhere,pcr', ' fcc "a",nowhere', ' beq 80f']
WARN = [' tfr a,x', ' exg d,a', ' leax [,x+]', ' lda [,-y]', ' tfr 1,2']
CLASS = {0: 'inconsistent', 1: 'out of range', 2: 'syntax'}
FILL = [' nop', ' lda #5', ' ldx #$1234', ' fcb 1,2,3', ' fdb fwd', ' lda fwd', ' leax fwd,pcr', ' lbra fwd', ' fcc "text"', ' rmb 3', '; a comment', '* another', '', '', ' if 1', '\tlda\t,x+\t; comment', ' section "two"', ' data', ' code', ' setdp 3',
        ' fcb \'a', ' align 2', '1', ' fdb 1b', '7 nop', ' export good1', ' leay 300,x', ' std [$1234]', ' pshs a,b', ' mac0 5', ' mac1', ' INCLUDE "i0.s"', '\r', ' opt x', ' ttl A title', ' spc 1']


class Maker:
    """Lays lines out in files, knowing where each is reported."""

    def __init__(self, r, warnings=False, hide=False):
        self.r = r
        self.n = 0
        self.files = {'i0.s': b'; included\n nop\n\n nop\n'}
        self.errors = []    # (class, file, line), in the order of assembly
        self.hide = hide
        self.uses = 0

    def uniq(self):
        self.n += 1
        return self.n

    def fill(self, k):
        out = []
        r = self.r
        for _ in range(k):
            l = r.choice(FILL)
            if l == ' if 1':
                c = r.randrange(3)
                if c == 0:
                    out += [' if 0', ' badop', ' lda nowhere', ' else', ' nop', ' endif']
                elif c == 1:
                    out += [' if fwd', ' nop', ' endif', '']
                else:
                    out += [' if 0', '', ' elsif 1', ' nop ; x', ' else', ' lda (', ' endif']
            elif l in (' fdb 1b',):
                out += ['1', ' fdb 1b']
            elif l == '\r':
                out += ['', '']
            else:
                out.append(l)
        return out

    def wrong(self):
        r = self.r
        c = r.choice([0, 1, 2, 2])
        t = r.choice([INCONS, RANGE, SYNTAX][c])
        return c, t

    def place(self, lines, where, depth=0):
        """Put a wrong line among `lines` of the file or macro `where`;
        returns the lines."""
        r = self.r
        k = r.random()
        if self.hide:
            c, t = self.wrong()
            if t.split()[0] in ('endif', 'else', 'elsif', 'if', 'macro', 'endm'):
                t = ' lda ('
            return lines + r.choice([[' if 0', t, ' endif'], [' if 1', ' nop', ' else', t, ' endif'], [' if 1', ' nop', ' elsif 1', t, ' endif']])
        if depth < 4 and k < 0.2:
            # in a file
            n = 'inc%d.s' % self.uniq()
            sub = self.place(self.fill(r.randrange(4)), n, depth + 1) + self.fill(r.randrange(3))
            self.files[n] = self.text(sub)
            return lines + [' include "%s"' % n]
        if depth < 4 and k < 0.4:
            # in a macro defined here
            n = 'M%d' % self.uniq()
            e0 = len(self.errors)
            sub = self.place([l for l in self.fill(r.randrange(4)) if '\\' not in l], n, depth + 1)
            sub += self.fill(r.randrange(3))
            if any('macro' in l for l in sub):
                # one inside another: the inner is defined when this is called
                pass
            return lines + ['%s macro' % n] + sub + [' endm'] + self.fill(r.randrange(2)) + [' %s' % n]
        if k < 0.5:
            pre = r.choice([[' if 1'], [' if 0', ' nop', ' else'], [' if 0', '', ' elsif 2', '; c']])
            c, t = self.wrong()
            if t.split()[0] in ('endif', 'else', 'elsif', 'if', 'macro', 'endm'):
                c, t = 2, ' badop'
            lines = lines + pre
            return self.add(lines, c, t, where) + self.fill(1) + [' endif']
        c, t = self.wrong()
        if t.split()[0] in ('if', 'macro', 'endm'):
            c, t = 2, ' lda ('
        if depth and t.split()[0] in ('endif', 'else', 'elsif'):
            pass
        return self.add(lines, c, t, where)

    def add(self, lines, c, t, where):
        r = self.r
        if '\\1' in t and where.startswith('M'):
            pass            # called without arguments: still an error
        if t.startswith('xx1'):
            t = t.replace('xx1', 'xx%d' % self.uniq())
        self.errors.append((c, where, len(lines) + 1, t))
        return lines + [t + r.choice(['', '', '', ' ; comment']) if not t.endswith('"') else t]

    def text(self, lines):
        r = self.r
        nl = r.choice(['\n', '\n', '\n', '\r\n'])
        return (nl.join(lines) + (nl if r.random() < 0.8 else '')).encode('latin-1')


HEAD = ['mac0 macro', '; body', '', ' fcb \\1', ' endm', 'mac1 macro', ' mac0 7', '', ' endm', 'good1 equ $8000', 'zer equ 0', ' section "two"', ' org $4000', ' data', ' org $2000', ' section "CODE"', ' org $9000']


def make(seed, mode):
    r = random.Random(seed)
    m = Maker(r, hide=mode == 'hidden')
    nf = r.choice([1, 1, 1, 2, 4])
    names = ['main.s'] if nf == 1 else ['p%d.s' % i for i in range(nf)]
    n = 0 if mode == 'warn' else r.choice([1, 1, 1, 2, 3, 4])
    at = [r.randrange(nf) for _ in range(n)]
    for i, f in enumerate(names):
        lines = list(HEAD) if i == 0 else []
        lines += m.fill(r.randrange(8))
        for _ in range(at.count(i)):
            lines = m.place(lines, f)
            lines += m.fill(r.randrange(5))
        if mode == 'warn' or r.random() < 0.2:
            for _ in range(r.choice([1, 1, 3])):
                lines.insert(len(HEAD) if i == 0 else 0, r.choice(WARN)) if mode == 'warn' else lines.append(r.choice(WARN))
        if i == nf - 1:
            lines.append('fwd equ $9123')
        m.files[f] = m.text(lines)
    return m, Case(files=m.files, mains=names)


OLD = {'out': b'old output\n' * 50, 'lst': b'old listing\n', 'sym': b'old symbols', 'exp': b''}


def sentinel(case, how, r):
    """Extra files and a preparation that put something where outputs go."""
    pre = {}
    for o in OUTS:
        if how == 'old' or how == 'mixed' and r.random() < 0.5:
            pre[o] = OLD[o]
    return pre


def job(exe):
    def f(item):
        seed, mode = item
        m, case = make(seed, mode)
        r = random.Random(seed + 'x')
        how = r.choice(['absent', 'old', 'mixed'])
        extra = r.choice([[], [], ['-q'], ['-v'], ['-q', '-v'], ['-v', '-q']])
        case.extra = extra
        pre = sentinel(case, how, r)
        outs = [o for o in OUTS if r.random() < 0.8]
        args = case.args(outs)
        out = {'verdict': 'ok', 'digest': case.digest()}

        def bad(kind, why):
            out.update(verdict='bad', kind=kind, why=why, case=case)
            return out
        files = dict(case.files)
        files.update(pre)
        run = core.run_tool(exe, files, args, OUTS)
        if not run.clean:
            return bad('crash', 'ended with ' + run.status())
        got = core.parse_diags(run.err)
        if mode in ('warn', 'hidden'):
            if run.rc != 0:
                return bad('rejected', '%s, but exit %d: %s' % ({'warn': 'nothing but warnings', 'hidden': 'wrong lines are never assembled'}[mode], run.rc, run.err[:300]))
            if any(a in ('error', 'syntax error') for a, b, c, d in got):
                return bad('false error', 'exit 0 with an error message: %s' % run.err[:300])
            for o in outs:
                if run.files[o] is None or run.files[o] == pre.get(o) and o != 'exp':
                    return bad('missing', 'exit 0 but %s was not written' % o)
            v = [x for x in extra][-1:] or ['']
            want = mode == 'warn' and v != ['-q']
            if mode == 'warn' and bool([1 for a, b, c, d in got if a == 'warning']) != want:
                return bad('warning', '%s with %r: %s' % ('no warning' if want else 'a warning', extra, run.err[:300]))
            out['extra'] = {mode + ': accepted': 1, 'warnings seen': len(got)}
            return out
        if run.rc != 1:
            return bad('accepted', 'exit %d despite %s' % (run.rc, [e[1:] for e in m.errors]))
        for o in OUTS:
            if run.files[o] != pre.get(o):
                return bad('altered', 'a failed run %s %s' % ('altered' if o in pre else 'created', o))
        top = 2 if any(e[0] == 2 for e in m.errors) else 0 if any(e[0] == 0 for e in m.errors) else 1
        first = next(e for e in m.errors if e[0] == top)
        if not any((b, c) == (first[1], first[2]) and a in ('error', 'syntax error') and d.strip() or
                   (b, c) == (first[1], first[2]) and a == 'syntax error' for a, b, c, d in got):
            return bad('place', 'no error message for %s line %d (%r); messages: %s' % (first[1], first[2], first[3], run.err[:400].decode('latin-1')))
        # nothing less serious is called the error
        # (both of the middle classes are plain errors)
        known = {(e[1], e[2]) for e in m.errors if e[0] == top or top != 2}
        for a, b, c, d in got:
            if a in ('error', 'syntax error') and b is not None and (b, c) not in known and not any(e[3].strip() in ('else', 'elsif 1', 'endif') for e in m.errors):
                return bad('wrong place', 'an error is reported at %s:%s, where there is none of that class; messages: %s' % (b, c, run.err[:400].decode('latin-1')))
        if how != 'absent':
            out['extra'] = {'existing files seen unaltered': len(pre)}
        out.setdefault('extra', {})['errors placed: ' + CLASS[top]] = 1
        k = 'macro' if first[1].startswith('M') else 'include' if first[1].startswith('inc') else 'file'
        out['extra']['errors placed: in ' + k] = 1
        return out
    return f


# each kind alone, at the top of a file: (source, line or None)
ALONE = [(['', t], 2) for t in SYNTAX + RANGE + INCONS if t not in (' if', ' if 1,2', ' macro', 'good1 nop', 'good1 equ 3', ' lda "')]
ALONE += [([' nop', 'l nop', '', 'l nop'], 4), ([' if 1', ' nop'], 2), (['m macro', ' nop'], None), (['m macro', ' endm', 'm macro', ' endm'], 3), ([' fcb "\x01'], 1),
          ([' org $ffff', ' nop', ' nop', ' nop'], 4), ([' org $100', ' fcb 1', ' org $100', ' fcb 2'], None), (['s set 1', 's equ 2'], 2), (['s equ 1', 's set 2'], None), ([' nop', ' include "none"', ' nop'], 2),
          ([' nop', ' includebin "none"', ' nop'], 2), ([' macro', ' nop', ' endm'], 1), (['m macro', '', '', ' bad', ' endm', ' m'], None), ([' if 1', ' endif', ' endif'], 3), (['l bad'], 1), (['l', 'l'], 2), ([' end nowhere'], 1), ([' end x'], 1),
          (['m macro', ' m', ' endm', ' m'], None), ([' include "main.s"'], None)]
# nothing after a NUL, or after what the parser gives up on, may be silently ignored
for _pre in ([], [' nop'], [' nop', '', '; c']):
    for _l in ('\0', ' \0', ' nop\0', ' nop \0', '; c\0', ' nop ; c\0mment', 'l\0 nop', ' fcc "a\0b"', ' fcb 1,\0', ' fcb 1\0,2', '*\0', ' lda #1 c\0', 'x' * 9000 + '\0', ' fcc "%s\0"' % ('x' * 20000), '\0' * 40):
        ALONE.append((_pre + [_l] + [' nop'], len(_pre) + 1))

# (argument, byte it amounts to or None if it is an error anyway)
def deep(n):
    return [('(' * n + '7' + ')' * n, 7), ('7' + '?7:9' * n, 7), ('7' + '?7' * n + ':9' * n, 7), ('!!' * n + '7', 1), ('1,[' * n + '1' + ']' * n, None),
            ('1+(' * n, None), ('1+(' * n + '0' + ')' * n, n + 0), ('7' + '+0' * n, 7), ('7' + '*1' * n, 7), ('0' + '||7' * n, 1), ('-(' * (2 * n) + '7' + ')' * (2 * n), 7), ('0|(' * n + '7' + ')' * n, 7)]


def deep_line(ctx, exe, n, which=None):
    """However deep an expression, it is assembled, or its line is named."""
    for arg, want in deep(n):
        if which and not which(arg):
            continue
        for pre in ([], [' nop', '', 'l nop ; c']):
            c = Case(pre + [' fcb ' + arg, ' fcb 5'])
            ctx.evaluations += 1
            ctx.distinct.add(c.digest())
            t = core.run_tool(exe, c.files, c.args(OUTS), OUTS)
            at = len(pre) + 1
            why = None
            if not t.clean or t.rc not in (0, 1):
                why = 'ended with %s' % t.status()
            elif t.rc == 0:
                mem = formats.srec(t.files['out'])[0]
                if want is None:
                    why = 'accepted'
                elif bytes(mem[k] for k in sorted(mem))[-2:] != bytes([want & 0xff, 5]):
                    why = 'the bytes assembled are wrong: %s' % bytes(mem[k] for k in sorted(mem)).hex()
                ctx.count('deep expressions accepted')
            elif any(v is not None for v in t.files.values()):
                why = 'a failed run wrote a file'
            elif ('main.s', at) not in {(b, k) for a, b, k, d in core.parse_diags(t.err)}:
                why = 'line %d is not named: %s' % (at, t.err[:200])
            else:
                ctx.count('deep expressions reported')
            if why:
                ctx.violate('deep', '%s... nested %d deep: %s' % (arg[:12], n, why), c, c.args(OUTS))



def job_long(exe):
    """Errors, and warnings, thousands of lines into a file or macro."""
    def f(seed):
        r = random.Random(seed)
        n = r.choice([4095, 9999, 32768, 65535, 65536, 65537, 65600, 70000, 131080, 200003, r.randrange(60000, 140000)])
        t, kind = r.choice([(' badop', 'syntax error'), (' lda #zork', 'error'), (' bra *+1000', 'error'), (' badop', 'syntax error'), (' leax 5', 'warning')])
        fill = [r.choice(['', '; c', 'l%d' % i, ' nop']) if r.random() < 0.01 else '' for i in range(n - 1)]
        fill.append(t)
        where = r.choice(['main.s', 'main.s', 'inc.s', 'Mac', 'z.s'])
        body = ('\n'.join(fill) + '\n nop\n').encode()
        if where == 'main.s':
            c = Case(files={'main.s': body})
        elif where == 'inc.s':
            c = Case(files={'main.s': b' nop\n include "inc.s"\n nop\n', 'inc.s': body})
        elif where == 'Mac':
            c = Case(files={'main.s': b'Mac macro\n' + body + b' endm\n nop\n Mac\n'})
        else:
            c = Case(files={'main.s': b' nop\n', 'z.s': body}, mains=['main.s', 'z.s'])
        out = {'verdict': 'ok', 'digest': c.digest()}
        run = core.run_tool(exe, c.files, c.args(OUTS), OUTS)
        got = core.parse_diags(run.err)
        why = None
        if not run.clean or run.rc != int(kind != 'warning'):
            why = 'ended with %s' % run.status()
        elif (kind, where, n) not in {(a, b, k) for a, b, k, d in got}:
            why = '%s line %d (%r) is not named: %s' % (where, n, t, run.err[:200])
        elif len({(b, k) for a, b, k, d in got}) != 1:
            why = 'other lines are named: %s' % run.err[:300]
        if why:
            out.update(verdict='bad', kind='long', why=why, case=c)
        else:
            out['extra'] = {'far into a file: named': 1}
        return out
    return f


def run(ctx):
    ctx.rule = RULE
    exe = build.build('plain')
    base = '%s/%d/' % (ctx.prop, ctx.seed)
    m, c = make(base + 'e0', 'error')
    ctx.sample({'files': {k: v.decode('latin-1')[:400] for k, v in c.files.items()}, 'errors': m.errors})
    drive(ctx, job(exe), [(base + 'e%d' % i, 'error') for i in range(ctx.n(2500, 40000))], 'injected')
    drive(ctx, job(exe), [(base + 'w%d' % i, 'warn') for i in range(ctx.n(500, 6000))], 'warnings')
    drive(ctx, job(exe), [(base + 'h%d' % i, 'hidden') for i in range(ctx.n(500, 6000))], 'hidden')
    # one at a time
    for lines, n in ALONE:
        for isa in (False, True):
            c = Case(lines, isa6309=isa)
            ctx.evaluations += 1
            ctx.distinct.add(c.digest())
            for outs in (('out',), OUTS, ()):
                t = core.run_tool(exe, c.files, c.args(outs), OUTS)
                why = None
                if not t.clean or t.rc != 1:
                    why = 'ended with %s' % t.status()
                elif any(v is not None for v in t.files.values()):
                    why = 'a failed run wrote a file'
                elif not t.err.strip():
                    why = 'no message'
                elif n and ('main.s', n) not in {(b, k) for a, b, k, d in core.parse_diags(t.err)}:
                    why = 'line %d is not named: %s' % (n, t.err[:200])
                if why:
                    if isa and t.clean and t.rc == 0 and any(l in (' leax ,q', ' pshs pc,q') for l in lines):
                        continue
                    ctx.violate('alone', '%s: %s' % (lines, why), c, c.args(outs))
                    break
            else:
                ctx.count('each error alone')
    for n in (10, 100, 1000, 3000, 30000) if ctx.tier == 'quick' else (10, 100, 300, 1000, 1500, 2000, 2400, 2600, 3000, 4800, 5200, 9000, 11000, 30000, 100000):
        deep_line(ctx, exe, n)
    for n in (300000, 1000000):
        deep_line(ctx, exe, n, lambda a: a[0] == '7' or a[0] == '0')
    # damaged programs against the model
    drive(ctx, job_long(exe), [base + 'L%d' % i for i in range(ctx.n(48, 600))], 'long')
    core.campaign(ctx, exe, scale.depths() + scale.edges(), ('status', 'diag'), 'depths')
    core.campaign(ctx, exe, soup.soups(ctx, ctx.n(2500, 40000)), ('status', 'diag'), 'damaged')
    core.campaign(ctx, exe, core.randoms(ctx, ctx.n(800, 12000), errors=0.05), ('status', 'diag'), 'random')
