"""C10: local labels resolve to the nearest occurrence in their section."""
import random

from lib import build, core, formats, scale
from lib.core import Case

RULE = ('Random programs made of local label definitions (numbers 0..2^40, repeated any number of times, !), references nB, '
        'nF, < and >, section switches, macros and included files holding both, interleaved. The value of every '
        'reference is predicted from the sequence of assembled lines by direct search for the nearest definition in '
        'the same section, independently of the model, and read back from the output; programs with a reference that '
        'has no definition must be rejected. Some labels are more than 65536 lines apart. Programs whose conditions, and so definitions, change '
        'between passes must assemble to the same as with the conditions known from the start. Non-trivial: a distinct program with at least one reference.')


class B:
    def __init__(self, r):
        self.r = r
        self.nums = [r.choice([0, 1, 2, 3, 9, 10, 65, 99, 255, 12345, 1 << 40]) for _ in range(r.choice([1, 2, 4]))]
        if r.random() < 0.3:
            # numbers alike in their low bits, or a multiple of a likely table size apart
            self.nums.append((r.choice(self.nums) + r.choice([1 << 8, 1 << 16, 1 << 31, 1 << 32, 1 << 32, 1 << 48]) *
                              r.choice([1, 11, 11, 11, 13, 23, 11 * 13 * 23 * 47])) % (1 << 63))
        self.files = {}
        self.macros = {}
        # each assembled line: (section, event)
        self.lines = []

    def label(self, n):
        """Every form of number may stand for a label."""
        k = self.r.randrange(24)
        if 32 < n < 256 and n != 127 and k < 8:
            return ["'%c'", "'%c"][k & 1] % n
        return {0: '$%x', 1: '0x%X', 2: '@%o', 3: '0%o'}.get(k, '%d') % n if k != 4 else '%' + bin(n)[2:] if self.r.random() < 0.5 else '0b' + bin(n)[2:]

    def simple(self):
        """A source line and its event."""
        r = self.r
        n = r.choice(self.nums)
        k = r.random()
        if k < 0.35:
            w = r.choice(['', ' nop', ' fdb 1', ' rmb %d' % r.randrange(9)])
            lab = '!' if n == 0 and r.random() < 0.5 else self.label(n)
            size = {'': 0, ' nop': 1, ' fdb 1': 2}.get(w)
            if size is None:
                size = int(w.split()[1])
            return lab + w, ('def', n, size, None)
        if k < 0.8:
            back = r.random() < 0.5
            if n == 0 and r.random() < 0.4:
                t = '<' if back else '>'
            else:
                t = '%d%s' % (n, r.choice('bB') if back else r.choice('fF'))
            if r.random() < 0.2:
                # a definition on the line that refers
                m = r.choice(self.nums)
                return '%d fdb %s' % (m, t), ('both', m, 2, (n, back))
            return ' fdb %s' % t, ('ref', None, 2, (n, back))
        if k < 0.9:
            return '; comment', ('none', None, 0, None)
        m = r.randrange(1, 5)
        return ' rzb %d' % m, ('none', None, m, None)

    def body(self, n):
        src, ev = [], []
        for _ in range(n):
            s, e = self.simple()
            src.append(s)
            ev.append(e)
        return src, ev


def make(seed, gaps=()):
    """gaps: so many lines that define nothing are put in random places."""
    r = random.Random(seed)
    b = B(r)
    secs = ['CODE', 'two', 'three'][:r.choice([1, 1, 2, 3])]
    org = {s: 0x1000 + 0x2000 * i for i, s in enumerate(secs)}
    cur = 'CODE'
    src = [' org $1000']
    ev = [('CODE', ('none', None, 0, None))]
    started = {'CODE'}
    for i in range(r.choice([0, 1, 2])):
        s, e = b.body(r.randrange(1, 6))
        b.macros['mac%d' % i] = e
        src += ['mac%d macro' % i] + s + [' endm']
        ev += [(cur, ('none', None, 0, None))] * (len(s) + 2)
    for i in range(r.choice([0, 1, 2])):
        s, e = b.body(r.randrange(0, 6))
        b.files['f%d.s' % i] = (('\n'.join(s) + '\n').encode('latin-1') if s else b'', e)
    n = r.choice([3, 10, 30, 80])
    gaps = dict(zip(r.sample(range(n), min(n, len(gaps))), gaps))
    for j in range(n):
        src += [''] * gaps.get(j, 0)
        ev += [(cur, ('none', None, 0, None))] * gaps.get(j, 0)
        k = r.random()
        if k < 0.12 and len(secs) > 1:
            cur = r.choice(secs)
            src.append(' section "%s"' % cur)
            ev.append((None, ('none', None, 0, None)))
            if cur not in started:
                started.add(cur)
                src.append(' org $%x' % org[cur])
                ev.append((cur, ('none', None, 0, None)))
        elif k < 0.2 and b.macros:
            m = r.choice(list(b.macros))
            src.append(' ' + m)
            ev.append((cur, ('none', None, 0, None)))
            ev += [(cur, e) for e in b.macros[m]]
        elif k < 0.27 and b.files:
            f = r.choice(list(b.files))
            src.append(' include "%s"' % f)
            ev.append((cur, ('none', None, 0, None)))
            ev += [(cur, e) for e in b.files[f][1]]
        elif k < 0.3:
            s, e = b.body(2)
            src += [' if 0'] + s + [' endif']
        else:
            s, e = b.simple()
            src.append(s)
            ev.append((cur, e))
    # addresses and answers
    pos = dict(org)
    seq = {}
    refs = []
    for sec, (kind, n, size, ref) in ev:
        if sec is None:
            continue
        q = seq.setdefault(sec, [])
        i = len(q)
        q.append((n if kind in ('def', 'both') else None, pos[sec]))
        if ref:
            refs.append((sec, i, ref, pos[sec]))
        pos[sec] += size
    want = []
    ok = True
    for sec, i, (n, back), at in refs:
        q = seq[sec]
        rng = range(i, -1, -1) if back else range(i + 1, len(q))
        j = next((j for j in rng if q[j][0] == n), None)
        if j is None:
            ok = False
        else:
            want.append((at, q[j][1] & 0xffff))
    files = {k: v[0] for k, v in b.files.items()}
    files['main.s'] = ('\n'.join(src) + '\n').encode('latin-1')
    return Case(files=files), want, ok


def make_ok(seed, gaps=()):
    """Most programs should assemble: supply what is missing."""
    for i in range(40):
        c, w, ok = make('%s/%d' % (seed, i), gaps)
        if ok and w:
            return c, w, ok
    return c, w, ok


def job(exe):
    def f(arg):
        seed, want_ok = arg[:2]
        case, want, ok = (make_ok if want_ok else make)(seed, *arg[2:])
        res = core.compare(exe, case, ('status', 'image'))
        out = core.trim(res)
        if res['verdict'] == 'undecided' or res.get('kind') == 'crash':
            return out
        run = res['run']

        def bad(kind, why):
            out.update(verdict='bad', kind=kind, why=why, case=case)
            return out
        if (run.rc == 0) != ok:
            return bad('status', 'exit %d, but %s: %s' % (run.rc, 'every reference has a definition' if ok else
                                                         'a reference has no definition', run.err[:200]))
        if ok:
            mem = formats.srec(run.files['out'])[0] if run.files['out'] else {}
            for at, v in want:
                got = mem.get(at, -1) << 8 | mem.get(at + 1, -1)
                if got != v:
                    return bad('value', 'the reference at $%04X is %#x; the nearest definition is at $%04X' % (at, got, v))
            out['extra'] = {'references checked': len(want)}
        else:
            out['extra'] = {'programs with an undefined reference': 1}
        return out
    return f


def make_late(seed):
    """Which lines are assembled, and so which definitions exist, changes
    after the first pass, or the first few.  Returns the program and the same
    with the conditions known from the start."""
    r = random.Random(seed)
    late = r.choice([0, 0, 1, 2])
    nums = [r.choice([0, 1, 2, 1 << 33])  for _ in range(r.choice([1, 2]))]
    tag = [0]

    def lines(n):
        out = []
        for _ in range(n):
            k = r.random()
            x = r.choice(nums)
            if k < 0.4:
                out.append('%d%s' % (x, r.choice(['', ' nop', ' rmb 3', ' fdb %d%s' % (x, r.choice('bf'))])))
            elif k < 0.75:
                out.append(r.choice([' fdb %d%s', ' ldx #%d%s', ' lbra %d%s', ' leax %d%s,pcr']) % (x, r.choice('bf')))
            else:
                out.append(r.choice([' nop', ' rzb 5', ' fdb 1', '']))
        return out
    files = {}
    src = []
    for i in range(r.choice([0, 1, 2])):
        src += ['m%d macro' % i] + lines(r.randrange(0, 5)) + [' endm']
    for i in range(r.choice([0, 1])):
        files['f%d.s' % i] = ('\n'.join(lines(r.randrange(1, 4))) + '\n').encode()
    nm, nf = sum(l.endswith('macro') for l in src), len(files)

    def part():
        k = r.random()
        if k < 0.3 and nm:
            return [' m%d' % r.randrange(nm)]
        if k < 0.5 and nf:
            return [' include "f%d.s"' % r.randrange(nf)]
        if k < 0.6:
            return [' section "%s"' % r.choice(['CODE', 'two'])]
        return lines(r.randrange(1, 4))

    def cond(d=0):
        g = r.choice(['g%d' % r.randrange(late + 1), '!g%d' % r.randrange(late + 1)])
        out = [' if ' + g]
        for _ in range(r.randrange(0, 3)):
            out += part() if d or r.random() < 0.8 else cond(1)
        if r.random() < 0.6:
            out.append(' else')
            for _ in range(r.randrange(0, 3)):
                out += part()
        return out + [' endif']
    body = [' org $1000']
    for x in nums:
        body.append('%d nop' % x)
    for _ in range(r.choice([2, 4, 8])):
        body += cond() if r.random() < 0.5 else part()
    body += [' section "two"', ' org $6000'] if r.random() < 0.3 else []
    for x in nums:
        body.append('%d nop' % x)
    body += [' fdb g0']
    defs = ['g%d equ g%d' % (i, i + 1) for i in range(late)] + ['g%d equ 1' % late]
    a = src + body + defs
    b = defs[::-1] + src + body
    fa, fb = dict(files), dict(files)
    fa['main.s'] = ('\n'.join(a) + '\n').encode('latin-1')
    fb['main.s'] = ('\n'.join(b) + '\n').encode('latin-1')
    return Case(files=fa), Case(files=fb)


def late_job(exe):
    def f(seed):
        a, b = make_late(seed)
        res = core.compare(exe, a, ('status', 'image'))
        out = core.trim(res)
        if res['verdict'] != 'ok':
            return out
        rb = core.run_tool(exe, b.files, b.args(('out',)), ('out',))
        ra = res['run']
        if not rb.clean:
            out.update(verdict='undecided', why='known from the start: %s' % rb.status())
            return out
        if ra.rc == 0:
            want = formats.srec(rb.files['out'])[0] if rb.rc == 0 else None
            if formats.srec(ra.files['out'])[0] != want:
                out.update(verdict='bad', kind='late', case=a, why='assembled %s when conditions are only known late, %s when known from the start' %
                           (sorted(formats.srec(ra.files['out'])[0].items())[:40], want and sorted(want.items())[:40] or rb.err[:200]))
                return out
            out['extra'] = {'settled late, as if known from the start': 1}
        elif rb.rc == 0:
            # it may not settle within the passes allowed
            out['extra'] = {'not settled': 1}
        else:
            out['extra'] = {'rejected either way': 1}
        return out
    return f


def run(ctx):
    ctx.rule = RULE
    exe = build.build('plain')
    from checks.c09 import drive
    base = '%s/%d/' % (ctx.prop, ctx.seed)
    n = ctx.n(2500, 60000)
    for i in range(2):
        ctx.sample(make_ok(base + str(i))[0].files['main.s'].decode()[:400])
    drive(ctx, job(exe), [(base + str(i), i % 5 != 0) for i in range(n)], 'local')
    drive(ctx, late_job(exe), [base + 'L%d' % i for i in range(ctx.n(1500, 30000))], 'late')
    # far apart: line numbers beyond 16 bits
    drive(ctx, job(exe), [(base + 'G%d' % i, True, ctx.rng.choice([(65536,), (65520, 20), (40000, 30000), (70000,), (32768, 32768), (131072,), (20000, 30000, 60000)]))
                          for i in range(ctx.n(24, 300))], 'long')
    # many occurrences, and local labels used by branches whose size and place settle late
    r = ctx.rng
    cases = []
    for i in range(ctx.n(60, 600)):
        n = r.choice([10, 300, 1500])
        src = [' org $100']
        for j in range(n):
            k = r.randrange(4)
            src.append(['%d' % r.randrange(3), '%d bra %d%s' % (r.randrange(3), r.randrange(3), 'b'),
                        ' lbra %d%s' % (r.randrange(3), r.choice('bf')), ' lda %df,pcr' % r.randrange(3)][k])
        src = src[:1] + ['0', '1', '2'] + src[1:] + ['0', '1', '2']
        cases.append(Case(src))
    core.campaign(ctx, exe, cases, ('status', 'image'), 'many')
    neg = [Case(x) for x in ([' bra 1b'], [' bra 1f'], ['1', ' bra 1f'], [' bra 1b', '1'], ['1 bra 1f'], ['1', ' section "b"', ' bra 1b'],
                             [' section "b"', '1', ' section "CODE"', ' bra 1b'], [' bra <'], [' bra >'], ['!', ' bra >'],
                             ['1', ' if 0', '2', ' endif', ' bra 2b'], ['1 equ 5', ' lda #1b'], ['1 set 5', '1 set 6', ' lda #1b'],
                             ['1 org $200', ' ldx #1b'], ['01', ' bra 1b'], ['$1', ' bra 1b'], [' bra 01b', '1'], ['1', ' bra 01b'],
                             ['8', ' bra 08b'], ['1', ' lda 1b+1', ' lda 1B', ' ldx #1b'], ['m macro', '1', ' bra 1b', ' endm', ' m', ' m', ' bra 1b'],
                             ['9223372036854775807', ' bra 9223372036854775807b', ' bra 9223372036854775807b'],
                             ['9223372036854775808', ' bra 9223372036854775808b'], ['9223372036854775807', ' bra 9223372036854775808b'],
                             ['18446744073709551617', ' bra 1b'], ['1', ' bra 18446744073709551617b'], [' bra 4294967297f', '1'], ['$8000000000000000', ' nop'],
                             ['!', ' bra <', ' bra 0b', '0', ' bra <'], [' bra >', ' bra 0f', '!'])]
    core.campaign(ctx, exe, neg, ('status', 'image', 'diag'), 'small')
    core.campaign(ctx, exe, scale.depths(), ('status', 'image', 'diag'), 'depths')
    core.campaign(ctx, exe, scale.settling(), ('status', 'image', 'exec'), 'settling')
    core.campaign(ctx, exe, core.randoms(ctx, ctx.n(700, 15000), weights={'local': 40, 'bang': 8, 'section': 6, 'include': 4, 'instr': 15}),
                  ('status', 'image'), 'random')
