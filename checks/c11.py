"""C11: data directives emit exactly the documented bytes."""
import random
import struct

from lib import build, core, formats, scale
from lib.core import Case

RULE = ('For every data directive: every printable and 8-bit character, every byte value and truncation boundary, lists of '
        '1..200 mixed strings and numbers, symbols before and after their definition, floats, escapes, fills of every '
        'length 0..300 and around powers of two up to 60000, alignments of every size from every start address; the '
        'expected bytes are computed from the values chosen, without parsing. Wrong numbers or types of argument and '
        'negative counts must be rejected. Also compared with the model. Non-trivial: a distinct directive line checked.')


def vdg(c, inv):
    """The manual: FCV/FCI translate ASCII to VDG character codes."""
    if c >= 0x80:
        return c
    v = c & 0x3f if c >= 0x20 else c
    if 0x60 < c < 0x80:
        v = c - 0x60                      # lower case: low codes
    elif c == 0x60:
        v = 0x20
    elif 0x20 <= c < 0x40:
        v = c + 0x40
    elif 0x40 <= c < 0x60:
        v = c
    return v ^ 0x40 if inv else v


def quote(r, bs):
    d = r.choice('"/')
    o = ''
    for b in bs:
        c = chr(b)
        if b == 10:
            o += '\\n'
        elif b == 13:
            o += '\\r'
        elif c == d or c == '\\':
            o += '\\' + c
        elif c == '&':
            o += '&&'
        elif r.random() < 0.03 and c not in '0123456789{nr':
            o += '\\' + c
        else:
            o += c
    return d + o + d


def number(r, v):
    if v < 0:
        return '-%d' % -v if r.random() < 0.7 else '-$%x' % -v
    return r.choice(['%d' % v, '$%x' % v, '0x%X' % v, '@%o' % v]) if r.random() < 0.9 else '%' + bin(v)[2:]


def make(seed):
    r = random.Random(seed)
    src, late, want = [' org $100'], [], bytearray()
    lines = []
    for i in range(r.choice([1, 5, 20])):
        d = r.choice(['fcb', 'fcc', 'fcn', 'fcs', 'fcv', 'fci', 'fdb', 'fqb', 'fill', 'rzb', 'zmb', 'bsz', 'fzb', 'align'])
        name = r.choice([d, d.upper(), d.capitalize()])
        args, out = [], bytearray()

        def num():
            v = r.choice([r.randrange(256), r.randrange(-200, 70000), r.randrange(-(1 << 40), 1 << 40),
                          r.choice([0, 1, 127, 128, 255, 256, -1, -128, -129, 32767, 32768, 65535, 65536, -32768, (1 << 31), (1 << 32) - 1, 1 << 32])])
            k = r.random()
            if k < 0.7:
                return v, number(r, v)
            if k < 0.8:
                src.append('n%d_%d equ %d' % (i, len(args), v))
                return v, 'n%d_%d' % (i, len(args))
            if k < 0.9:
                late.append('n%d_%d equ %d' % (i, len(args), v))
                return v, 'n%d_%d' % (i, len(args))
            f = v + r.choice([0.25, 0.5, 0.75]) if abs(v) < 1 << 30 else float(v)
            t = '%.4f' % f
            if t[0] == '-':
                t = '(0%s)' % t if False else t
            return int(f), t
        if d in ('fdb', 'fqb'):
            for _ in range(r.choice([1, 1, 2, 5, 70])):
                v, t = num()
                args.append(t)
                out += struct.pack('>I', v & 0xffffffff)[2 if d == 'fdb' else 0:]
        elif d[:2] == 'fc':
            for _ in range(r.choice([1, 1, 2, 3, 8, 70])):
                if r.random() < 0.6:
                    n = r.choice([1, 2, 5, 20, 130])
                    bs = [r.choice([r.randrange(0x20, 0x7f), r.randrange(0x20, 0x7f), 10, 13, r.randrange(0x80, 0x100), r.randrange(1, 32)]) for _ in range(n)]
                    bs = [b if b not in (9, 11, 12) else 65 for b in bs]
                    args.append(quote(r, bs))
                    if d == 'fcs':
                        bs[-1] |= 0x80
                    if d == 'fcv':
                        bs = [vdg(b, False) for b in bs]
                    if d == 'fci':
                        bs = [vdg(b, True) for b in bs]
                    out += bytes(bs)
                else:
                    v, t = num()
                    args.append(t)
                    out.append((v & 0xff) | (0x80 if d == 'fcs' else 0))
            if d == 'fcn':
                out.append(0)
        elif d == 'align':
            n = r.choice([1, 2, 3, 4, 7, 8, 16, 64, 100, 256, 1000, r.randrange(1, 2000)])
            v = r.randrange(-300, 300)
            args = [number(r, n), number(r, v)]
            pad = -(0x100 + len(want)) % n
            out += bytes([v & 255]) * pad
        else:
            n = r.choice([0, 1, 2, 31, 32, 33, 127, 128, 129, 255, 256, 257, r.randrange(600), r.choice([1000, 4095, 4096, 4097])])
            v = r.randrange(-300, 70000)
            if d == 'fill':
                args = [number(r, v), number(r, n)]
            else:
                args = [number(r, n)]
                if r.random() < 0.5:
                    args.append(number(r, v))
                else:
                    v = 0
            out += bytes([v & 255]) * n
        if len(want) + len(out) > 0xf000:
            continue
        sp = r.choice(['', '', ' ', '  '])
        src.append(' %s %s' % (name, (',' + sp).join(args)))
        lines.append((src[-1], len(want), len(out)))
        want += out
    case = Case(src + late)
    return case, bytes(want), lines


def job(exe):
    def f(seed):
        case, want, lines = make(seed)
        res = core.compare(exe, case, ('status', 'image'))
        out = core.trim(res)
        if res.get('kind') == 'crash' or res['verdict'] == 'undecided':
            if res['verdict'] == 'undecided':
                run = core.run_tool(exe, case.files, case.args(('out',)), ('out',))
                res = dict(res, run=run)
                out.update(verdict='ok', why='', digest=case.digest())
            else:
                return out
        run = res['run']

        def bad(kind, why):
            out.update(verdict='bad', kind=kind, why=why, case=case)
            return out
        if run.rc != 0:
            return bad('rejected', 'valid data rejected: %s' % run.err[:300])
        mem = formats.srec(run.files['out'])[0]
        for ln, off, n in lines:
            got = bytes(mem[a] if a in mem else 0 for a in range(0x100 + off, 0x100 + off + n))
            if got != want[off:off + n] or any(a not in mem for a in range(0x100 + off, 0x100 + off + n)):
                return bad('bytes', '%r emits %s, expected %s' % (ln[:150], got.hex()[:120], want[off:off + n].hex()[:120]))
        if len(mem) != len(want):
            return bad('length', '%d bytes emitted, expected %d' % (len(mem), len(want)))
        out['extra'] = {'directives checked': len(lines), 'bytes checked': len(want)}
        return out
    return f


def run(ctx):
    ctx.rule = RULE
    exe = build.build('plain')
    from checks.c09 import drive
    base = '%s/%d/' % (ctx.prop, ctx.seed)
    for i in range(3):
        ctx.sample(make(base + str(i))[0].files['main.s'].decode('latin-1')[:400])
    drive(ctx, job(exe), [base + str(i) for i in range(ctx.n(2500, 60000))], 'data')
    r = ctx.rng
    cases = []
    # every character through every string directive
    for d in ('fcb', 'fcc', 'fcn', 'fcs', 'fcv', 'fci'):
        src = []
        for c in range(1, 256):
            if c in (10, 13):
                src.append(' %s "\\%s"' % (d, 'n' if c == 10 else 'r'))
            else:
                ch = chr(c)
                if ch == '"' or ch == '\\':
                    ch = '\\' + ch
                src.append(' %s "%s"' % (d, ch))
                src.append(' %s "x%sy"' % (d, ch))
        cases.append(Case(src))
        cases.append(Case([' %s %d' % (d, v) for v in range(-260, 520)]))
    for d in ('fdb', 'fqb'):
        cases.append(Case([' %s %d' % (d, v + o) for v in (0, 1 << 7, 1 << 8, 1 << 15, 1 << 16, 1 << 24, 1 << 31, 1 << 32, 1 << 33, -(1 << 15), -(1 << 16), -(1 << 31), -(1 << 32), 1 << 62)
                           for o in (-2, -1, 0, 1, 2)]))
    for n in list(range(0, 300)) + [511, 512, 513, 1023, 1024, 1025, 4095, 4096, 4097, 32767, 32768, 60000, 65535, 65536]:
        d = r.choice(['fill', 'rzb', 'zmb', 'bsz', 'fzb'])
        cases.append(Case([' %s %s' % (d, '$a5,%d' % n if d == 'fill' else '%d,$5a' % n)]))
    for start in list(range(0, 20)) + [255, 256, 257, 0x7fff, 0x8000]:
        src = []
        cases.append(Case([' org %d' % start, ' fcb 1', ' align %d,$11' % r.choice([2, 4, 8, 16, 5, 256]), ' fcb 2',
                           ' align %d' % r.choice([2, 4, 8, 16, 5, 256]), ' fcb 3']))
    core.campaign(ctx, exe, cases, ('status', 'image'), 'sweep')
    neg = []
    dirs = ['fcb', 'fcc', 'fcn', 'fcs', 'fcv', 'fci', 'fdb', 'fqb', 'fill', 'rzb', 'zmb', 'bsz', 'fzb', 'align', 'rmb']
    for d in dirs:
        for a in ('', 'x', '[1]', '"a"', '1', '-1', '1,x', '1,-1', '-1,1', '1,2', '1,2,3', '"a",1', '1,"a"', 'und', '1,und', 'und,1', ',', '1,', ',1', '1,,2',
                  'a,b', '1.5', '1.5,2', '2,1.5', '1e3', '""', '"abc', '#1', '#1,#2', '1,[2]', '99999999999', '0', '0,0', '-0', '65537,1', '1,65537', '5 6', '1/0',
                  '0,9', '1,99999999999', '-99999999999,1', '(1', '1)', "'", "''", '*', '*,*', '"a""b"', '"a"+1', '"a","b"', '<1', '>1,2'):
            neg.append(Case([' org $10', ' %s %s' % (d, a), ' fcb $ee']))
    core.campaign(ctx, exe, neg, ('status', 'image'), 'arguments')
    core.campaign(ctx, exe, scale.arguments() + scale.binaries(), ('status', 'image', 'symbols'), 'large')
    # alignment to any number, from any address
    cases = []
    for at in (-260, -7, -3, -1, 0, 1, 5, 100, 0x7ffe, 0xff00):
        for n in (1, 2, 3, 5, 6, 7, 10, 12, 24, 100, 129, 255, 256, 257, 1000, 4097):
            cases.append(Case([' org %d' % at, ' put 0', ' align %d%s' % (n, r.choice(['', ',7'])), 'here equ *', ' org 256', ' nop']))
    core.campaign(ctx, exe, cases, ('status', 'image', 'symbols'), 'alignment')
    core.campaign(ctx, exe, core.randoms(ctx, ctx.n(700, 15000), weights={'data': 60, 'rmb': 8, 'align': 8, 'instr': 10}),
                  ('status', 'image'), 'random')
