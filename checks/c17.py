"""C17: the listing shows every line with the address and bytes it produced."""
import random
import re

from lib import build, core, formats, gen, scale
from lib.core import Case
from checks.c09 import drive

RULE = ('Random programs with macros, included files, conditions, sections, ORG and PUT, forward references that move lines between passes, '
        'tabs, comments and long data. Three oracles: programs whose ORG and PUT go separate ways, with the bytes of each line known; the reference model gives the whole listing, line for line; and the listing is '
        'read back on its own: its text must be the source lines in order (macros and files in place), the bytes listed at the '
        'addresses listed must be the output image, each once, and the value against each definition that of the symbols file. '
        'Non-trivial: a distinct program with a listing of five lines or more.')


def expand(t):
    out = ''
    for c in t:
        if c == '\t':
            out += ' ' * (8 - len(out) % 8)
        else:
            out += c
    return out


def parse(lst):
    """[(address, bytes, text)]"""
    out = []
    ls = lst.split('\n')
    if ls and ls[-1] == '':
        ls.pop()
    else:
        raise ValueError('listing does not end with a newline')
    for l in ls:
        m = re.match(r'^([0-9A-F]{4})  ((?:[0-9A-F]{2})*) (.*)$', l, re.S)
        if m:
            a, h = int(m.group(1), 16), m.group(2)
            n = 6 + len(h) + 1
        else:
            if not l.startswith(' ' * 22):
                raise ValueError('cannot be read: %r' % l[:80])
            a, h, n = None, '', 1
        n = max(n, 22)
        pad = l[(6 + len(h)) if m else 0:n]
        if pad.strip(' '):
            raise ValueError('cannot be read: %r' % l[:80])
        out.append((a, bytes.fromhex(h), l[n:]))
    return out


def weave(files, main, macros, depth=0):
    """Source lines in the order they are processed, for programs whose macros
    and files are known by the plain spellings used here."""
    out = []
    defining = None
    for l in files[main].decode('latin-1').split('\n')[:-1]:
        out.append(l)
        if defining is not None:
            if l == ' endm':
                defining = None
            else:
                macros[defining].append(l)
            continue
        m = re.match(r'^(\w+) macro$', l)
        if m:
            defining = m.group(1)
            macros[defining] = []
            continue
        weave_one(l, out, files, macros)
    return out


def weave_one(l, out, files, macros):
    m = re.match(r'^\w* include "(.*)"$', l)
    if m:
        out += weave(files, m.group(1), macros)
        return
    m = re.match(r'^\w* (mac\d+)(?: .*)?$', l)
    if m and m.group(1) in macros:
        for b in macros[m.group(1)]:
            out.append(b)
            weave_one(b, out, files, macros)


def make(seed):
    """A program of plain spellings, and what each line should show."""
    r = random.Random(seed)
    files = {}
    nl = [0]
    macs = []
    late = []
    use_put = r.random() < 0.2
    slot = [0]

    def comment():
        return r.choice(['', '', '', ' ; text', '\t; a\tb', ' ;\t\t"x', ' ; ' + 'long ' * r.randrange(40)])

    def item(depth, inmac=False):
        k = r.random()
        nl[0] += 1
        lab = 'l%d' % nl[0] if not inmac and r.random() < 0.4 else ''
        sep = r.choice([' ', '\t', '   ', ' \t '])
        if k < 0.3:
            return [lab + sep + r.choice(['nop', 'ldx #$1234', 'lda <$10', 'leax 5,y', 'std [$1000]', 'lbsr *+500', 'leay later,pcr', 'lda later', 'bra *', 'ldd #later']) + comment()]
        if k < 0.5:
            n = r.choice([1, 2, 3, 7, 8, 9, 40])
            return [lab + sep + r.choice(['fcb ', 'fdb ', 'fqb ']) + ','.join(str(r.randrange(256)) for _ in range(n)) + comment()]
        if k < 0.6:
            return [lab + sep + r.choice(['rmb ', 'align ', 'rzb ', 'fill 7,']) + str(r.choice([1, 2, 8, 100, 300])) + comment()]
        if k < 0.65:
            return [lab + sep + 'fcc "%s"' % ''.join(r.choice('abc\tXYZ ;') for _ in range(r.randrange(1, 60))) + comment()]
        if k < 0.7:
            nl[0] += 1
            if inmac:
                return ['']
            return ['k%d equ %s' % (nl[0], r.choice(['5', '-1', '*', 'later', '$12345', '"ab"', 'later+1'])) + comment()]
        if k < 0.75:
            return [r.choice(['', '; only a comment', '* star\tcomment', '\t\t', '   ', '\t; indented'])]
        if k < 0.8 and not inmac:
            slot[0] += 1
            if use_put and r.random() < 0.5:
                return [' put $%x' % (0x8000 + slot[0] * 0x800 + r.randrange(256))] if slot[0] < 15 else ['']
            return [lab + ' org $%x' % (slot[0] * 0x700 + r.randrange(256))] if slot[0] < (15 if use_put else 80) else ['']
        if k < 0.85:
            c = r.choice(['0', '1', 'later', 'k0'])
            a = item(depth, inmac) if r.random() < 0.8 else ['']
            if any(' macro' in x or 'mac' in x or 'include' in x for x in a):
                a = [' nop']
            b = [' clra'] if r.random() < 0.5 else []
            return [' if ' + c] + a + ([' else'] + b if b else []) + [' endif']
        if k < 0.9 and depth < 4 and not inmac:
            name = 'f%d.s' % nl[0]
            body = []
            for _ in range(r.randrange(0, 6)):
                body += item(depth + 1)
            files[name] = (''.join(l + '\n' for l in body)).encode()
            return ['%s include "%s"' % (lab, name)]
        if macs:
            return ['%s %s%s' % (lab, r.choice(macs), r.choice(['', ' 5', ' "a",x']))]
        return [lab + ' rts']
    out = [' org $100', 'k0 equ 1']
    for i in range(r.choice([0, 1, 3])):
        body = []
        for _ in range(r.randrange(0, 5)):
            body += item(5, True)
        out += ['mac%d macro' % i] + body + [' endm']
        macs.append('mac%d' % i)
    for _ in range(r.choice([3, 6, 12, 30])):
        out += item(0)
    out += ['later equ %s' % r.choice(['5', '$100', '300', '$1234'])]
    files['main.s'] = (''.join(l + '\n' for l in out)).encode()
    return Case(files=files), use_put


def job(exe):
    def f(seed):
        case, use_put = make(seed)
        res = core.compare(exe, case, ('status', 'image', 'listing', 'symbols'))
        out = core.trim(res)
        if res.get('kind') == 'crash':
            return out
        run = core.run_tool(exe, case.files, case.args(), ('out', 'lst', 'sym'))

        def bad(k, why):
            out.update(verdict='bad', kind=k, why=why, case=case)
            return out
        if run.rc != 0:
            out['extra'] = {'read back: rejected': 1}
            return out
        quiet = core.run_tool(exe, case.files, case.args(('out',)), ('out',))
        if quiet.rc != 0 or quiet.files['out'] != run.files['out']:
            return bad('effect', 'asking for a listing changes the output')
        try:
            lst = parse(run.files['lst'].decode('latin-1'))
        except ValueError as e:
            return bad('format', 'listing %s' % e)
        want = weave(case.files, 'main.s', {})
        if [t for a, b, t in lst] != [expand(t) for t in want]:
            for i, ((a, b, t), w) in enumerate(zip(lst, want)):
                if t != expand(w):
                    return bad('text', 'listing line %d has text %r, the source line there is %r' % (i + 1, t[:100], w[:100]))
            return bad('lines', 'listing has %d lines, %d source lines were processed' % (len(lst), len(want)))
        mem = formats.srec(run.files['out'])[0]
        if not use_put:
            got = {}
            for a, b, t in lst:
                for i, x in enumerate(b):
                    if a + i in got:
                        return bad('twice', 'byte at %04X is listed twice' % (a + i))
                    got[a + i] = x
            d = core.diff_mem(got, mem)
            if d:
                return bad('bytes', 'bytes listed are not those output: %s' % d)
        else:
            if sum(len(b) for a, b, t in lst) != len(mem):
                return bad('bytes', 'listing shows %d bytes, output has %d' % (sum(len(b) for a, b, t in lst), len(mem)))
        syms = core.parse_symbols(run.files['sym'])[0]
        n = 0
        for a, b, t in lst:
            m = re.match(r'^([lk]\d+|later)\b', t)
            if m and m.group(1) in syms:
                ty, v = core.sym_text(syms[m.group(1)])
                if ty == 'int':
                    n += 1
                    if a != v & 0xffff:
                        return bad('value', 'listing shows %s for %s, the symbols file %s' % ('nothing' if a is None else '%04X' % a, m.group(1), syms[m.group(1)]))
        out['extra'] = {'read back: lines': len(lst), 'read back: bytes': len(mem), 'read back: values': n}
        return out
    return f


def make_apart(seed):
    """Where code is assembled and where it is put go separate ways, and meet
    again.  Returns the program, the bytes each line shows, and the image."""
    r = random.Random(seed)
    src, want, mem = [], [], {}
    pc = put = 0
    top = 0                 # put addresses from here on are free
    used = []
    for _ in range(r.choice([2, 3, 5, 12, 30])):
        k = r.randrange(9)
        if k < 2:           # put goes on, pc jumps: the end of the data, or back to it
            pc = r.choice([r.randrange(0x8000), put + 1, pc + r.choice([1, 16, 256]), 0] + used + used[-1:])
            src += [' org $%x' % pc, ' put $%x' % put]
            want += [None, None]
        elif k == 2 and top < 0xf000:         # pc goes on, put jumps
            put = top = top + r.choice([1, 2, 100, 0x100])
            src.append(' put $%x' % put)
            want.append(None)
        elif k == 3 and top < 0xf000:         # both jump
            pc = put = top = top + r.choice([1, 2, 128, 0x100])
            src.append(' org $%x' % pc)
            want.append(None)
        elif k == 4 and top < 0xf000:
            n = r.choice([0, 1, 5, 200])
            src.append(' rmb %d' % n)
            pc, put = pc + n, put + n
            top = max(top, put)
            want.append(None)
        elif k == 5:        # neither really moves
            src += [' org $%x' % pc, ' put $%x' % put]
            want += [None, None]
        n = r.choice([1, 2, 3, 7, 8, 127, 128, 129, 300]) if r.random() < 0.4 else r.randrange(1, 6)
        if top + n > 0xff00 or pc + n > 0xff00:
            continue
        b = bytes(r.randrange(256) for _ in range(n))
        src.append(' fcb ' + ','.join(map(str, b)))
        want.append((pc, b))
        for i, x in enumerate(b):
            mem[put + i] = x
        used.append(pc)
        pc, put = pc + n, put + n
        used.append(pc)
        top = max(top, put)
    return Case(src), want, mem


def job_apart(exe):
    def f(seed):
        case, want, mem = make_apart(seed)
        res = core.compare(exe, case, ('status', 'image', 'listing'))
        out = core.trim(res)
        if res['verdict'] == 'bad':
            return out
        run = res['run']

        def bad(k, why):
            out.update(verdict='bad', kind=k, why=why, case=case)
            return out
        if run.rc != 0:
            return bad('status', 'exit %s: %s' % (run.rc, run.err[:200]))
        d = core.diff_mem(formats.srec(run.files['out'])[0], mem)
        if d:
            return bad('image', d)
        try:
            lst = parse(run.files['lst'].decode('latin-1'))
        except ValueError as e:
            return bad('format', 'listing %s' % e)
        if len(lst) != len(want):
            return bad('lines', 'listing has %d lines, the program %d' % (len(lst), len(want)))
        n = 0
        for i, ((a, b, t), w) in enumerate(zip(lst, want)):
            if b != (w[1] if w else b'') or (w and a != w[0]):
                return bad('apart', 'listing line %d shows %s %s, assembled was %s' % (
                    i + 1, a is not None and '%04X' % a, b.hex()[:80], w and '%04X %s' % (w[0], w[1].hex()[:80])))
            n += len(b)
        out['extra'] = {'put apart from org: bytes listed': n}
        return out
    return f


SMALL = [
    [' nop'], [' nop', '', ' rts'], ['; x'], ['\t\t; x\t\ty'], ['l1\tnop\t\t; c'], ['l1'], ['l1 ; c'], ['l equ 5', 'm equ -5', 'n equ 1.5', 'o equ "ab"', 'p equ x', 'q equ $12345'], ['l set 1', 'l set 2', 'l set l+1'],
    [' fcc "' + 'x' * 300 + '"'], [' rzb 5000'], [' fill $ff,129'], [' rmb 10', ' nop'], [' align 16', ' nop'], [' align 16,$12', ' nop'], [' nop', ' align 16,$12', ' nop'], [' org $1000', ' put $2000', ' nop', ' put $100', ' nop'],
    [' data', ' org 5', ' nop', ' code', ' nop', ' data', ' nop', ' bss', 'l rmb 2', ' fdb l'], [' setdp 5', ' lda $510'], [' section "a b"', 'l nop'], ['l section "q"', ' nop'], ['l org $500', ' nop'], ['l put $500', ' nop'], ['l rmb 5', ' nop'],
    ['l export', ' export l'], [' opt x', ' ttl abc', ' sttl ,', ' page', ' spc 5', ' nam a', ' name b'], ['m macro', ' nop', ' fcb \\1', ' endm', ' m 1', 'l m 2', ' fdb l'], ['m macro', '\tnop\t; t', ' endm', '\tm'],
    ['m macro', ' endm', ' m', ' m'], [' if 0', ' nop', ' bad bad bad', ' else', ' nop', ' endif'], [' if 1', 'm macro', ' nop', ' endm', ' endif', ' m'], [' if 0', 'm macro', ' nop', ' endm', ' endif', ' nop'], [' end', ' nop'], [' end 5'], ['l end', ' nop'],
    [' lda f', ' lda <f', 'f equ 5'], [' bra f', ' lbra f', 'f'], [' leax f,pcr', ' rmb 100', 'f nop'], ['1 nop', '! nop', ' bra <', ' bra 1b'], [' org $fffe', ' fdb 1', 'l'], [' org $fff0', ' rmb 16', 'l'], [' fcb', ' nop'],
    ['\x0c nop'] , ['l\x7f nop'], [' nop ; \xe9\xff'], [' fcc "\xe9\x80"'], [' fcb 1,2,3,4,5,6,7,8'], [' fcb 1,2,3,4,5,6,7'], [' fcb 1,2,3,4,5,6,7,8,9'], [' fcb 1,2,3,4,5,6,7 ; ' + 'y' * 300],
    [' fcb ' + ','.join(['1'] * 127)], [' fcb ' + ','.join(['1'] * 128)], [' fcb ' + ','.join(['1'] * 129)], [' fcb ' + ','.join(['1'] * 126), ' fdb 5'], [' fcb ' + ','.join(['1'] * 127), ' fdb 5'], [' rzb 127', ' ldx #5', ' rzb 126', ' fqb 7'],
]


def run(ctx):
    ctx.rule = RULE
    exe = build.build('plain')
    base = '%s/%d/' % (ctx.prop, ctx.seed)
    ctx.sample(make(base + '0')[0].files['main.s'].decode('latin-1')[:500])
    drive(ctx, job(exe), [base + str(i) for i in range(ctx.n(1500, 30000))], 'read')
    drive(ctx, job_apart(exe), [base + 'A%d' % i for i in range(ctx.n(500, 10000))], 'apart')
    cases = [Case(s, isa6309=b) for s in SMALL for b in (False, True)]
    cases += [Case(files={'main.s': b' nop\n include "i.s"\n\trts\n', 'i.s': '\n'.join(s).encode('latin-1')}) for s in SMALL]
    cases += [Case(files={'a.s': '\n'.join(s).encode('latin-1'), 'b.s': b'', 'c.s': b'\n', 'd.s': b' nop'}, mains=['a.s', 'b.s', 'c.s', 'd.s']) for s in SMALL]
    core.campaign(ctx, exe, cases, ('status', 'listing', 'image'), 'small')
    core.campaign(ctx, exe, scale.edges() + scale.depths(), ('status', 'listing'), 'edges')
    core.campaign(ctx, exe, scale.lines() + scale.macros() + scale.arguments(), ('status', 'listing'), 'large')
    core.campaign(ctx, exe, core.randoms(ctx, ctx.n(900, 20000), weights={'macrouse': 12, 'macrodef': 5, 'include': 4, 'if': 8, 'org': 6, 'put': 4, 'section': 4, 'equ': 8, 'set': 5},
                                         nonascii=True), ('status', 'listing'), 'random')
