"""C16: every output format encodes the same memory image and EXEC address."""
import os
import random
import subprocess

from lib import build, core, formats
from lib.core import Case
from checks.c09 import drive

RULE = ('Random memory images of 0 to 40 blocks (sizes around 1, 31..33, 127..129, 255..257, 4K, 32K, 64K; adjacent, with gaps, in any '
        'order, at 0 and at the end of memory), written with FCB, FILL, FCC or INCLUDEBIN after ORG or PUT in one or several sections, with the EXEC '
        'address from the option (number in any base, or symbol), END (number, label, expression, *), both or neither. Each is '
        'assembled to all five formats; decoders written from the format definitions, and objcopy for SREC and Intel '
        'HEX, must give the image and EXEC address the generator placed. Images a format cannot hold must be an error with no '
        'file left behind. Non-trivial: a distinct image.')

FMTS = ['binary', 'dragondos', 'coco', 'srec', 'hex']


def blocks(r):
    """List of (address, bytes), not overlapping, in random order."""
    k = r.random()
    if k < 0.04:
        return []
    if k < 0.16:
        # one big block
        n = r.choice([32767, 32768, 32769, 65534, 65535, 65536, r.randrange(20000, 65536)])
        a = r.choice([0, max(0, 0x10000 - n), max(0, (0x10000 - n) // 2)])
        return [(a, r.randbytes(n))]
    out = []
    free = [(0, 0x10000)]
    near = r.random() < 0.4
    for _ in range(r.choice([1, 1, 2, 3, 5, 10, 40])):
        n = r.choice([1, 1, 2, 3, 5, 31, 32, 33, 34, 63, 64, 65, 126, 127, 128, 129, 130, 254, 255, 256, 257, 300, 511, 513] + ([4095, 4096, 4097, 8192, 16000] if r.random() < 0.2 else []))
        if near and out:
            a = r.choice(out)
            at = r.choice([a[0] + len(a[1]), a[0] - n, a[0] + len(a[1]) + 1, a[0] - n - 1])
        else:
            at = r.choice([0, 0x10000 - n, r.randrange(0, 0x10000 - n), r.randrange(0, 16) * 0x1000, r.randrange(256), 0x7fff, 0xfffe, 0xff00])
        if at < 0 or at + n > 0x10000 or any(at < b + len(d) and b < at + n for b, d in out):
            continue
        c = r.random()
        d = bytes([r.randrange(256)]) * n if c < 0.2 else r.randbytes(n) if c < 0.9 else bytes(i & 255 for i in range(n))
        out.append((at, d))
    r.shuffle(out)
    if near and r.random() < 0.5:
        out.sort()
    return out


def source(r, bl):
    """A program that puts these blocks there; returns lines, files."""
    lines, files = [], {}
    secs = r.choice([['CODE'], ['CODE'], ['CODE', 'DATA', 'two']])
    pcs = {s: None for s in secs}
    cur = 'CODE'
    lines.append(' section "CODE"')
    for i, (a, d) in enumerate(bl):
        s = r.choice(secs)
        if s != cur:
            lines.append(' section "%s"' % s)
            cur = s
        if pcs[cur] == (a, True) and r.random() < 0.6:
            pass                # already there
        elif r.random() < 0.3 and len(d) < 0x8000:
            # assembled for one place, put in another
            lines.append(' org $%x' % r.randrange(0, 0x10000 - len(d)))
            lines.append(' put %s' % r.choice(['$%x', '%d', '0x%04x']) % a)
            pcs[cur] = None
        else:
            lines.append(' org %s' % (r.choice(['$%x', '%d', '0x%04x']) % a))
        if i == 0 or r.random() < 0.2:
            lines.append('b%d' % i)
        same = len(set(d)) == 1
        c = r.random()
        if len(d) > 3000 or c < 0.1:
            f = 'd%d.bin' % i
            files[f] = d
            lines.append(' includebin "%s"' % f)
        elif same and c < 0.7:
            lines.append(' fill %d,%d' % (d[0], len(d)))
        else:
            p = 0
            while p < len(d):
                n = r.choice([1, 2, 8, 50])
                lines.append(' fcb ' + ','.join(str(b) for b in d[p:p + n]))
                p += n
        pcs[cur] = (a + len(d), True) if not lines[-1].startswith(' put') else None
        if any(l.startswith(' put') for l in lines[-4:]):
            pcs[cur] = None
    return lines, files


def make(seed):
    r = random.Random(seed)
    bl = blocks(r)
    lines, files = source(r, bl)
    ex = None
    opt = None
    v = r.choice([0, 1, 0x1234, 0x8000, 0xffff, r.randrange(0x10000)])
    how = r.choice(['none', 'none', 'end', 'end', 'opt', 'both', 'symbol', 'label', 'bare', 'here'])
    lines.append('sym equ $%x' % v)
    if how in ('end', 'both'):
        lines.append(' end ' + r.choice(['$%x' % v, str(v), 'sym', 'sym+0', '0x%x' % v, '(sym)', '%d+%d' % (v - v // 2, v // 2)]))
        ex = v
    elif how == 'bare':
        lines.append(' end')
    elif how == 'here':
        lines += [' section "else"', ' org $%x' % v, ' end *']
        ex = v
    if how in ('opt', 'both'):
        w = r.choice([0, 1, 0xabc, 0x8000, 0xffff, r.randrange(0x10000)])
        ex = w
        opt = r.choice(['%d', '0x%x', '$%x', '0X%X'[:2].lower() + '%X', '%%%s' % bin(w)[2:] if w else '%d', '@%o', '0b%s' % bin(w)[2:]])
        opt = opt % w if opt.count('%') == 1 and '%%' not in opt and not opt.startswith('%1') else opt
    elif how == 'symbol':
        opt = 'sym'
        ex = v
    elif how == 'label' and bl and any(l == 'b0' for l in lines):
        # only if assembled where it is put
        i = lines.index('b0')
        if lines[i - 1].startswith(' org'):
            opt = 'b0'
            ex = bl[0][0]
    return bl, lines, files, ex, opt, how


def check(fmt, data, bl, ex):
    """None, or what is wrong with this file."""
    mem = {}
    for a, d in bl:
        for i, b in enumerate(d):
            mem[a + i] = b
    lo, hi = (min(mem), max(mem) + 1) if mem else (0, 0)
    blob = bytes(mem.get(i, 0) for i in range(lo, hi))
    if fmt == 'binary':
        if data != blob:
            return 'binary file is %d bytes, differs from the %d byte image' % (len(data), len(blob))
        return None
    try:
        got, gx, notes = formats.DECODE[fmt](data)
    except formats.Bad as e:
        return 'malformed: %s' % e
    want = mem
    if fmt == 'dragondos':
        want = {lo + i: b for i, b in enumerate(blob)}
        if mem and notes['load'] != lo:
            return 'load address %04X, expected %04X' % (notes['load'], lo)
    d = core.diff_mem(got, want)
    if d:
        return 'image differs ' + d
    if ex is None:
        if fmt in ('srec', 'hex'):
            wx = 0
        elif not mem:
            return None
        else:
            wx = lo
    else:
        wx = ex
    if gx != wx:
        return 'EXEC address is %r, expected %r' % (gx, wx)
    return None


def representable(fmt, bl):
    if fmt == 'binary':
        return True
    runs = []
    for a, d in sorted(bl):
        if runs and runs[-1][1] == a:
            runs[-1][1] = a + len(d)
        else:
            runs.append([a, a + len(d)])
    if fmt == 'coco':
        return all(y - x < 0x10000 for x, y in runs)
    if fmt == 'dragondos':
        return not runs or runs[-1][1] - runs[0][0] < 0x10000
    return True


def objcopy(kind, data, bl):
    """What binutils makes of it."""
    d = core.workdir()
    with open(os.path.join(d, 'in.hex'), 'wb') as f:
        f.write(data)
    p = subprocess.run(['objcopy', '-I', kind, '-O', 'binary', '--gap-fill', '0', 'in.hex', 'out.bin'], cwd=d, capture_output=True)
    if p.returncode:
        return 'objcopy cannot read it: %s' % p.stderr[:200]
    mem = {}
    for a, b in bl:
        for i, x in enumerate(b):
            mem[a + i] = x
    lo, hi = min(mem), max(mem) + 1
    got = open(os.path.join(d, 'out.bin'), 'rb').read()
    if got != bytes(mem.get(i, 0) for i in range(lo, hi)):
        return 'objcopy makes a different image of it'
    return None


def job(exe, have_objcopy):
    def f(seed):
        bl, lines, files, ex, opt, how = make(seed)
        files = dict(files)
        files['main.s'] = ('\n'.join(lines) + '\n').encode()
        extra = {}
        out = {'verdict': 'ok', 'digest': None}
        for fmt in FMTS:
            case = Case(files=files, fmt=fmt, exec_opt=opt)
            out['digest'] = out['digest'] or case.digest()
            run = core.run_tool(exe, files, case.args(('out',)), ('out',))
            ok = representable(fmt, bl)
            why = None
            if not run.clean:
                why = 'ended with ' + run.status()
            elif ok and run.rc != 0:
                why = 'rejected: %s' % run.err[:200]
            elif not ok and run.rc == 0:
                why = 'an image it cannot represent is accepted'
            elif not ok and run.files['out'] is not None:
                why = 'a file is left behind for an image it cannot represent'
            elif ok:
                why = check(fmt, run.files['out'], bl, ex)
                if not why and have_objcopy and bl and fmt in ('srec', 'hex'):
                    why = objcopy('srec' if fmt == 'srec' else 'ihex', run.files['out'], bl)
                    extra['read by objcopy'] = extra.get('read by objcopy', 0) + 1
            if why:
                out.update(verdict='bad', kind=fmt, why='%s: %s' % (fmt, why), case=case)
                return out
            extra[fmt + (' decoded' if ok else ' refused')] = extra.get(fmt, 0) + 1
        extra['EXEC from ' + how] = 1
        extra['blocks'] = len(bl)
        extra['bytes'] = sum(len(d) for a, d in bl)
        out['extra'] = extra
        return out
    return f


SMALL = [
    [' nop'], [''], [' rmb 5'], [' org $1000', ' rmb 5', ' nop'], [' nop', ' rmb 5', ' nop'], [' nop', ' rmb 5'], [' org $ffff', ' nop'], [' org $ffff', ' nop', ' nop'], [' put $ffff', ' nop', ' nop'],
    [' org $fffe', ' fdb 1', ' org 0', ' fdb 2'], [' org $10000', ' nop'], [' put $10000', ' nop'], [' put $12345', ' fcb 1,2,3'], [' org 0', ' put $fffff', ' nop'], [' put $10000', ' nop', ' put 0', ' nop'],
    [' org $8000', ' rzb $8000'], [' rzb $8000', ' rzb $8000'], [' rzb $ffff'], [' rzb $10000'], [' rzb $10001'], [' rzb $ffff', ' put $f0000', ' nop'], [' org 1', ' rzb $ffff'],
    [' fcb 1', ' org $ffff', ' fcb 2'], [' org $100', ' fcb 1', ' org $ff', ' fcb 2', ' org $101', ' fcb 3'], [' fcb 1', ' org 0', ' fcb 2'], [' fdb 1', ' org 1', ' fcb 2'],
    [' nop', ' end 5'], [' nop', ' end $12345'], [' nop', ' end -1'], [' nop', ' end 1.5'], [' nop', ' end "a"'], [' nop', ' end x'], [' nop', ' end [5]'], [' nop', ' end 1,2'], [' nop', ' end nowhere'], [' nop', 'l end l'],
    [' nop', ' end ,'], [' nop', ' end'], [' end 5'], [' end'], ['.exec equ 5', ' nop'], ['.exec equ 5', ' nop', ' end 6'],
    [' data', ' org $200', ' fcb 2', ' code', ' org $100', ' fcb 1'], [' data', ' fcb 2', ' code', ' fcb 1'], [' data', ' org 3', ' fcb 2', ' code', ' fcb 1,2,3'],
]


def run(ctx):
    ctx.rule = RULE
    exe = build.build('plain')
    base = '%s/%d/' % (ctx.prop, ctx.seed)
    for i in range(3):
        bl, lines, files, ex, opt, how = make(base + str(i))
        ctx.sample({'blocks': [('%04X' % a, len(d)) for a, d in bl], 'exec': how, 'source': lines[:20]})
    try:
        have = subprocess.run(['objcopy', '--version'], capture_output=True).returncode == 0
    except OSError:
        have = False
    if not have:
        ctx.assumptions.append('objcopy is not installed: its reading of SREC and Intel HEX was not compared')
    drive(ctx, job(exe, have), [base + str(i) for i in range(ctx.n(700, 12000))], 'image')
    cases = [Case(s, fmt=f, exec_opt=e) for s in SMALL for f in FMTS for e in (None, '$1234')]
    cases += [Case([' nop', 'sym equ $4321', 'str equ "ab"', 'flt equ 2.5', 'reg equ x', 'neg equ -1', 'big equ $10000', 'set1 set 7'], fmt=f, exec_opt=e)
              for f in FMTS for e in ('sym', 'str', 'flt', 'reg', 'neg', 'big', 'set1', 'none', 'Sym', '', '$', '0x', '12x', '-1', '65535', '65536', '99999999999', '1.5', 'sym+1', '*', ' 5', '5 ')]
    core.campaign(ctx, exe, cases, ('status', 'image', 'exec'), 'small')
    # every size of block up to 300, each format
    r = ctx.rng
    cases = []
    for n in range(0, 300) if ctx.quick else range(0, 1200):
        f = FMTS[n % 5] if ctx.quick else None
        for fmt in ([f, 'srec', 'hex'] if f else FMTS):
            cases.append(Case(files={'main.s': (' org $%x\n includebin "b"\n' % r.randrange(0, 0xf000)).encode(), 'b': r.randbytes(n)}, fmt=fmt))
    core.campaign(ctx, exe, cases, ('status', 'image', 'exec'), 'sizes')
    core.campaign(ctx, exe, core.randoms(ctx, ctx.n(400, 8000), weights={'org': 8, 'put': 8, 'section': 4, 'end': 2, 'rmb': 5}, fmts=FMTS, opts=True),
                  ('status', 'image', 'exec'), 'random')
