"""C24: command line options have exactly their documented effect."""
import os
import random
import re

from lib import build, core, formats, model
from lib.core import Case
from checks.c09 import drive
from checks.c23 import facts

RULE = ('Metamorphic: a program run with an option must do exactly what the same program does when the option is written as source (symbols '
        'defined on a line before it, SETDP at each section, END), or what the last of several such options would do alone, and however '
        'options are spelled (short, long, joined, abbreviated, before or after the files) and ordered; -q and -v must change only the warnings '
        'and show exactly the kinds they say; plus a comparison with the model and a table of invalid options, values and files that must '
        'exit 1 and write nothing. Non-trivial: a distinct program and option list.')

OUT = ('out', 'sym', 'lst', 'exp')
OUTARGS = ['-o', 'out', '-s', 'sym', '-l', 'lst', '-E', 'exp']


def spell_num(r, v):
    return r.choice(['%d' % v, '$%x' % v, '0x%X' % v, '@%o' % v, '$%04X' % v, '0x%x' % v, '%' + bin(v)[2:], '0b' + bin(v)[2:]])


def run_args(exe, files, args, out=OUT, **kw):
    return core.run_tool(exe, files, args, out, **kw)


def result(run, listing=True):
    if run.rc != 0:
        return ('rejected', None, None, None, None)
    so = lambda d: None if d is None else sorted(d.split(b'\n'))
    return ('assembled', run.files['out'], so(run.files['sym']), run.files['lst'] if listing else None, so(run.files['exp']))


def differ(a, b):
    if a == b:
        return None
    for n, x, y in zip(('status', 'output', 'symbols', 'listing', 'exports'), a, b):
        if x != y:
            if isinstance(x, list) and isinstance(y, list):
                return '%s differ: %s / %s' % (n, [i for i in x if i not in y][:3], [i for i in y if i not in x][:3])
            if isinstance(x, bytes) and isinstance(y, bytes):
                i = next((i for i, (p, q) in enumerate(zip(x, y)) if p != q), min(len(x), len(y)))
                return '%s differ from byte %d: %r / %r' % (n, i, x[i:i + 40], y[i:i + 40])
            return '%s: %s / %s' % (n, str(x)[:60], str(y)[:60])


class Job:
    def __init__(self, seed):
        self.r = random.Random(seed)
        self.out = {'verdict': 'ok', 'digest': None, 'extra': {}}

    def count(self, k, n=1):
        self.out['extra'][k] = self.out['extra'].get(k, 0) + n

    def bad(self, kind, why, files, args):
        raise Bad(kind, why, files, args)


class Bad(Exception):
    def __init__(self, kind, why, files, args):
        self.a = (kind, why, files, args)


def guard(f):
    def g(exe, seed):
        j = Job(seed)
        try:
            f(j, exe)
        except Bad as b:
            kind, why, files, args = b.a
            case = Case(files=files, mains=[], extra=args, fmt=None)
            j.out.update(verdict='bad', kind=kind, why='%s\n(options: %s)' % (why, ' '.join(args)), case=case)
        if j.out['digest'] is None:
            j.out['digest'] = '%s' % seed
        return j.out
    return lambda exe: (lambda seed: g(exe, seed))


def same(j, exe, what, files1, args1, files2, args2, listing=True):
    a = run_args(exe, files1, args1)
    b = run_args(exe, files2, args2)
    if a.timeout or b.timeout:
        j.count('no answer')
        return None
    for run, files, args in ((a, files1, args1), (b, files2, args2)):
        if not run.clean:
            j.bad('crash', 'ended with ' + run.status(), files, args)
    d = differ(result(a, listing), result(b, listing))
    j.count(what)
    j.count('comparisons')
    if d:
        j.bad(what.split(':')[0].replace(' ', '-'), '%s: %s (messages: %r / %r; against: %s)' % (what, d, a.err[:200], b.err[:200], ' '.join(args2)), dict(files1, **{'other/' + k: v for k, v in files2.items()}), args1)
    return a


def program(r, seed, **kw):
    w = {'include': 2, 'export': 3, 'section': 4, 'macrouse': 5, 'macrodef': 3}
    w.update(kw.pop('weights', {}))
    k = {'sizes': (3, 6, 10, 20, 40), 'weights': w}
    k.update(kw)
    return core.make_random(seed, k)


# --- defines

@guard
def defines(j, exe):
    r = j.r
    # a program that uses names it doesn't define
    names = ['DEF%d' % i for i in range(r.randrange(1, 6))] + ['def0', '_x.y']
    names = r.sample(names, r.randrange(1, len(names) + 1))
    c = program(r, 'c24d%s' % r.random())
    lines = c.files['main.s'].decode('latin-1').replace('\r\n', '\n').split('\n')
    use = []
    for _ in range(r.randrange(1, 8)):
        n = r.choice(names)
        use.append(r.choice([' fdb %s' % n, ' lda %s' % n, ' ldx #%s+1' % n, ' leax %s,y' % n, ' if %s\n fcb 1\n else\n fcb 2\n endif' % n,
                             ' if %s>100\n fcb 3\n endif' % n, ' fqb %s' % n, '%s_e equ %s*2' % (n + str(len(use)), n), ' rmb %s&7' % n, '%s set %s+1\n fdb %s' % (n, n, n),
                             '%s set 5\n fdb %s' % (n, n), ' jmp >%s' % n]))
    pos = r.choice([0, len(lines) // 2, 0])
    if c.files['main.s'][:1] in b'0123456789' or pos:
        pos = 0
    lines[pos:pos] = use
    if r.random() < 0.3:
        lines[0:0] = ['fwd_late set 0\n lda late_%d' % 1, 'late_1 equ late_2', 'late_2 equ 3']
    c.files['main.s'] = '\n'.join(lines).encode('latin-1')
    vals = {}
    for n in names:
        k = r.random()
        vals[n] = None if k < 0.25 else r.choice([0, 1, 2, 127, 128, 255, 256, 65535, 65536, 1 << 31, (1 << 63) - 1, r.randrange(100000)])
    pre = []
    opt = []
    changed = {n for n in names if any(u.startswith('%s set' % n) for u in use)}
    for n, v in vals.items():
        t = '1' if v is None else spell_num(r, v)
        pre.append('%s %s %s' % (n, 'set' if n in changed else 'equ', t))
        a = n if v is None else '%s=%s' % (n, t if r.random() < 0.5 else spell_num(r, v))
        opt += r.choice([['-d', a], ['-d' + a], ['--define', a], ['--define=' + a]])
    f2 = dict(c.files)
    f2['pre.s'] = ('\n'.join(pre) + '\n').encode()
    base = (['-3'] if c.isa6309 else []) + ['-S']
    # the listing has the line itself in it, so it isn't compared
    where = r.random()
    args1 = opt + base + OUTARGS + ['main.s'] if where < 0.4 else base + OUTARGS + opt + ['main.s'] if where < 0.8 else base + ['main.s'] + OUTARGS + opt
    run = same(j, exe, 'define', c.files, args1, f2, base + OUTARGS + ['pre.s', 'main.s'], listing=False)
    if run is not None and run.rc == 0:
        j.count('defines that took effect', len(names))


# --- direct page

@guard
def setdp(j, exe):
    r = j.r
    c = program(r, 'c24p%s' % r.random(), weights={'setdp': 0, 'section': 0, 'include': 0, 'if': 0, 'end': 0})
    lines = c.files['main.s'].decode('latin-1').replace('\r\n', '\n').split('\n')
    n = r.choice([0, 1, 0x12, 0x7f, 0x80, 0xff, 0x100, 0x1ff, 0x112, -1, -5, 0xff00, 65535])
    secs = ['"CODE"', '"one"', '"two"', '"three"']
    use = lambda: [' lda $%04x' % ((n & 255) << 8 | r.randrange(256)), ' ldx $%04x' % r.randrange(65536), ' sta $%02x' % r.randrange(256), ' jsr $%04x' % ((n & 255) << 8)]
    body = use() + lines + use()
    src1 = []
    src2 = []
    seen = {'"CODE"'}
    # in some program each new section starts with no SETDP of its own
    if n >= 0:
        src2.append(' setdp %d' % (n & 255))
    chunk = max(1, len(body) // r.randrange(1, 6))
    depth = 0
    since = 0
    lab = 0
    for ln in body:
        w = ln.lower().split()
        since += 1
        inm = depth > 0
        op = w[1] if ln[:1] not in (' ', '\t') and len(w) > 1 else (w[0] if w else '')
        if op in ('macro',):
            depth += 1
            inm = True
        elif op == 'endm':
            depth -= 1
        if op == 'end':
            break
        if since > chunk and not inm and depth == 0:
            s = r.choice(secs)
            x = [' section %s' % s]
            if s not in seen:
                x.append(' org $%x' % (0x2000 * (1 + len(seen))))
            src1 += x
            src2 += x
            if s not in seen and n >= 0:
                src2.append(' setdp %d' % (n & 255))
            seen.add(s)
            y = use()
            src1 += y
            src2 += y
            since = 0
        src1.append(ln)
        src2.append(ln)
    f1 = dict(c.files)
    f2 = dict(c.files)
    f1['main.s'] = ('\n'.join(src1) + '\n').encode('latin-1')
    f2['main.s'] = ('\n'.join(src2) + '\n').encode('latin-1')
    t = str(n) if n < 0 else spell_num(r, n)
    opt = r.choice([['--setdp', t], ['--setdp=' + t]])
    if r.random() < 0.3:
        opt = ['--setdp', r.choice(['-1', '5', '$f0'])] + opt
    base = (['-3'] if c.isa6309 else []) + ['-S']
    args1 = r.choice([opt + base + OUTARGS + ['main.s'], base + OUTARGS + ['main.s'] + opt])
    run = same(j, exe, 'setdp', f1, args1, f2, base + OUTARGS + ['main.s'], listing=False)
    if run is not None and run.rc == 0:
        j.count('setdp: sections', len(seen))


# --- exec

@guard
def execaddr(j, exe):
    r = j.r
    fmt = r.choice(['-C', '-D', '-S', '-H', '-B'])
    ls = [' org $%x' % r.choice([0x100, 0x1000, 0xc000]), 'start nop', ' fcb 1,2,3', 'other lda #5', 'k1 equ $%x' % r.randrange(65536), 'k2 equ 5', 'k3 equ $123456', 'k4 set 1', 'k4 set k4+1',
          'k5 equ "AB"', 'k6 equ 2.5', 'k7 equ k8+1', 'k8 equ 300', 'ABC equ 5', 'F equ 9', 'beef equ 77']
    r.shuffle(ls[3:])
    end = r.choice([[], [' end start'], [' end $%x' % r.randrange(65536)], [' end']])
    t = r.choice(['start', 'other', 'k1', 'k2', 'k3', 'k4', 'k7', 'ABC', 'beef', 'F', spell_num(r, r.randrange(65536)), spell_num(r, r.choice([0, 65535])), 'nosuch', 'k5'])
    files = {'main.s': ('\n'.join(ls + end) + '\n').encode()}
    want = t
    if re.fullmatch(r'[A-Za-z_.]\w*', t):
        f2 = {'main.s': ('\n'.join(ls + [' end %s' % t]) + '\n').encode()}
    else:
        f2 = {'main.s': ('\n'.join(ls + [' end %s' % t]) + '\n').encode()}
    opt = r.choice([['-e', t], ['-e' + t], ['--exec', t], ['--exec=' + t]])
    if r.random() < 0.3:
        opt = ['-e', r.choice(['1', 'other', 'nosuch'])] + opt
    outs = OUTARGS
    args1 = r.choice([opt + [fmt] + outs + ['main.s'], [fmt] + outs + ['main.s'] + opt])
    same(j, exe, 'exec', files, args1, f2, [fmt] + outs + ['main.s'], listing=False)


# --- what comes last wins, spelling and order don't matter

LONG = {'-B': '--bin', '-D': '--dragondos', '-C': '--coco', '-S': '--srec', '-H': '--hex', '-8': '--6809', '-9': '--6809', '-3': '--6309',
        '-q': '--quiet', '-v': '--verbose', '-e': '--exec', '-d': '--define', '-P': '--max-passes', '-o': '--output', '-l': '--listing',
        '-E': '--exports', '-s': '--symbols'}
ABBR = {'--bin': ['--bi', '--b'], '--dragondos': ['--dr', '--dragon'], '--coco': ['--c'], '--srec': ['--sr'], '--hex': ['--hex'], '--exec': ['--exe'],
        '--define': ['--def', '--de'], '--max-passes': ['--max', '--m'], '--output': ['--out'], '--listing': ['--list', '--l'], '--exports': ['--exp'],
        '--symbols': ['--sym'], '--quiet': ['--q'], '--verbose': ['--verb'], '--6809': ['--68'], '--6309': ['--63']}
FLAGS = ['-B', '-D', '-C', '-S', '-H', '-8', '-9', '-3', '-q', '-v']


@guard
def spelling(j, exe):
    r = j.r
    c = program(r, 'c24s%s' % r.random(), opts=True, fmts=tuple(formats.OPTION))
    # only what matters in the end
    fmt = r.choice(['-B', '-D', '-C', '-S', '-H', None])
    isa = '-3' if c.isa6309 else r.choice(['-8', '-9', None])
    pn = r.choice([None, 12, 20, 255])
    base = ([fmt] if fmt else []) + ([isa] if isa else []) + (['-P', str(pn)] if pn else [])
    dd = []
    for k, v in c.defines:
        dd.append(('-d', k if v is None else '%s=%s' % (k, v)))
    if c.exec_opt is not None:
        dd.append(('-e', str(c.exec_opt)))
    if c.setdp is not None:
        dd.append(('--setdp', str(c.setdp)))
    elif r.random() < 0.3:
        # none, which is also what a program without the option has
        dd.append(('--setdp', r.choice(['-1', '-2', '-256'])))
    ref = base + [x for p in dd for x in p] + OUTARGS + ['main.s']
    # now with things overridden, respelled and shuffled
    opts = []
    if fmt:
        opts.append([(r.choice(['-B', '-D', '-C', '-S', '-H']), None) for _ in range(r.randrange(3))] + [(fmt, None)])
    if isa:
        opts.append([(r.choice(['-8', '-9', '-3']), None) for _ in range(r.randrange(3))] + [(isa, None)])
    if pn:
        opts.append([('-P', str(r.choice([2, 3, 255]))) for _ in range(r.randrange(2))] + [('-P', r.choice([str(pn), hex(pn), '0%o' % pn]))])
    for n in ('-o', '-s', '-l', '-E'):
        opts.append([(n, 'unused') for _ in range(r.randrange(2) if r.random() < 0.3 else 0)] + [(n, {'-o': 'out', '-s': 'sym', '-l': 'lst', '-E': 'exp'}[n])])
    for o in dd:
        if o[0] == '-e' and r.random() < 0.3:
            opts.append([('-e', r.choice(['5', '$7fff'])), o])
        elif o[0] == '--setdp' and r.random() < 0.5:
            opts.append([('--setdp', r.choice(['5', '255', '-1', '0', '-'])), o])
        else:
            opts.append([o])
    if r.random() < 0.3:
        opts.append([(r.choice(['-q', '-v']), None)])
    # merge keeping the order within each group
    flat = []
    opts = [list(o) for o in opts]
    while opts:
        o = r.choice(opts)
        flat.append(o.pop(0))
        if not o:
            opts.remove(o)
    args = []
    joined = ''
    for o, v in flat:
        k = r.random()
        if v is None:
            if o in LONG and k < 0.35:
                args.append(LONG[o])
            elif o in LONG and k < 0.45 and LONG[o] in ABBR:
                args.append(r.choice(ABBR[LONG[o]]))
            elif k < 0.6 and args and re.fullmatch(r'-[BDCSH893qv]+', args[-1]):
                args[-1] += o[1]
            else:
                args.append(o)
        elif o.startswith('--'):
            args += r.choice([[o, v], [o + '=' + v]])
        else:
            lo = LONG[o]
            if k < 0.2:
                args += [o, v]
            elif k < 0.4:
                args.append(o + v)
            elif k < 0.6:
                args += [lo, v]
            elif k < 0.8:
                args.append(lo + '=' + v)
            elif k < 0.9:
                args.append(r.choice(ABBR[lo]) + '=' + v)
            elif args and re.fullmatch(r'-[BDCSH893qv]+', args[-1]):
                args[-1] += o[1] + v
            else:
                args += [o, v]
    # the file before, after or among them
    at = r.choice([0, len(args)])
    args[at:at] = ['main.s'] if at == 0 or r.random() < 0.5 else ['--', 'main.s']
    same(j, exe, 'spelling and order', c.files, args, c.files, ref)


# --- quiet and verbose

@guard
def verbosity(j, exe):
    r = j.r
    # lines known to draw each kind of message
    ill = [' tfr a,x', ' leax [,y+]', ' tfr x,b', ' lda [,x+]', ' exg d,b']
    ineff = [' lbra *+10', ' lbsr *+5', ' lbne *-10', ' lbeq *']
    ls = [' org $1000']
    kinds = {}
    mode = r.choice(['both', 'ill', 'ineff', 'none'])
    for _ in range(r.randrange(1, 25)):
        k = r.random()
        if k < 0.25 and mode in ('both', 'ill'):
            ls.append(r.choice(ill))
            kinds[len(ls)] = 'ill'
        elif k < 0.5 and mode in ('both', 'ineff'):
            ls.append(r.choice(ineff))
            kinds[len(ls)] = 'ineff'
        else:
            ls.append(r.choice([' nop', ' lda #5', ' fcb 1', '; c', ' leax 5,y', ' bra *', ' tfr a,b', ' ldx fw%d' % 1]))
    ls.append('fw1 equ 5')
    files = {'main.s': ('\n'.join(ls) + '\n').encode()}
    seen = {}
    for name, o in (('default', []), ('quiet', r.choice([['-q'], ['--quiet'], ['-v', '-q']])), ('verbose', r.choice([['-v'], ['--verbose'], ['-q', '-v']]))):
        args = o + ['-3S'] + OUTARGS + ['main.s']
        run = run_args(exe, files, args)
        if run.timeout:
            j.count('no answer')
            return
        if run.rc != 0:
            j.bad('verbosity', 'a program with nothing worse than warnings ends with %s: %s' % (run.status(), run.err[:300]), files, args)
        seen[name] = (result(run), core.parse_diags(run.err))
        want = {n for n, k in kinds.items() if name == 'verbose' or (name == 'default' and k == 'ill')}
        diags = seen[name][1]
        got = {d[2] for d in diags}
        for d in diags:
            if d[0] != 'warning':
                j.bad('verbosity', 'something other than a warning is printed: %r' % (d,), files, args)
        # an illegal form may also draw a note about its efficiency
        if got != want:
            j.bad('verbosity', '%s: warnings are for lines %s, expected %s' % (name, sorted(got, key=str), sorted(want)), files, args)
        j.count('warnings checked', len(diags))
        if seen[name][0] != seen['default'][0]:
            j.bad('verbosity', '%s: %s' % (name, differ(seen[name][0], seen['default'][0])), files, args)
        j.count('verbosity runs')


# --- invalid

def invalid_table():
    f = {'main.s': b' nop\n', 'second.s': b' fcb 2\n'}
    bad = [['-Z', 'main.s'], ['--nosuch', 'main.s'], ['main.s', '--nosuch'], ['--exec'], ['main.s', '-e'], ['main.s', '-d'], ['main.s', '-o'], ['main.s', '-l'], ['main.s', '-s'],
           ['main.s', '-E'], ['main.s', '-P'], ['main.s', '--setdp'], [], ['-S'], ['-d', 'X'], ['--bin=5', 'main.s'], ['--quiet=1', 'main.s'], ['--6309=', 'main.s'],
           ['nosuch.s'], ['main.s', 'nosuch.s'], ['nosuch.s', 'main.s'], ['', 'main.s'], ['main.s', ''], ['dir', 'main.s'], ['main.s', 'dir'], ['-x', 'main.s'], ['--', '-S', 'main.s'], ['--e=5', 'main.s'], ['--s', 'x', 'main.s'],
           ['-S', 'main.s/', ], ['main.s/x'], ['MAIN.S']]
    for v in ('', 'x', '1x', '-1', '0', '1', '256', '1000', '99999999999999999999', ' ', '5 ', '0x', '1.5', '12,', '+', '$10', '@17', '%11', '--', '2147483660', '4294967298', '18446744073709551618'):
        bad.append(['-P', v, 'main.s'])
        bad.append(['--max-passes=' + v, 'main.s'])
    for v in ('', 'x', '1x', '$', '$g', '0x', '0b2', '0b', '@8', '@', '%2', '%', '5 ', ' 5', '1.5', '"A"', "'A", '+5', '5+1', '12,', '0x1g', '$$1', '-', '1_000', '0X', '１', '9223372036854775808', '$8000000000000000', '18446744073709551617', '@7777777777777777777777', '$10000000000000005'):
        if v != '-':
            bad.append(['--setdp=' + v, 'main.s'])
        bad.append(['-d', 'SYM=' + v, 'main.s'])
        bad.append(['-d', 'SYM=' + v, '-d', 'OK=1', 'main.s'])
    for v in ('', 'x.y.z', 'nosuch', '1x', '$g', '0x', '5+1', 'nop', '0b2', '@9', ' 5', 'sym bol', '%2', "'A", '"A"', '1.5'):
        bad.append(['-e', v, 'main.s'])
    for d in (['-d', 'S', '-d', 'S'], ['-d', 'S=1', '-d', 'S=1'], ['-d', 'S=1', '--define=S=2']):
        bad.append(d + ['main.s'])
    good = [['main.s'], ['-P', '2', 'main.s'], ['-P', '255', 'main.s'], ['-P', '0xff', 'main.s'], ['-P', '012', 'main.s'], ['--setdp=0', 'main.s'], ['--setdp', '-1', 'main.s'], ['--setdp=-999', 'main.s'], ['--setdp=-', 'main.s'],
            ['--setdp=65535', 'main.s'], ['--setdp=9223372036854775807', '-d', 'S=$7fffffffffffffff', 'main.s'], ['-d', 'S', 'main.s'], ['-d', 'S=0', 'main.s'], ['-d', 'S=$ff', '-d', 's=@17', '-d', 'T=%101', '-d', 'U=0b11', 'main.s'], ['-e', '5', 'main.s'], ['-e0xffff', 'main.s'],
            ['main.s', 'second.s'], ['main.s', '--', 'second.s'], ['--', 'main.s'], ['-qv', 'main.s'], ['-q', '-q', 'main.s'], ['-3', '-8', 'main.s'], ['./main.s'], ['-SHCDB', 'main.s'], ['main.s', '-S'], ['--m=5', 'main.s']]
    return f, bad, good


def job_invalid(exe):
    f, bad, good = invalid_table()
    items = [(a, 1) for a in bad] + [(a, 0) for a in good]

    def g(i):
        args, want = items[i]
        out = {'verdict': 'ok', 'digest': 'inv%d' % i, 'extra': {}}
        old = {o: b'old %s' % o.encode() for o in OUT}

        def pre(d):
            os.mkdir(os.path.join(d, 'dir'))
        for place in (0, 1):
            # with output asked for first; last, a missing value would take it
            full = OUTARGS + args if place == 0 else args
            run = core.run_tool(exe, dict(f, **old), full, OUT, pre=pre)
            why = None
            if run.timeout:
                out['extra']['no answer'] = 1
                continue
            if not run.clean:
                why = 'ended with ' + run.status()
            elif run.rc != want:
                why = 'ended with exit status %d, not %d: %s' % (run.rc, want, run.err[:200])
            elif want and any(run.files[o] != old[o] for o in OUT):
                why = 'a file was written although the options are in error'
            elif want and not run.err.strip():
                why = 'no message'
            if why:
                out.update(verdict='bad', kind='invalid' if want else 'valid', why='options %r: %s' % (full, why), case=Case(files=f, mains=[], extra=full, fmt=None))
                return out
            out['extra']['invalid command lines' if want else 'valid command lines'] = out['extra'].get('invalid command lines' if want else 'valid command lines', 0) + 1
        return out
    return g, len(items)


def info(ctx, exe):
    """--help and --version."""
    f = {'main.s': b' nop\n'}
    for args, pat in ((['--help'], rb'Usage'), (['--version'], rb'asm6809 \d'), (['--help', 'main.s'], rb'Usage'), (['-S', '--version', '-Z'], rb'asm6809 \d'), (['--hel'], rb'Usage')):
        run = core.run_tool(exe, f, OUTARGS + args, OUT)
        ctx.evaluations += 1
        ctx.count('information options')
        if run.rc != 0 or not re.search(pat, run.err) or any(run.files[o] is not None for o in OUT):
            ctx.violate('info', '%s: %s, printed %r' % (args, run.status(), run.err[:100]), Case(files=f, mains=[], extra=args, fmt=None), args)
    h = core.run_tool(exe, f, ['--help'], ())
    for s, lo in LONG.items():
        if not re.search((r'%s\b' % lo).encode(), h.err):
            ctx.count('options missing from --help: %s' % lo)


# --- which format, instruction set

def table_choice(ctx, exe):
    """What each option selects, on one program that shows it."""
    src = b' org $1234\nstart fcb 1,2,3\n org $1240\n fcb 4\n end start\n'
    img = {0x1234: 1, 0x1235: 2, 0x1236: 3, 0x1240: 4}
    dec = {'-D': 'dragondos', '-C': 'coco', '-S': 'srec', '-H': 'hex'}
    dec.update({LONG[k]: v for k, v in list(dec.items())})
    names = list(dec) + ['-B', '--bin']
    combos = [[a] for a in names] + [[a, b] for a in names for b in names] + [[]]
    for co in combos:
        run = core.run_tool(exe, {'main.s': src}, co + ['-o', 'out', 'main.s'], ('out',))
        ctx.evaluations += 1
        last = co[-1] if co else '-B'
        data = run.files['out'] or b''
        why = None
        try:
            if last in ('-B', '--bin'):
                if data != bytes([1, 2, 3]) + b'\0' * 9 + b'\4':
                    why = 'not the raw binary: %s' % data[:40].hex()
            else:
                mem, ex, _ = formats.DECODE[dec[last]](data)
                w = dict(img)
                if dec[last] == 'dragondos':
                    w = {a: img.get(a, 0) for a in range(0x1234, 0x1241)}
                if core.diff_mem(mem, w) or ex != 0x1234:
                    why = 'decoded image or EXEC differs: %s %s' % (core.fmt_mem(mem), ex)
        except formats.Bad as e:
            why = 'output is not %s: %s' % (dec[last], e)
        ctx.count('format selections')
        ctx.distinct.add('fmt' + ' '.join(co))
        if why or run.rc:
            ctx.violate('format', '%s: %s %s' % (co, why, run.err[:200]), Case(files={'main.s': src}, mains=['main.s'], extra=co, fmt=None), co + ['-o', 'out', 'main.s'])
    names = ['-8', '-9', '-3', '--6809', '--6309']
    for co in [[]] + [[a] for a in names] + [[a, b] for a in names for b in names] + [[a, b, c] for a in names for b in names for c in names]:
        on = bool(co) and co[-1] in ('-3', '--6309')
        for s in (b' ldq #1\n', b' sexw\n', b' leax e,y\n', b' tfr w,v\n', b' adcr x,y\n'):
            if len(co) == 3 and s != b' sexw\n':
                continue
            run = core.run_tool(exe, {'main.s': s}, co + ['-o', 'out', 'main.s'], ('out',))
            ctx.evaluations += 1
            ctx.count('instruction set selections')
            ctx.distinct.add('isa' + ' '.join(co) + s.decode())
            if (run.rc == 0) != on:
                ctx.violate('isa', '%s: %s with %r: %s' % (co, run.status(), s, run.err[:200]), Case(files={'main.s': s}, mains=['main.s'], extra=co, fmt=None), co + ['main.s'])
    # the pass limit: chains of definitions that need exactly so many
    for need in range(2, 30):
        ch = [' fdb v0'] + ['v%d equ v%d+1' % (i, i + 1) for i in range(need - 2)] + ['v%d equ 16' % (need - 2)]
        data = ('\n'.join(ch) + '\n').encode()
        res = {}
        for lim in [None] + sorted({2, 3, 12, 13, 255, max(2, need - 1), need, need + 1}):
            for a in ([[]] if lim is None else [['-P', str(lim)], ['--max-passes=%d' % lim], ['-P', '7', '-P', hex(lim)], ['-P255', '-P%d' % lim]]):
                run = core.run_tool(exe, {'main.s': data}, a + ['-o', 'out', 'main.s'], ('out',))
                ctx.evaluations += 1
                ctx.count('pass limits')
                res.setdefault(12 if lim is None else lim, set()).add(run.rc)
        if any(len(v) > 1 for v in res.values()):
            ctx.violate('passes', 'a chain of %d: the spelling of the pass limit matters: %s' % (need, res), Case(files={'main.s': data}), [])
        lo = [k for k, v in res.items() if v == {0}]
        hi = [k for k, v in res.items() if v == {1}]
        if lo and hi and min(lo) < max(hi):
            ctx.violate('passes', 'a chain of %d is accepted with %d passes and not with %d' % (need, min(lo), max(hi)), Case(files={'main.s': data}), [])
        # passes needed, by the model
        c = Case(files={'main.s': data}, max_passes=255)
        m = c.model().run()
        if (lo and min(lo) < m.passes) or (hi and max(hi) >= m.passes):
            ctx.violate('passes', 'a chain of %d needs %d passes but is accepted with %s and rejected with %s' % (need, m.passes, lo, hi), c, [])
        ctx.distinct.add('pass%d' % need)


def run(ctx):
    ctx.rule = RULE
    exe = build.build('plain')
    base = '%s/%d/' % (ctx.prop, ctx.seed)
    n = ctx.n(500, 10000)
    for name, f, k in (('define', defines, 1), ('setdp', setdp, 1), ('exec', execaddr, 1), ('spelling', spelling, 2), ('verbosity', verbosity, 1)):
        drive(ctx, f(exe), ['%s%s%d' % (base, name, i) for i in range(n * k)], name)
    g, k = job_invalid(exe)
    drive(ctx, g, range(k), 'invalid')
    info(ctx, exe)
    table_choice(ctx, exe)
    core.campaign(ctx, exe, core.randoms(ctx, ctx.n(600, 10000), opts=True, fmts=tuple(formats.OPTION)), ('status', 'image', 'exec', 'symbols'), 'options')
