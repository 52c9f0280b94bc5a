"""C02: assembly always terminates, within the pass and nesting limits."""
import os
import random

from lib import build, core, formats, gen, model, soup
from lib.core import Case
from checks.c09 import drive

CPU = 20
RULE = ('Programs whose symbols, sizes, conditions, origins and sections feed back on each other (stable, oscillating and diverging), exact '
        'dependency chains, recursion of macros and files in every mixture and with fan-out, hostile counts and sizes, endless files and '
        'damaged programs are run with random pass limits under a limit of processor time of %d s (normal: milliseconds). A preloaded monitor counts '
        'the passes, by how often a marker file is read. A run must end with status 0 or 1, make no more passes than allowed, be accepted '
        'whenever the model says it is stable within the limit and be rejected when it is unstable, and nesting must be '
        'accepted to depth eight and no further. Non-trivial: a distinct program and limit.' % CPU)


def monitored(exe, shim, case, outs=('out', 'sym')):
    """Run with the marker file counted: (run, passes observed)."""
    log = os.path.join(build.scratch(), 'io%d' % os.getpid())
    if os.path.exists(log):
        os.unlink(log)
    run = core.run_tool(exe, case.files, case.args(outs), outs, env={'LD_PRELOAD': shim, 'IOF_LOG': log}, cpu=CPU)
    if run.timeout:
        # was it the machine?  ask for more time
        if os.path.exists(log):
            os.unlink(log)
        run = core.run_tool(exe, case.files, case.args(outs), outs, env={'LD_PRELOAD': shim, 'IOF_LOG': log}, cpu=3 * CPU, wall=600)
    n = 0
    try:
        with open(log, 'rb') as f:
            for ln in f:
                p = ln.split(b' ', 4)
                if p[1] == b'o' or p[1] == b'O':
                    if p[4].strip().endswith(b'marker.bin'):
                        n += 1
    except OSError:
        pass
    return run, n


# ---------------------------------------------------------------------------

def make_feedback(seed):
    """Definitions that depend on each other, forwards, backwards and round."""
    r = random.Random(seed)
    n = r.choice([2, 3, 4, 6, 10, 20])
    names = ['v%d' % i for i in range(n)]
    ls = [' org $%x' % r.choice([0, 0xf0, 0x100, 0x7ff0, 0x8000])] if r.random() < 0.8 else []
    body = []
    wild = r.random()

    def ref():
        return r.choice(names)

    def val():
        k = r.random()
        if k < 0.3:
            return ref()
        if k < 0.55:
            return '%s%+d' % (ref(), r.randrange(-3, 4))
        if k < 0.65:
            return '%s-%s' % (ref(), ref())
        if k < 0.7:
            return '(%s&15)' % ref()
        if k < 0.74:
            return '(%s>>1)' % ref()
        if k < 0.78:
            return '(%s==0)' % ref()
        if k < 0.8:
            return '(%s<%d?1:0)' % (ref(), r.randrange(300))
        if k < 0.84:
            return '(%s%s%s)' % (ref(), r.choice('+*|^'), ref())
        if k < 0.87:
            return '*+%s-%s' % (ref(), ref())
        return '%d' % r.choice([0, 1, 2, 5, 100, 255, 256])
    for nm in names:
        k = r.random()
        if k < 0.45:
            body.append(['%s equ %s' % (nm, val() if r.random() < 0.5 + wild / 2 else '%d' % r.randrange(300))])
        elif k < 0.9:
            body.append([r.choice(['%s', '%s nop', '%s fcb 1']) % nm])
        else:
            body.append(['%s set %s' % (nm, val()), '%s set %s+1' % (nm, nm)])
    for _ in range(r.randrange(1, 2 * n + 2)):
        k = r.random()
        if k < 0.2:
            body.append([' rmb (%s)&31' % val()])
        elif k < 0.3:
            body.append([' rmb %s-%s' % (ref(), ref())])
        elif k < 0.4:
            body.append([' %s %s' % (r.choice(['lda', 'jmp', 'stx', 'ldy']), val())])
        elif k < 0.5:
            body.append([' %s %s,%s' % (r.choice(['leax', 'lda', 'ldy']), val(), r.choice(['x', 'y', 'pcr', 'pc', 's']))])
        elif k < 0.55:
            body.append([' lda [%s,pcr]' % ref()])
        elif k < 0.65:
            body.append([' if %s' % val(), ' fcb %s' % ','.join('0' * r.choice([1, 2, 5, 40])), ' endif'])
        elif k < 0.72:
            body.append([' if %s<%d' % (ref(), r.randrange(400)), r.choice([' nop', ' rmb 3', ' setdp 1', ' org $200']), ' else', r.choice([' rmb 1', ' lda 5', ' align 4', ' setdp 0']), ' endif'])
        elif k < 0.77:
            body.append([' org (%s)&$fff' % val()])
        elif k < 0.8:
            body.append([' put (%s)&$fff' % val()])
        elif k < 0.84:
            body.append([' align (%s&7)+1' % ref()])
        elif k < 0.88:
            body.append([' setdp %s>>8' % ref()])
        elif k < 0.92:
            body.append([' section "%s"' % r.choice('abc')])
        elif k < 0.95:
            body.append(['9', r.choice([' lda 9b', ' leax 9f,pcr', ' rmb 9f-9b']), '9'])
        else:
            body.append([' fdb %s' % val()])
    r.shuffle(body)
    ls += [x for b in body for x in b]
    # the marker is read once in every pass
    ls.insert(r.choice([0, len(ls)]), ' includebin "marker.bin"')
    return Case(files={'main.s': ('\n'.join(ls) + '\n').encode(), 'marker.bin': b''}, max_passes=r.choice([None, None, 2, 3, 4, 5, 8, 20, 50, 255]))


def make_chain(seed):
    """A chain of definitions in a random order: passes needed vary."""
    r = random.Random(seed)
    n = r.choice([1, 2, 3, 5, 8, 10, 11, 12, 15, 30, 100, 200])
    order = list(range(n))
    k = r.random()
    if k < 0.3:
        order.reverse()
    elif k < 0.8:
        i = r.randrange(n + 1)
        order = order[i:] + order[:i]
        for _ in range(r.choice([0, 1, 3, n])):
            a, b = r.randrange(n), r.randrange(n)
            order[a], order[b] = order[b], order[a]
    ls = []
    for i in order:
        if i == n - 1:
            ls.append('v%d equ %d' % (i, r.choice([0, 5, 300])))
        elif r.random() < 0.9:
            ls.append('v%d equ v%d%+d' % (i, i + 1, r.randrange(-3, 4)))
        else:
            ls.append('w%d rmb v%d&3' % (i, i + 1))
            ls.append('v%d equ v%d+1' % (i, i + 1))
    ls.insert(r.randrange(len(ls) + 1), r.choice([' fdb v0', ' rmb v0&7', ' lda v0', ' if v0\n nop\n endif', ' leax v0,y', ' org $100+(v0&15)']))
    ls.append(' includebin "marker.bin"')
    return Case(files={'main.s': ('\n'.join(ls) + '\n').encode(), 'marker.bin': b''})


def job_limits(exe, shim, make):
    """At every limit: bounded passes; accepted when the model is stable."""
    def f(seed):
        case = make(seed)
        out = {'verdict': 'ok', 'digest': case.digest(), 'extra': {}}
        ex = out['extra']

        def count(k, n=1):
            ex[k] = ex.get(k, 0) + n

        def bad(kind, why):
            out.update(verdict='bad', kind=kind, why=why, case=case)
            return out
        limits = [case.max_passes]
        try:
            case.max_passes = 255
            m = case.model().run()
            if m.ok:
                limits += [m.passes, m.passes - 1, m.passes + 1]
            else:
                limits += [255]
        except (model.Unsupported, RecursionError):
            m = None
        limits = sorted({x if x is None else min(255, max(2, x)) for x in limits}, key=lambda x: x or 0)
        good = None
        for lim in limits:
            case.max_passes = lim
            run, n = monitored(exe, shim, case)
            count('runs')
            if run.timeout:
                return bad('endless', 'with %s passes it does not end in %d s of processor time' % (lim, CPU))
            if not run.clean:
                return bad('crash', 'ended with ' + run.status())
            p = lim or 12
            if n > p:
                return bad('passes', 'with a limit of %d, %d passes are made' % (p, n))
            count('passes observed', n)
            if n == p:
                count('runs that used every pass')
            if run.rc == 1 and not run.err.strip():
                return bad('silent', 'rejected without a message (limit %d)' % p)
            if run.rc == 0:
                if good is None:
                    good = run
                elif (run.files['out'], sorted(run.files['sym'].split(b'\n'))) != (good.files['out'], sorted(good.files['sym'].split(b'\n'))):
                    return bad('differ', 'accepted with different results under different pass limits')
            if m is not None:
                # what the model says of this limit
                try:
                    m2 = case.model().run()
                except (model.Unsupported, RecursionError):
                    continue
                ok = core.expected_ok(m2, case)
                if ok and run.rc != 0:
                    return bad('rejected', 'stable after %d passes but rejected with a limit of %d: %s' % (m2.passes, p, run.err[:300]))
                if not m2.ok and m2.level == model.INCONSISTENT and run.rc == 0 and not (m.ok and p >= 2):
                    return bad('accepted', 'unstable but accepted with a limit of %d' % p)
                count('verdicts: ' + ('stable' if ok else 'rejected'))
        return out
    return f


# ---------------------------------------------------------------------------
# Nesting

def make_nest(seed):
    """A chain of macros and files of a given depth: (case, depth)."""
    r = random.Random(seed)
    depth = r.choice([1, 2, 5, 6, 7, 7, 8, 8, 8, 8, 9, 9, 9, 10, 15, 40])
    mode = r.choice(['macro', 'file', 'mixed', 'countdown', 'count file'])
    files = {}
    ls = []
    fill = lambda: r.choice([[], [' nop'], ['; c'], [' if 1', ' nop', ' endif'], [' if 0', ' bad stuff', ' endif']])

    def use(x):
        k = r.random()
        if k < 0.6:
            return [x]
        if k < 0.8:
            return [' if 1', x, ' endif']
        return [' if 0', ' nop', ' else', x, ' endif']
    if mode in ('countdown', 'count file'):
        # bounded recursion: the level it gets to is in a SET symbol or argument
        n = depth - 1
        if mode == 'countdown':
            ls = ['m1 macro'] + fill() + [' if \\1', ' fcb \\1', ' m1 \\1-1' if r.random() < 0.5 else ' m1 (\\1)-1', ' endif', ' endm'] + (use(' m1 %d' % (n - 1)) if n else [' nop'])
        else:
            files['r.s'] = ('\n'.join(fill() + [' if cnt', 'cnt set cnt-1', ' fcb cnt', ' include "r.s"', ' endif']) + '\n').encode()
            ls = ['cnt set %d' % (n - 1)] + (use(' include "r.s"') if n else [' nop'])
    else:
        kinds = ['M' if mode == 'macro' or (mode == 'mixed' and r.random() < 0.5) else 'F' for _ in range(depth - 1)]
        defs = []
        names = []
        for i, k in enumerate(kinds):
            names.append(' mac%d' % i if k == 'M' else ' include "f%d.s"' % i)
        for i, k in enumerate(kinds):
            body = fill() + (use(names[i + 1]) if i + 1 < len(kinds) else [' fcb %d' % i]) + fill()
            if i + 1 < len(kinds) and r.random() < 0.2:
                body += use(names[i + 1])
            if k == 'M':
                defs.append(['mac%d macro' % i] + body + [' endm'])
            else:
                files['f%d.s' % i] = ('\n'.join(body) + '\n').encode()
        r.shuffle(defs)
        ls = [x for d in defs for x in d] + (use(names[0]) if names else [' nop'])
        if r.random() < 0.3:
            ls += use(names[0]) if names else []
    if r.random() < 0.2:
        ls = [' lda late'] + ls + ['late equ 5']
    files['main.s'] = ('\n'.join(ls) + '\n').encode()
    return Case(files=files), depth, mode


def job_nest(exe):
    def f(seed):
        case, depth, mode = make_nest(seed)
        out = {'verdict': 'ok', 'digest': case.digest(), 'extra': {}}
        run = core.run_tool(exe, case.files, case.args(('out',)), ('out',), cpu=CPU)

        def bad(kind, why):
            out.update(verdict='bad', kind=kind, why=why, case=case)
            return out
        if run.timeout:
            return bad('endless', 'nesting of depth %d (%s) does not end' % (depth, mode))
        if not run.clean:
            return bad('crash', 'ended with ' + run.status())
        if (run.rc == 0) != (depth <= 8):
            return bad('depth', 'nesting of depth %d (%s) ends with %s: %s' % (depth, mode, run.status(), run.err[:200]))
        if run.rc and not run.err.strip():
            return bad('silent', 'no message')
        if run.rc:
            out['extra']['nesting rejected'] = 1
        else:
            out['extra']['nesting accepted'] = 1
        out['extra']['nesting depth %s' % ('8 exactly' if depth == 8 else '9 exactly' if depth == 9 else 'other')] = 1
        res = core.compare(exe, case, ('status', 'image'))
        if res['verdict'] == 'bad':
            return bad('nest', res['why'])
        return out
    return f


def make_endless(seed):
    """Recursion without end."""
    r = random.Random(seed)
    n = r.choice([1, 1, 2, 3, 5])
    fan = r.choice([1, 1, 2, 3, 20, 300])
    files = {}
    kinds = [r.choice('MF') for _ in range(n)]
    if r.random() < 0.5:
        kinds = [r.choice('MF')] * n
    arg = r.choice(['', ' 1', ' \\1+1', ' "\\1\\1"', ' "x&1"', ' \\1,\\1', ' *']) if 'F' not in kinds else ''
    cond = r.choice([None, None, '1', 'one', 'late', '*+1', '1.5', '"a"'])
    call = lambda i: (' mac%d%s' % (i, arg)) if kinds[i] == 'M' else ' include "f%d.s"' % i
    ls = ['one equ 1', ' ldx late']
    for i in range(n):
        body = r.choice([[], [' nop'], ['1 nop'], [' fcb 1,2']])
        inner = [call((i + 1) % n)] * fan
        if cond:
            inner = [' if %s' % cond] + inner + [' endif']
        body = body + inner + r.choice([[], [' nop']])
        if kinds[i] == 'M':
            ls += ['mac%d macro' % i] + body + [' endm']
        else:
            files['f%d.s' % i] = ('\n'.join(body) + '\n').encode()
    first = call(0)
    if arg:
        first = ' mac0 ' + ('"a"' if '"' in arg else '1,2')
    ls += [first] * r.choice([1, 1, 3])
    ls += ['late equ 1']
    k = r.random()
    if k < 0.1:
        files['main.s'] = b' nop\n include "main.s"\n'
    elif k < 0.15:
        files['main.s'] = b'm1 macro\nm2 macro\n m1\n endm\n m2\n endm\n m1\n'
    elif k < 0.2:
        files['main.s'] = b'm1 macro\n include "main.s"\n endm\n m1\n'
    elif k < 0.25:
        files['main.s'] = b' lda after\n if late\n include "main.s"\n endif\nlate set 1\nafter set 5\n'
    else:
        files['main.s'] = ('\n'.join(ls) + '\n').encode()
    return Case(files=files, max_passes=r.choice([None, None, 2, 255]))


HOSTILE = []
for _op in ('rmb', 'rzb', 'zmb', 'bsz', 'fzb', 'fill', 'align', 'org', 'put', 'setdp'):
    for _v in ('$7fffffffffffffff', '-$7fffffffffffffff-1', '$ffffffff', '$100000000', '$7fffffff', '$80000000', '-1', '65536', '65535', '1e9', '1000000000.5', '$1000000', '-$10000', '0',
               '1/0', '-1/0', '0/0', '(1<<62)', '(1<<63)', '"AAAA"', '*', '-*', 'late', '-late', 'huge'):
        for _more in ('', ',1', ',-1', ',$7fffffff'):
            if _op == 'fill':
                HOSTILE.append(' fill 0,%s' % _v if not _more else ' fill %s,%s' % (_more[1:], _v))
            else:
                HOSTILE.append(' %s %s%s' % (_op, _v, _more))
    HOSTILE += [' %s' % _op, ' %s 5,5,5' % _op, ' %s x' % _op]


def hostile_cases():
    out = []
    for ln in HOSTILE:
        out.append((Case(['late nop' if 0 else ' nop', ln, ' nop', 'late equ 10', 'huge equ $7fffffff'])))
    for ln in HOSTILE[::7]:
        out.append(Case([' org $fff0', 'm1 macro', ln, ' endm', ' m1', ' m1', ' nop', 'late equ 10', 'huge equ 1<<40']))
    return out


def job_ends(exe, cases, what):
    def f(i):
        case = cases[i] if not isinstance(cases[i], tuple) else cases[i][0](*cases[i][1:])
        out = {'verdict': 'ok', 'digest': case.digest(), 'extra': {what: 1}}
        run = core.run_tool(exe, case.files, case.args(('out', 'lst', 'sym')), ('out', 'lst', 'sym'), cpu=CPU, mem=3 << 30)
        if run.timeout:
            run = core.run_tool(exe, case.files, case.args(('out', 'lst', 'sym')), ('out', 'lst', 'sym'), cpu=3 * CPU, mem=3 << 30, wall=600)
        if run.timeout:
            out.update(verdict='bad', kind='endless', why='does not end in %d s of processor time' % (3 * CPU), case=case)
        elif not run.clean:
            out.update(verdict='bad', kind='crash', why='ended with %s: %s' % (run.status(), run.err[:200]), case=case)
        elif run.rc and not run.err.strip():
            out.update(verdict='bad', kind='silent', why='rejected without a message', case=case)
        elif what == 'endless recursion' and run.rc == 0:
            out.update(verdict='bad', kind='accepted', why='endless recursion is accepted', case=case)
        else:
            out['extra'][what + (': rejected' if run.rc else ': accepted')] = 1
        return out
    return f


def endless_files(ctx, exe):
    """Files with no end of their own."""
    for args, files in ((['/dev/zero'], {}), (['main.s'], {'main.s': b' include "/dev/zero"\n'}), (['main.s'], {'main.s': b' includebin "/dev/zero"\n'}),
                        (['main.s'], {'main.s': b' includebin "/dev/zero"\n includebin "/dev/zero"\n'}), (['main.s'], {'main.s': b'm macro\n includebin "/dev/zero"\n endm\n m\n m\n'}),
                        (['main.s'], {'main.s': b' org $fff0\n includebin "/dev/zero"\n'}), (['main.s'], {'main.s': b' includebin "/dev/urandom"\n'}),
                        (['main.s'], {'main.s': b' if late\n includebin "/dev/zero"\n endif\n lda late\nlate equ 1\n'}), (['/dev/null'], {}), (['main.s'], {'main.s': b' include "/dev/null"\n includebin "/dev/null"\n'})):
        run = core.run_tool(exe, files, ['-S', '-o', 'out'] + args, ('out',), cpu=CPU, mem=2 << 30)
        ctx.evaluations += 1
        ctx.count('endless files')
        ctx.distinct.add('endless' + repr(files) + repr(args))
        want = 0 if b'null' in (repr(files) + repr(args)).encode() else 1
        case = Case(files=files or {'main.s': b''})
        if run.timeout:
            ctx.violate('endless-file', '%s %s does not end' % (args, files), case, args)
        elif not run.clean or run.rc != want:
            ctx.violate('endless-file', '%s %s: %s: %s' % (args, files, run.status(), run.err[:200]), case, args)


def run(ctx):
    ctx.rule = RULE
    exe = build.build('plain')
    shim = build.shim('io', os.path.join(core.VERIF, 'shim', 'io.c'))
    base = '%s/%d/' % (ctx.prop, ctx.seed)
    c = make_feedback(base + 'f0')
    ctx.sample({'args': c.args(), 'main': c.files['main.s'].decode()[:600]})
    c = make_nest(base + 'n0')[0]
    ctx.sample({'nest': {k: v.decode()[:300] for k, v in c.files.items()}})
    drive(ctx, job_limits(exe, shim, make_feedback), [base + 'f%d' % i for i in range(ctx.n(1500, 25000))], 'feedback')
    drive(ctx, job_limits(exe, shim, make_chain), [base + 'c%d' % i for i in range(ctx.n(300, 5000))], 'chain')
    if ctx.counts.get('passes observed', 0) == 0:
        ctx.assumptions.append('the marker file was never seen to be read: the number of passes was not observed')
    drive(ctx, job_nest(exe), [base + 'n%d' % i for i in range(ctx.n(600, 10000))], 'nest')
    n = ctx.n(400, 6000)
    drive(ctx, job_ends(exe, [(make_endless, base + 'e%d' % i) for i in range(n)], 'endless recursion'), range(n), 'recursion')
    hc = hostile_cases()
    drive(ctx, job_ends(exe, hc, 'hostile sizes'), range(len(hc)), 'hostile')
    so = soup.soups(ctx, ctx.n(1500, 30000))
    drive(ctx, job_ends(exe, so, 'damaged programs'), range(len(so)), 'damaged')
    endless_files(ctx, exe)
    ctx.evaluations += ctx.counts.get('runs', 0)
