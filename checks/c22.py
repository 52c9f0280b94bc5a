"""C22: output depends only on the source and the options that should matter."""
import os
import random
import shutil
import subprocess

from lib import build, core, formats, scale, soup
from lib.core import Case
from checks.c09 import drive
from checks.c13 import forward

RULE = ('Random programs, correct, damaged and wrong, with every format and kind of output file, are run once plainly and then again under '
        'changed circumstances that must not matter: allocator patterns (memory handed out and freed is overwritten, blocks moved), '
        'address layout with and without randomisation, environments empty, large and hostile, locales with a decimal comma and other '
        'letter cases, another directory, depth and umask, other output names, old output files longer than the new, options in another '
        'order, other standard streams, resource limits, output files asked for or not, -q and -v. Exit status and every file '
        'written must be the same to the byte. Programs with undefined symbols, conditions, '
        'changing symbols, nested files and omitted arguments are run for the image alone and for every other file as well. Non-trivial: a distinct (program, circumstance).')

OUTS = ('out', 'lst', 'sym', 'exp')
FLAG = {'out': '-o', 'lst': '-l', 'sym': '-s', 'exp': '-E'}
LONG = {'out': '--output', 'lst': '--listing', 'sym': '--symbols', 'exp': '--exports'}
_loc = None


def locales():
    """Locales whose numbers and letters are not those of C."""
    d = os.path.join(build.scratch(), 'loc')
    if not os.path.isdir(d):
        os.makedirs(d)
        for src, cm, name in (('tr_TR', 'ISO-8859-9', 'tr_TR.ISO-8859-9'), ('de_DE', 'ISO-8859-1', 'de_DE.ISO-8859-1'), ('ja_JP', 'EUC-JP', 'ja_JP.EUC-JP'), ('fa_IR', 'UTF-8', 'fa_IR.UTF-8')):
            try:
                subprocess.run(['localedef', '-c', '-i', src, '-f', cm, os.path.join(d, name)], capture_output=True, timeout=60)
            except (OSError, subprocess.SubprocessError):
                pass
    return d, sorted(os.listdir(d))


def make(seed):
    r = random.Random(seed)
    k = r.random()
    if k < 0.1:
        # every character where it may not belong
        ls = []
        for _ in range(r.choice([1, 3, 20])):
            c = r.choice(['\\', '\\', '&', chr(r.randrange(1, 256)), chr(r.randrange(1, 256))])
            ls.append(r.choice(['%s', 'l%s', ' %s', ' nop%s', ' nop %s', ' lda %s', ' lda #5%s', ' fcb 1,%s', ' fcc "a%s', ' fcc "a%sb"', ' fcc /%s/', ' fcc "a"%s',
                                ' fci "a%s"', " fcb '%s", ' fcb 1 ;%s', 'm%s equ 5', ' fcc "\\%s"', ' include "%s"']).replace('%s', c))
        return Case(files={'main.s': ('\n'.join(ls) + r.choice(['\n', '', '\\', '"'])).encode('latin-1')})
    if k < 0.18:
        return soup.make_soup(seed)
    if k < 0.26:
        return soup.make_mutant(seed)
    if k < 0.33:
        # just as many passes as are allowed, or one fewer or more
        n = r.randrange(1, 14)
        ls = [' fdb v0', ' org $%x' % r.randrange(0x8000)] + ['v%d equ v%d%s' % (i, i + 1, r.choice(['', '+1', '*2'])) for i in range(n)] + ['v%d %s' % (n, r.choice(['equ 5', 'nop', 'equ *']))]
        if r.random() < 0.3:
            ls.insert(2, ' export v%d' % r.randrange(n))
        return Case(ls, max_passes=r.choice([None, None, None, n, n + 1, n + 2, n + 3]) if n > 1 else None, fmt=r.choice(list(formats.OPTION)))
    if k < 0.4:
        # things whose order or text might depend on circumstances
        names = ['%s%d' % (r.choice('abcdefgXYZ_'), r.randrange(10 ** r.randrange(1, 6))) for _ in range(r.choice([5, 50, 300]))]
        names = [n for n in dict.fromkeys(names) if n.lower() not in ('x', 'y')]
        ls = ['%s equ %s' % (n, r.choice(['%d' % r.randrange(10 ** 9), '%r' % (r.random() * 1000), '"Str%d"' % r.randrange(99), '-5', '1.5'])) for n in names]
        ls += [' export %s' % n for n in names if r.random() < 0.3]
        r.shuffle(ls)
        return Case(ls + [' nop'])
    c = core.make_random(seed, {'sizes': (3, 10, 30, 80), 'opts': True, 'fmts': list(formats.OPTION), 'weights': {'export': 4, 'include': 3, 'macrouse': 6, 'macrodef': 3}})
    return c


def job(exe, heap, ldir, locs):
    def f(seed):
        case = make(seed)
        r = random.Random(seed + 'v')
        out = {'verdict': 'ok', 'digest': case.digest(), 'extra': {}}
        ex = out['extra']
        ref = core.run_tool(exe, case.files, case.args(OUTS), OUTS)
        if not ref.clean:
            out.update(verdict='bad', kind='crash', why='ended with ' + ref.status(), case=case)
            return out
        opts = case.args(())[:-len(case.mains)]

        def judge(what, run, got):
            why = None
            if run.timeout:
                ex['no answer'] = ex.get('no answer', 0) + 1
                return None
            if run.rc != ref.rc:
                why = 'ended with %s, not %s: %s' % (run.status(), ref.status(), run.err[:300])
            else:
                for o, d in got.items():
                    if d != ref.files[o]:
                        why = '%s differs' % o
                        if d and ref.files[o]:
                            i = next((i for i, (a, b) in enumerate(zip(d, ref.files[o])) if a != b), min(len(d), len(ref.files[o])))
                            why += ' at byte %d: %r, not %r' % (i, d[max(0, i - 20):i + 20], ref.files[o][max(0, i - 20):i + 20])
                        elif d is None:
                            why = '%s is not written' % o
                        else:
                            why = '%s is written only then, or only then has content' % o
                        break
            if why:
                out.update(verdict='bad', kind=what.split(':')[0], why='%s: %s' % (what, why), case=case)
                return out
            ex[what.split(':')[0]] = ex.get(what.split(':')[0], 0) + 1
            ex['comparisons'] = ex.get('comparisons', 0) + 1 + len(got)
            return None

        def files(run, names=None):
            return {o: run.files[(names or {}).get(o, o)] for o in OUTS}

        # the same again, and under other allocators
        for what, env in (('again', {}), ('heap: zeros', {'LD_PRELOAD': heap, 'HEAP_SEED': '0'}),
                          ('heap: patterns', {'LD_PRELOAD': heap, 'HEAP_SEED': str(r.randrange(1, 10 ** 6))}),
                          ('heap: patterns', {'LD_PRELOAD': heap, 'HEAP_SEED': str(r.randrange(1, 10 ** 6))}),
                          ('heap: perturbed', {'MALLOC_PERTURB_': str(r.randrange(1, 255)), 'MALLOC_CHECK_': '3', 'GLIBC_TUNABLES': 'glibc.malloc.tcache_count=0'})):
            run = core.run_tool(exe, case.files, case.args(OUTS), OUTS, env=env)
            if judge(what, run, files(run)):
                return out
        # nothing but what was asked for is written
        run = core.run_tool(exe, case.files, case.args(OUTS), OUTS + ('so',), prefix=['/bin/sh', '-c', 'exec "$@" >so', 'sh'])
        if judge('redirected', run, files(run)):
            return out
        if not run.timeout:
            w = core.workdir()
            left = {os.path.relpath(os.path.join(d, x), w) for d, _, fs in os.walk(w) for x in fs} - set(case.files) - set(OUTS) - {'so'}
            if run.files['so'] or left:
                out.update(verdict='bad', kind='written', why='written besides the files asked for: %s %r' % (sorted(left)[:5], (run.files['so'] or b'')[:100]), case=case)
                return out
            ex['nothing else written'] = 1
        # locale and environment
        envs = [('environment: large', {'X%d' % i: 'y' * r.randrange(2000) for i in range(40)}),
                ('environment: odd', {'POSIXLY_CORRECT': '1', 'TZ': 'Asia/Kathmandu', 'COLUMNS': '10', 'TERM': 'dumb', 'HOME': '/nonexistent', 'TMPDIR': '/nonexistent', 'ASM6809': '-q', 'PATH': '', 'PWD': '/', 'IFS': 'x',
                                      'INCLUDE': '/etc', 'LANGUAGE': 'tr:de', 'SOURCE_DATE_EPOCH': '0', 'CFLAGS': 'x'}),
                ('locale: C.utf8', {'LC_ALL': 'C.utf8'})]
        for n in locs:
            envs.append(('locale: ' + n, {'LC_ALL': n, 'LOCPATH': ldir, 'LANG': n}))
        for what, env in envs:
            run = core.run_tool(exe, case.files, case.args(OUTS), OUTS, env=env)
            if judge(what, run, files(run)):
                return out
        # layout
        if r.random() < 0.5:
            run = core.run_tool(exe, case.files, case.args(OUTS), OUTS, prefix=['/usr/bin/setarch', '-R'])
            if b'failed' not in run.err or run.rc in (0, 1):
                if judge('layout: fixed', run, files(run)):
                    return out
            run = core.run_tool(exe, case.files, case.args(OUTS), OUTS, prefix=['/bin/sh', '-c', 'ulimit -s unlimited; exec "$@"', 'sh'])
            if judge('layout: stack', run, files(run)):
                return out
        # old files in the way, of every sort of length
        old = dict(case.files)
        for o in OUTS:
            old[o] = r.randbytes(r.choice([0, 1, 100, 100000]))
        run = core.run_tool(exe, old, case.args(OUTS), OUTS)
        if ref.rc == 0:
            if judge('old files', run, files(run)):
                return out
        elif any(run.files[o] != old[o] for o in OUTS):
            out.update(verdict='bad', kind='old files', why='a failed run changed an existing file', case=case)
            return out
        # names, order and spelling of the options
        names = {o: r.choice(['%s.longer-name', 'dir/%s', '%s x', './%s', 'a/b/c/d/%s.txt', '-%s', '%s\xe9']) % o for o in OUTS}
        pairs = [[r.choice([FLAG[o], LONG[o]]), names[o]] if r.random() < 0.5 else [FLAG[o] + names[o] if r.random() < 0.5 else LONG[o] + '=' + names[o]] for o in OUTS]
        r.shuffle(pairs)
        first = [a for p in pairs[:2] for a in p]
        last = [a for p in pairs[2:] for a in p]

        def pre(d):
            for x in ('dir', 'a/b/c/d'):
                os.makedirs(os.path.join(d, x), exist_ok=True)
        run = core.run_tool(exe, case.files, first + opts + last + case.mains, tuple(names.values()), pre=pre)
        if judge('names and order', run, files(run, names)):
            return out
        # another directory
        sub = r.choice(['d', 'deep/er/still', 'x' * 200, 'sp ace', '\xfc'])
        run = core.run_tool(exe, {'%s/%s' % (sub, k): v for k, v in case.files.items()}, case.args(OUTS), tuple('%s/%s' % (sub, o) for o in OUTS),
                            prefix=['/bin/sh', '-c', 'cd "$0" && umask %s && exec "$@"' % r.choice(['000', '022', '077']), sub])
        if judge('directory', run, files(run, {o: '%s/%s' % (sub, o) for o in OUTS})):
            return out
        # streams, priorities, limits
        pf = r.choice([['/bin/sh', '-c', 'exec "$@" <&-', 'sh'], ['/bin/sh', '-c', 'exec "$@" </dev/zero', 'sh'], ['/bin/sh', '-c', 'ulimit -c 0 -n 20; exec "$@"', 'sh'],
                       ['/usr/bin/env', '-i'], ['/usr/bin/nice', '-n', '5'], ['/bin/sh', '-c', 'exec 5</dev/null 6</dev/null 7</dev/null; exec "$@"', 'sh']])
        run = core.run_tool(exe, case.files, case.args(OUTS), OUTS, prefix=pf)
        if judge('process: ' + ' '.join(pf[:3]), run, files(run)):
            return out
        # asking for each set of files; asking for exports may fail
        for sub in r.sample([s for s in range(16)], 5):
            outs = [o for i, o in enumerate(OUTS) if sub >> i & 1]
            run = core.run_tool(exe, case.files, case.args(outs), OUTS)
            if not run.clean:
                judge('files asked for', run, {})
                return out
            if ref.rc == 1:
                # only exports, and the limits of the format, can make it so
                if run.rc == 0 and any(run.files[o] is not None for o in OUTS if o not in outs):
                    out.update(verdict='bad', kind='files asked for', why='a file not asked for is written', case=case)
                    return out
                continue
            if judge('files asked for: %s' % outs, run, {o: run.files[o] for o in outs}):
                return out
            if any(run.files[o] is not None for o in OUTS if o not in outs):
                out.update(verdict='bad', kind='files asked for', why='a file not asked for is written', case=case)
                return out
        # a listing never matters to anything else
        for sub in r.sample(range(8), 3):
            outs = [o for i, o in enumerate(('out', 'sym', 'exp')) if sub >> i & 1]
            a, b = core.run_tool(exe, case.files, case.args(outs), OUTS), core.run_tool(exe, case.files, case.args(outs + ['lst']), OUTS)
            if a.timeout or b.timeout:
                continue
            if a.rc != b.rc or any(a.files[o] != b.files[o] for o in outs):
                out.update(verdict='bad', kind='listing', why='asked for %s it ends with %s, and with %s, or other content, if a listing is asked for too: %s' % (outs, a.status(), b.status(), b.err[:200]), case=case)
                return out
            ex['listing or not'] = ex.get('listing or not', 0) + 1
        for v in (['-q'], ['-v'], ['--quiet', '--verbose']):
            run = core.run_tool(exe, case.files, v + case.args(OUTS), OUTS)
            if judge('verbosity: %s' % v, run, files(run)):
                return out
        return out
    return f


def asking_job(exe):
    """What is asked for besides the image has no part in assembling it."""
    def f(item):
        case = forward(item)[0] if isinstance(item, str) else item[0](item[1]) if isinstance(item, tuple) else item
        case.extra = []
        out = {'verdict': 'ok', 'digest': case.digest(), 'extra': {}}
        ref = core.run_tool(exe, case.files, case.args(('out',)), OUTS)
        if not ref.clean:
            return {'verdict': 'undecided', 'why': 'no answer', 'digest': case.digest()}
        for pre, outs in (([], ('lst',)), ([], ('sym',)), ([], ('lst', 'sym')), (['-q'], ()), (['-v'], ()), ([], ('exp',))):
            run = core.run_tool(exe, case.files, pre + case.args(('out',) + outs), OUTS)
            if run.timeout:
                continue
            why = None
            if run.rc != ref.rc:
                # what is exported can be wrong
                if run.rc != 1 or 'exp' not in outs or not (b'export' in run.err or b'not defined' in run.err):
                    why = 'ended with %s, not %s: %s' % (run.status(), ref.status(), run.err[:300])
            elif run.files['out'] != ref.files['out']:
                why = 'the image differs'
            elif any((run.files[o] is None) != (ref.rc != 0) for o in outs):
                why = 'a file asked for is %swritten' % ('' if ref.rc else 'not ')
            if why:
                out.update(verdict='bad', kind='asking', why='asking for %s too: %s' % (' '.join(pre + [FLAG[o] for o in outs]), why), case=case)
                return out
            out['extra']['asked'] = out['extra'].get('asked', 0) + 1
        out['extra']['asked of programs that %s' % ('assemble' if ref.rc == 0 else 'fail')] = 1
        return out
    return f


def run(ctx):
    ctx.rule = RULE
    exe = build.build('plain')
    heap = build.shim('heap', os.path.join(core.VERIF, 'shim', 'heap.c'))
    ldir, locs = locales()
    if len(locs) < 2:
        ctx.assumptions.append('localedef could not make other locales: only C and C.utf8 were used')
    base = '%s/%d/' % (ctx.prop, ctx.seed)
    c = make(base + '0')
    ctx.sample({'args': c.args(OUTS), 'main': c.files['main.s'][:600].decode('latin-1'), 'locales': locs})
    drive(ctx, job(exe, heap, ldir, locs), [base + str(i) for i in range(ctx.n(500, 9000))], 'same')
    cs = scale.depths('if') + scale.depths('m') + scale.changing() + scale.edges()
    empty = [Case(['m macro'] + b + [' endm', ' m ' + a]) for a in (',2', '1,', '', '1', ',') for b in (['v set \\1', ' fcb v'], ['v equ \\2'], ['v equ \\1', 'w equ v', ' export w', ' fcb w'],
             ['v set \\2', ' fdb v', ' if v', 'w equ 1', ' endif'], ['l\\1 nop'], [' export \\1'])]
    if ctx.tier == 'quick':
        ctx.rng.shuffle(cs)
        cs = cs[:700]
    cs += empty + list(soup.soups(ctx, ctx.n(150, 3000))) + [base + 'f%d' % i for i in range(ctx.n(150, 3000))]
    drive(ctx, asking_job(exe), cs, 'asking')
    ctx.evaluations += ctx.counts.get('comparisons', 0) + ctx.counts.get('asked', 0)
