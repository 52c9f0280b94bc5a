"""C20: failure to read or write any file is never reported as success."""
import os
import random
import signal
import stat
import subprocess
import threading

from lib import build, core, formats
from lib.core import Case

RULE = ('Programs of one to five files, with includes (nested, in macros, in conditions), binary files and all four kinds of output '
        'file, in every format. A preloaded layer under stdio numbers every open, read, write and close a run makes; each in turn is '
        'made to fail (once, or from then on), with several error numbers. A run with a failure must exit 1 with a message naming '
        'the file. Also real failures: every file in turn missing, a directory, unreadable or unsearchable (as an unprivileged user), a name too '
        'long, a link loop, a full device, size limits from 0 to the size of each file, too few descriptors, standard streams closed, and '
        'reads cut short (1, 7, 4096 bytes at a time, or a FIFO), which must change nothing. Any run that exits 0 must have written '
        'every file completely. Non-trivial: a distinct (program, operation, failure).')

OUTS = ('out', 'lst', 'sym', 'exp')


def make(seed):
    r = random.Random(seed)
    files = {}
    main = ['; main', ' export E1', 'E1 equ $1234', ' export M1', 'M1 macro', ' fcb \\1', ' nop', ' endm', ' org $%x' % r.choice([0x100, 0x4000])]
    n = [0]

    def some(depth):
        out = []
        for _ in range(r.choice([1, 2, 5])):
            k = r.random()
            n[0] += 1
            if k < 0.3:
                out.append('l%d fcb %s' % (n[0], ','.join(str(r.randrange(256)) for _ in range(r.choice([1, 5, 40])))))
            elif k < 0.4:
                out.append(' lda fwd')
            elif k < 0.5:
                out.append(' M1 %d' % r.randrange(256))
            elif k < 0.6:
                out.append('s%d equ %d' % (n[0], r.randrange(70000)))
            elif k < 0.75 and depth < 4:
                f = 'inc%d.s' % n[0]
                sub = some(depth + 1)
                files[f] = ('\n'.join(sub) + r.choice(['\n', ''])).encode()
                out.append(' include "%s"' % f)
                if r.random() < 0.2:
                    out[-1:] = [' if 1', out[-1], ' endif']
            elif k < 0.9:
                f = 'bin%d' % n[0]
                files[f] = r.randbytes(r.choice([0, 1, 100, 511, 512, 513, 4096, 5000, 9000]))
                out.append(' includebin "%s"' % f)
            else:
                out += ['; ' + 'c' * r.choice([10, 200, 9000]), ' rzb %d' % r.choice([1, 100, 3000])]
        return out
    main += some(0)
    if r.random() < 0.25:
        # more than any buffer holds
        k = r.choice([4096, 5000, 8192, 8193, 16384, 20000])
        if r.random() < 0.5:
            files['big'] = r.randbytes(k)
            main.append(' includebin "big"')
        else:
            main.append(' rzb %d' % k if r.random() < 0.5 else ' fill $5a,%d' % k)
    nf = r.choice([1, 1, 2, 3])
    names = ['main.s'] + ['m%d.s' % i for i in range(1, nf)]
    files['main.s'] = ('\n'.join(main) + '\n').encode()
    for m in names[1:]:
        files[m] = ('\n'.join(some(2)) + '\n').encode()
    files[names[-1]] += b'fwd equ $2345\n'
    if r.random() < 0.3:
        files[names[-1]] += b' tfr a,x\n'
    return Case(files=files, mains=names, fmt=r.choice(list(formats.OPTION) + ['binary']))


ERRNO = {'o': ['ENOENT', 'EACCES', 'EMFILE', 'EINTR'], 'O': ['ENOSPC', 'EACCES', 'EROFS', 'EMFILE', 'ENOENT'], 'r': ['EIO', 'EISDIR', 'EINTR', 'EAGAIN', 'ESTALE'], 'w': ['ENOSPC', 'EIO', 'EDQUOT', 'EPIPE', 'EAGAIN'],
         'c': ['EIO', 'ENOSPC', 'EDQUOT'], 'C': ['EIO']}
NUM = {'ENOENT': 2, 'EINTR': 4, 'EIO': 5, 'EAGAIN': 11, 'EACCES': 13, 'EISDIR': 21, 'EMFILE': 24, 'ENOSPC': 28, 'EROFS': 30, 'EPIPE': 32, 'ESTALE': 116, 'EDQUOT': 122}
KIND = {'o': 'open for reading', 'O': 'open for writing', 'r': 'read', 'w': 'write', 'c': 'close after writing', 'C': 'close after reading'}


def names_file(err, name):
    return name.encode() in err


def judge(run, name, ref, outs):
    """None, or what is wrong with a run in which something on `name` failed."""
    if not run.clean:
        return 'ended with ' + run.status()
    if run.rc == 0:
        for o in outs:
            if run.files[o] != ref[o]:
                return 'exit 0 and %s is not complete' % o
        return 'exit 0'
    if not run.err.strip():
        return 'exit 1 without a message'
    if not names_file(run.err, name):
        return 'no message names %s: %s' % (name, run.err[:200])
    return None


def job(exe, so, full):
    def f(seed):
        case = make(seed)
        r = random.Random(seed + 'f')
        out = {'verdict': 'ok', 'digest': case.digest(), 'extra': {}}
        ex = out['extra']
        outs = OUTS if r.random() < 0.7 else tuple(o for o in OUTS if r.random() < 0.6)
        args = case.args(outs)
        ref = core.run_tool(exe, case.files, args, OUTS)
        if ref.rc != 0:
            if ref.clean and (b'overlap' in ref.err or b'addressable memory' in ref.err):
                return {'verdict': 'undecided', 'why': 'program in error', 'case': case}
            out.update(verdict='bad', kind='reference', why='a correct program is rejected: %s %s' % (ref.status(), ref.err[:200]), case=case)
            return out

        def bad(kind, why):
            case.extra = [a for a in args if a not in case.mains]
            out.update(verdict='bad', kind=kind, why=why, case=case)
            return out
        env = {'LD_PRELOAD': so, 'IOF_LOG': 'io.log'}
        base = core.run_tool(exe, case.files, args, OUTS + ('io.log',), env=env)
        if base.rc != 0 or any(base.files[o] != ref.files[o] for o in outs):
            return {'verdict': 'undecided', 'why': 'the program does its input and output some way the layer does not carry', 'case': case}
        log = [l.split(' ', 4) for l in base.files['io.log'].decode().split('\n') if l]
        ex['operations seen'] = len(log)
        # every file must have been seen, or the layer is not in effect
        seen = {l[4] for l in log}
        if not set(outs) <= seen or not set(case.mains) <= seen:
            return {'verdict': 'undecided', 'why': 'files are used that the layer does not see', 'case': case}
        pick = range(len(log))
        if not full and len(log) > 40:
            pick = sorted(r.sample(pick, 40))
        for i in pick:
            kind, name = log[i][1], log[i][4]
            errs = ERRNO[kind]
            for e in (errs if full else [r.choice(errs)]):
                for sticky in ([0, 1] if full else [r.randrange(2)]):
                    env = {'LD_PRELOAD': so, 'IOF_AT': str(i), 'IOF_ERRNO': str(NUM[e]), 'IOF_LOG': 'io.log'}
                    if sticky:
                        env['IOF_STICKY'] = '1'
                    run = core.run_tool(exe, case.files, args, OUTS + ('io.log',), env=env)
                    lg = [l.split(' ', 4) for l in (run.files['io.log'] or b'').decode(errors='replace').split('\n') if l]
                    if len(lg) <= i or lg[i][3] != '1':
                        ex['not reached'] = ex.get('not reached', 0) + 1
                        continue
                    what = '%s of %s (operation %d) failing with %s%s' % (KIND[kind], name, i, e, ' from then on' if sticky else '')
                    if kind == 'C':
                        # nothing is lost by this
                        if run.rc == 0 and all(run.files[o] == ref.files[o] for o in outs):
                            w = None
                        else:
                            w = judge(run, name, ref.files, outs)
                    else:
                        w = judge(run, name, ref.files, outs)
                    if w:
                        return bad(KIND[kind].split()[0], '%s: %s' % (what, w))
                    k = 'faults reported: ' + KIND[kind]
                    ex[k] = ex.get(k, 0) + 1
        # short reads are not failures
        for n in (1, 7, 100, 4095):
            if full or r.random() < 0.5:
                run = core.run_tool(exe, case.files, args, OUTS, env={'LD_PRELOAD': so, 'IOF_SHORT': str(n)})
                if run.rc != 0 or any(run.files[o] != ref.files[o] for o in outs):
                    return bad('short', 'reads of at most %d bytes: %s, or other output: %s' % (n, run.status(), run.err[:200]))
                ex['short reads agreed'] = ex.get('short reads agreed', 0) + 1
        return out
    return f


def real(exe):
    """Failures produced by the system itself."""
    def f(seed):
        case = make(seed)
        r = random.Random(seed + 'r')
        out = {'verdict': 'ok', 'digest': case.digest(), 'extra': {}}
        ex = out['extra']
        outs = OUTS
        args = case.args(outs)
        ref = core.run_tool(exe, case.files, args, OUTS)
        if ref.rc != 0:
            return {'verdict': 'undecided', 'why': 'program in error', 'case': case}

        def bad(kind, why):
            case.extra = []
            out.update(verdict='bad', kind=kind, why=why, case=case)
            return out

        def done(k):
            ex[k] = ex.get(k, 0) + 1
        # the files used: those reached from the mains
        used = [n for n in case.files]
        for n in used:
            how = r.choice(['missing', 'directory', 'loop', 'dangling', 'below a file'])
            files = {k: v for k, v in case.files.items() if k != n}

            def pre(d, n=n, how=how):
                p = os.path.join(d, n)
                if how == 'directory':
                    os.mkdir(p)
                elif how == 'loop':
                    os.symlink(n, p)
                elif how == 'dangling':
                    os.symlink('/nonexistent/x', p)
            run = core.run_tool(exe, files, args, OUTS, pre=pre)
            w = judge(run, n, ref.files, outs)
            if w is None and any(run.files[o] is not None for o in outs):
                w = 'a file was written'
            if w:
                return bad('source', 'source %s is %s: %s' % (n, how, w))
            done('source ' + how)
        for o in outs:
            how = r.choice(['directory', 'no directory', 'below a file', 'loop', 'too long', 'full', 'full'])
            name = {'no directory': 'none/' + o, 'below a file': 'main.s/' + o, 'too long': 'x' * 300, 'full': '/dev/full'}.get(how, o)
            if how == 'full' and not ref.files[o]:
                continue        # nothing to write

            def pre(d, o=o, how=how):
                if how == 'directory':
                    os.mkdir(os.path.join(d, o))
                elif how == 'loop':
                    os.symlink(o, os.path.join(d, o))
            a = [name if x == o else x for x in args]
            run = core.run_tool(exe, case.files, a, OUTS, pre=pre)
            w = judge(run, name, ref.files, outs)
            if w:
                return bad('destination', '%s is %s: %s' % (o, how, w))
            done('destination ' + how)
            if how in ('directory', 'loop') and r.random() < 0.5:
                # the good ones before and after
                pass
        # a limit on the size of a file, from nothing to just enough
        size = max(len(ref.files[o]) for o in outs)
        lims = {0, 1, size - 1, size, size // 2} | {len(ref.files[o]) for o in outs} | {max(0, len(ref.files[o]) - 1) for o in outs} | {r.randrange(size + 1) for _ in range(3)} | {4096, 8192}
        for lim in sorted(lims):
            if lim < 4096 and lim < 400:
                pass
            run = core.run_tool(exe, case.files, args, OUTS, fsize=lim, prefix=['/usr/bin/env', '--ignore-signal=XFSZ'], errpipe=True)
            if run.clean and run.rc == 0:
                for o in outs:
                    if run.files[o] != ref.files[o]:
                        return bad('size limit', 'exit 0 with a size limit of %d and %s incomplete (%d of %d bytes)' % (lim, o, len(run.files[o] or b''), len(ref.files[o])))
                done('size limit: complete')
            elif run.clean:
                big = [o for o in outs if len(ref.files[o]) > lim]
                if not big:
                    return bad('size limit', 'exit 1 although every file is within %d bytes: %s' % (lim, run.err[:200]))
                if not any(names_file(run.err, o) for o in big):
                    return bad('size limit', 'limit of %d: no message names %s: %s' % (lim, big, run.err[:200]))
                done('size limit: reported')
            else:
                return bad('size limit', 'limit of %d: %s' % (lim, run.status()))
        # descriptors
        for nfd in (3, 4, 5, 6, 8):
            run = core.run_tool(exe, case.files, args, OUTS, prefix=['/bin/sh', '-c', 'ulimit -n %d; exec "$@"' % nfd, 'sh'])
            if not run.clean and run.rc != 127:
                return bad('descriptors', 'with %d descriptors: %s' % (nfd, run.status()))
            if run.rc == 0 and any(run.files[o] != ref.files[o] for o in outs):
                return bad('descriptors', 'with %d descriptors: exit 0 with missing output' % nfd)
            if run.rc == 1 and not run.err.strip():
                return bad('descriptors', 'with %d descriptors: no message' % nfd)
            done('descriptors limited')
        # standard streams
        for cl in ('<&-', '>&-', '2>&-', '<&- >&-', '>&- 2>&-', '<&- 2>&-', '<&- >&- 2>&-', '>/dev/full', '2>/dev/full'):
            run = core.run_tool(exe, case.files, args, OUTS, prefix=['/bin/sh', '-c', 'exec "$@" ' + cl, 'sh'])
            if not run.clean or run.rc != 0:
                return bad('streams', 'with %s: %s' % (cl, run.status()))
            if any(run.files[o] != ref.files[o] for o in outs):
                return bad('streams', 'with %s: other output' % cl)
            done('standard streams closed or full')
        # from a FIFO
        n = r.choice(used)
        if n.endswith('.s'):
            data = case.files[n]

            def pre(d, n=n, data=data):
                p = os.path.join(d, n)
                os.unlink(p)
                os.mkfifo(p)

                def feed():
                    try:
                        fd = os.open(p, os.O_WRONLY)
                        i = 0
                        while i < len(data):
                            k = random.choice([1, 2, 50, 1000])
                            os.write(fd, data[i:i + k])
                            i += k
                        os.close(fd)
                    except OSError:
                        pass
                threading.Thread(target=feed, daemon=True).start()
            run = core.run_tool(exe, case.files, args, OUTS, pre=pre, wall=10, retry=False)
            if run.timeout:
                done('fifo: no answer')
            elif run.rc != 0 or any(run.files[o] != ref.files[o] for o in outs):
                return bad('fifo', '%s read from a FIFO: %s %s' % (n, run.status(), run.err[:200]))
            else:
                done('fifo')
        return out
    return f


def unprivileged(ctx, exe):
    """Permissions only bind another user."""
    import pwd
    import shutil
    import tempfile
    uid = 65534
    d = tempfile.mkdtemp(prefix='asmu.', dir='/tmp')
    try:
        os.chmod(d, 0o755)
        e = os.path.join(d, 'asm')
        shutil.copy(exe, e)
        os.chmod(e, 0o755)
        w = os.path.join(d, 'w')
        for trial in range(ctx.n(6, 40)):
            case = make('%s/%d/u%d' % (ctx.prop, ctx.seed, trial))
            r = random.Random('u%d/%d' % (trial, ctx.seed))
            for target in list(case.files) + list(OUTS) + ['']:
                shutil.rmtree(w, ignore_errors=True)
                os.mkdir(w)
                os.chown(w, uid, uid)
                for k, v in case.files.items():
                    p = os.path.join(w, k)
                    open(p, 'wb').write(v)
                    os.chmod(p, 0o000 if k == target else 0o644)
                if target in OUTS:
                    p = os.path.join(w, target)
                    open(p, 'wb').write(b'old')
                    os.chmod(p, 0o444)
                if not target:
                    os.chmod(w, 0o555)

                def drop():
                    os.setgroups([])
                    os.setgid(uid)
                    os.setuid(uid)
                try:
                    p = subprocess.run([e] + case.args(OUTS), cwd=w, preexec_fn=drop, capture_output=True, timeout=60, stdin=subprocess.DEVNULL)
                except (OSError, subprocess.SubprocessError):
                    ctx.assumptions.append('could not run as another user: permissions were not exercised')
                    return
                ctx.evaluations += 1
                ctx.distinct.add('%s %s' % (case.digest(), target))
                why = None
                if p.returncode != 1:
                    why = 'exit %d' % p.returncode
                elif not p.stderr.strip():
                    why = 'no message'
                elif target and target.encode() not in p.stderr:
                    why = 'no message names it: %s' % p.stderr[:200]
                elif target in OUTS and open(os.path.join(w, target), 'rb').read() != b'old':
                    why = 'it was changed'
                if why:
                    ctx.violate('permission', '%s not permitted: %s' % (target or 'creating files', why), case, case.args(OUTS))
                    return
                ctx.count('permission denied, reported')
    finally:
        shutil.rmtree(d, ignore_errors=True)


def run(ctx):
    ctx.rule = RULE
    ctx.level = 'fault_enumeration'
    exe = build.build('plain')
    so = build.shim('io', os.path.join(core.VERIF, 'shim', 'io.c'))
    base = '%s/%d/' % (ctx.prop, ctx.seed)
    c = make(base + 'f0')
    ctx.sample({'files': {k: len(v) for k, v in c.files.items()}, 'args': c.args(OUTS), 'main': c.files['main.s'][:400].decode('latin-1')})
    from checks.c09 import drive
    drive(ctx, job(exe, so, False), [base + 'f%d' % i for i in range(ctx.n(200, 2500))], 'fault')
    drive(ctx, job(exe, so, True), [base + 'F%d' % i for i in range(ctx.n(16, 200))], 'every fault')
    drive(ctx, real(exe), [base + 'r%d' % i for i in range(ctx.n(100, 1500))], 'real')
    unprivileged(ctx, exe)
    n = sum(v for k, v in ctx.counts.items() if k.startswith('faults reported'))
    if not n:
        ctx.assumptions.append('no fault was injected: the layer was not in effect')
    ctx.evaluations += n
