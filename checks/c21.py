"""C21: running out of memory fails cleanly."""
import os
import random
import struct

from lib import build, core, formats, soup
from lib.core import Case
from checks.c09 import drive

RULE = ('Small random programs using every feature, correct and in error, with all four kinds of output file. A preloaded layer numbers '
        'every allocation of a run, those inside the C library included, and records the call stack of each; for every distinct stack the first, '
        'the last and one other allocation are made to fail, singly and with all that follow, and in some programs every allocation. '
        'Address-space limits of every size do the same for real. The run must exit 1 with a message, or succeed with '
        'exactly the output files of a run without the failure. Non-trivial: a distinct (program, allocation) failed.')

OUTS = ('out', 'lst', 'sym', 'exp')


def make(seed):
    r = random.Random(seed)
    k = r.random()
    if k < 0.15:
        c = soup.make_soup(seed)
    elif k < 0.3:
        c = soup.make_mutant(seed)
    else:
        c = core.make_random(seed, {'sizes': (3, 6, 10, 20), 'opts': True, 'fmts': list(formats.OPTION), 'weights': {'export': 3, 'includebin': 2, 'include': 3, 'macrouse': 6, 'macrodef': 3, 'local': 5}})
    if r.random() < 0.1:
        # long tokens, deep expressions, many symbols: everything that grows
        c.files['main.s'] += b'%s equ 5\n fcc "%s"\n fcb %s1%s\n rzb 5000\n' % (b'L' * 5000, b's' * 9000, b'(' * 150, b')' * 150)
    return c


def job(exe, so, every):
    def f(seed):
        case = make(seed)
        r = random.Random(seed + 'm')
        outs = OUTS if r.random() < 0.7 else ('out',)
        args = case.args(outs)
        out = {'verdict': 'ok', 'digest': case.digest(), 'extra': {}}
        ex = out['extra']

        def bad(kind, why):
            case.extra = [a for a in args if a not in case.mains]
            out.update(verdict='bad', kind=kind, why=why, case=case)
            return out
        ref = core.run_tool(exe, case.files, args, OUTS)
        if not ref.clean:
            return bad('crash', 'without any failure: ' + ref.status())
        base = core.run_tool(exe, case.files, args, ('mem.log',) + OUTS, env={'LD_PRELOAD': so, 'MEMF_LOG': 'mem.log'})
        log = base.files['mem.log']
        if base.rc != ref.rc or not log:
            return {'verdict': 'undecided', 'why': 'the allocation layer is not in effect', 'case': case}
        hs = struct.unpack('<%dQ' % (len(log) // 8), log)
        at = {}
        for i, h in enumerate(hs):
            at.setdefault(h, []).append(i)
        ex['allocations seen'] = len(hs)
        ex['call stacks seen'] = len(at)
        if every:
            todo = [(i, a) for i in range(len(hs)) for a in (False, True)]
            if len(todo) > 4000:
                todo = r.sample(todo, 4000)
        else:
            todo = []
            for v in at.values():
                for i in {v[0], v[-1], r.choice(v)}:
                    todo.append((i, r.random() < 0.4))
            n = 120
            if len(todo) > n:
                todo = r.sample(todo, n)
        for i, a in todo:
            env = {'LD_PRELOAD': so, 'MEMF_AT': str(i), 'MEMF_HIT': 'mem.hit'}
            if a:
                env['MEMF_ALL'] = '1'
            run = core.run_tool(exe, case.files, args, OUTS + ('mem.hit',), env=env)
            if run.files['mem.hit'] is None:
                ex['not reached'] = ex.get('not reached', 0) + 1
                continue
            what = 'allocation %d of %d failing%s' % (i, len(hs), ' and all after it' if a else '')
            if not run.clean:
                return bad('crash', '%s: ended with %s: %s' % (what, run.status(), run.err[-300:]))
            if run.rc == 1:
                if not run.err.strip():
                    return bad('silent', '%s: exit 1 without a message' % what)
                ex['failed cleanly'] = ex.get('failed cleanly', 0) + 1
            else:
                if ref.rc != 0:
                    return bad('accepted', '%s: a program in error is accepted' % what)
                for o in outs:
                    if run.files[o] != ref.files[o]:
                        return bad('output', '%s: exit 0 and %s is %s' % (what, o, 'missing' if run.files[o] is None else 'different'))
                ex['succeeded all the same'] = ex.get('succeeded all the same', 0) + 1
        return out
    return f


def limits(exe):
    """The same by limiting the address space."""
    def f(seed):
        r = random.Random(seed)
        n = r.choice([2000, 10000, 30000])
        lines = [' org 0'] + [r.choice(['l%d equ %d' % (i, i), ' nop', ' fdb k0', '; %s' % ('x' * r.randrange(200)), 'j%d nop' % i]) for i in range(n)] + ['k0 equ 5']
        case = Case(lines, fmt=r.choice(list(formats.OPTION)))
        args = case.args(OUTS)
        out = {'verdict': 'ok', 'digest': case.digest(), 'extra': {}}
        ref = core.run_tool(exe, case.files, args, OUTS)
        for _ in range(6):
            lim = r.randrange(2 << 20, 40 << 20)
            run = core.run_tool(exe, case.files, args, OUTS, mem=lim)
            if run.rc == 127 or b'loading shared' in run.err:
                out['extra']['too small to start'] = out['extra'].get('too small to start', 0) + 1
                continue
            if run.sig in (7, 11):
                # the limit also stops the stack from growing, and the loader
                out['extra']['no answer'] = out['extra'].get('no answer', 0) + 1
                continue
            why = None
            if not run.clean:
                why = 'ended with ' + run.status()
            elif run.rc == 1 and not run.err.strip():
                why = 'exit 1 without a message'
            elif run.rc == 0 and (ref.rc or any(run.files[o] != ref.files[o] for o in OUTS)):
                why = 'exit 0 with other output'
            if why:
                out.update(verdict='bad', kind='limit', why='with %d bytes of memory: %s' % (lim, why), case=case)
                return out
            k = 'limited memory: ' + ('done' if run.rc == 0 else 'failed cleanly' if b'memory' in run.err else 'in error')
            out['extra'][k] = out['extra'].get(k, 0) + 1
        return out
    return f


def run(ctx):
    ctx.rule = RULE
    ctx.level = 'fault_enumeration'
    exe = build.build('plain')
    so = build.shim('mem', os.path.join(core.VERIF, 'shim', 'mem.c'))
    base = '%s/%d/' % (ctx.prop, ctx.seed)
    c = make(base + 's0')
    ctx.sample({'args': c.args(OUTS), 'main': c.files['main.s'][:600].decode('latin-1')})
    drive(ctx, job(exe, so, False), [base + 's%d' % i for i in range(ctx.n(80, 3000))], 'site')
    drive(ctx, job(exe, so, True), [base + 'e%d' % i for i in range(ctx.n(2, 60))], 'every')
    drive(ctx, limits(exe), [base + 'l%d' % i for i in range(ctx.n(16, 200))], 'limit')
    n = ctx.counts.get('failed cleanly', 0) + ctx.counts.get('succeeded all the same', 0)
    if not n:
        ctx.assumptions.append('no allocation was made to fail: the layer was not in effect')
    ctx.evaluations += n
