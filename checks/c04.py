"""C04: 6309 extensions assemble correctly, and only when selected."""
import random

from lib import build, core, isa, isacases
from lib.core import Case

RULE = ('Systematic: every HD6309-only mnemonic with every operand kind (all register pairs with the extra registers, '
        'all TFM forms, all bit numbers, W-indexed modes on every instruction, 32-bit immediates) under -3; the same '
        'lines one at a time without -3, where each must be rejected; each name used as label, symbol and macro '
        'without -3; and random 6809 programs assembled both ways with the output files compared byte for byte. '
        'Non-trivial: the model predicts the result, or both runs succeeded.')


def both_ways(exe):
    def f(case):
        out = {'verdict': 'ok', 'digest': case.digest(), 'case': None}
        runs = []
        for six in (False, True):
            c = Case(files=case.files, isa6309=six, fmt='srec', setdp=case.setdp)
            runs.append(core.run_tool(exe, c.files, c.args(), ('out', 'lst', 'sym')))
        a, b = runs
        out['nt'] = a.rc == 0 and b.rc == 0
        if a.status() != b.status() or a.files != b.files:
            d = [k for k in a.files if a.files[k] != b.files[k]]
            out.update(verdict='bad', kind='differs', case=case,
                       why='6809 program differs between -9 and -3: %s / %s, files %s\n%s' % (a.status(), b.status(), d, b.err[:300]))
        return out
    return f


def run(ctx):
    ctx.rule = RULE
    exe = build.build('plain')
    r = ctx.rng
    ops = isa.OPS_6309
    only = sorted(set(isa.OPS_6309) - set(isa.OPS_6809))
    facets = ('status', 'image')
    for _ in range(ctx.n(2, 12)):
        pos = isacases.positives(r, ops, only + ['tfr', 'exg'], True)
        ctx.count('instruction lines', len(pos))
        core.campaign(ctx, exe, isacases.programs(r, pos, True, chunk=r.choice([10, 40, 80])), facets, 'encodings')
    # extra indexed modes on every instruction that has them
    lines = []
    for n in sorted(ops):
        o = ops[n]
        if 'idx' in o:
            for a in isacases.INDEXED_W:
                lines.append((n, ('#3,' if o['k'] == 'immmem' else '') + a))
    core.campaign(ctx, exe, isacases.programs(r, lines, True), facets, 'extra indexed modes')
    core.campaign(ctx, exe, isacases.negatives(r, ops, only + ['tfr', 'exg', 'pshs', 'lda', 'leax'], True), facets,
                  'invalid operands')
    # nothing of it without -3
    neg = []
    for n, a in isacases.positives(r, ops, only, True, density=0.06):
        neg.append(Case([' %s %s' % (n, a.replace('nearby', '*'))]))
    for a in isacases.INDEXED_W:
        for n in ('lda', 'leax', 'jmp'):
            neg.append(Case([' %s %s' % (n, a)]))
    for p in ('e,a', 'a,f', 'w,d', 'x,v', 'v,w', 'e,f'):
        for n in ('tfr', 'exg', 'TFR'):
            neg.append(Case([' %s %s' % (n, p)]))
    for n in only:
        neg.append(Case([' %s' % n]))
    # where 0 is a register only with -3
    for n in ('tfr', 'exg'):
        for a in range(16):
            for p in ('%d,%d' % (a, r.randrange(16)), '%d,0' % a, '0,%d' % a, '%d,%s' % (a, r.choice(['a', 'b', 'x', 'd', 'pc', 'cc'])), '%s,%d' % (r.choice(['a', 'b', 'dp', 'y', 'u', 's']), a)):
                neg.append(Case([' %s %s' % (n, p)], isa6309=r.random() < 0.3))
    core.campaign(ctx, exe, neg, facets + ('diag',), 'rejected by 6809')
    # the names are free
    free = []
    for n in only + ['e', 'f', 'w', 'q', 'v', 'E', 'W']:
        v = r.randrange(65536)
        free.append(Case([' org $2000', '%s equ %d' % (n, v), ' ldx #%s' % n, ' fdb %s+1' % n]))
        free.append(Case([' org $2000', '%s lda #1' % n, ' jmp %s' % n, ' fdb %s' % n]))
        free.append(Case([' org $2000', '%s macro' % n, ' fcb \\1,%d' % (v & 255), ' endm', ' %s 7' % n, ' %s "ab"' % n]))
    core.campaign(ctx, exe, free, ('status', 'image', 'symbols'), 'names are free')
    # 6809 programs are the same either way
    f = both_ways(exe)
    progs = [core.make_random('%s/both/%d/%d' % (ctx.prop, ctx.seed, i), dict(isa6309=False))
             for i in range(ctx.n(800, 15000))]
    for t in core.pmap(f, progs):
        ctx.evaluations += 1
        if t.get('harness'):
            ctx.log(t['why'])
            continue
        if t['nt']:
            ctx.distinct.add(t['digest'])
            ctx.count('6809 programs compared under both processors')
        if t['verdict'] == 'bad':
            ctx.violate(t['kind'], t['why'], t['case'], t['case'].args())
    core.campaign(ctx, exe, core.randoms(ctx, ctx.n(1500, 40000), weights={'instr': 70}, isa6309=True), facets, 'random')
    ctx.count('mnemonics', len(only))
