"""C03: 6809 instructions assemble to the MC6809 encoding."""
import random

from lib import build, core, isa, isacases

RULE = ('Systematic: every MC6809 mnemonic (aliases included, in random letter case) with every operand kind it '
        'takes - all 255 register lists, all register pairs, immediates at every truncation boundary, every '
        'addressing mode - and every mnemonic with operands it does not take, assembled for both processors, '
        'in shuffled programs; plus random programs. A case is the source text and options; it is non-trivial '
        'when the reference model could predict its result.')


def run(ctx):
    ctx.rule = RULE
    exe = build.build('plain')
    r = ctx.rng
    ops = isa.OPS_6809
    names = sorted(ops)
    facets = ('status', 'image')
    for is6309 in (False, True):
        reps = ctx.n(2, 12)
        for _ in range(reps):
            pos = isacases.positives(r, ops, names, is6309)
            ctx.count('instruction lines', len(pos))
            core.campaign(ctx, exe, isacases.programs(r, pos, is6309, chunk=r.choice([10, 40, 80])), facets,
                          'encodings')
        core.campaign(ctx, exe, isacases.negatives(r, ops, names, is6309), facets, 'invalid operands')
    ctx.count('mnemonics', len(names))
    w = {'instr': 80, 'if': 0, 'include': 0, 'includebin': 0, 'export': 0, 'macrodef': 1, 'section': 1}
    core.campaign(ctx, exe, core.randoms(ctx, ctx.n(1500, 40000), weights=w, isa6309=False, unstable=0), facets, 'random')
