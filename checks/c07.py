"""C07: branches encode the distance to their target or are rejected."""
import random

from lib import build, core, formats, isa
from lib.core import Case

RULE = ('Every branch mnemonic to targets at every distance -135..135 from the next instruction, around the 16-bit wrap '
        'and at random, the target being a number, *, a label before or after (with the distance made up of data, '
        'instructions of varying size or reserved space), a local label, in another section, under PUT, or inside a '
        'macro. For an accepted branch the offset in the output is added to the address of the next instruction and '
        'must give the target modulo 64K; a short branch must be rejected exactly when no such offset exists. '
        'Non-trivial: a distinct (mnemonic, distance, placement) judged.')

SHORT = sorted(n for n, o in isa.OPS_6809.items() if o['k'] == 'rel8')
LONG = sorted(n for n, o in isa.OPS_6809.items() if o['k'] == 'rel16')


def filler(r, n):
    """Lines occupying exactly n bytes."""
    out = []
    while n > 0:
        k = r.randrange(6)
        if k == 0 and n >= 2:
            out.append(' lda #%d' % r.randrange(256))
            n -= 2
        elif k == 1 and n >= 3:
            out.append(' ldx #%d' % r.randrange(65536))
            n -= 3
        elif k == 2 and n >= 4:
            out.append(' ldy #1')
            n -= 4
        elif k == 3:
            m = r.randrange(1, n + 1)
            out.append(' rzb %d' % m)
            n -= m
        elif k == 4:
            m = r.randrange(1, n + 1)
            out.append(' rmb %d' % m)
            n -= m
        else:
            out.append(' nop')
            n -= 1
    return out


def make(seed, op, d, how):
    """A program with one branch whose target is d bytes past the next
    instruction.  Returns (case, address, target, reachable)."""
    r = random.Random(seed)
    o = isa.OPS_6809[op]
    short = o['k'] == 'rel8'
    size = (2 if o['code'] > 255 else 1) + (1 if short else 2)
    name = r.choice([op, op, op.upper()])
    ok = not short or -128 <= d <= 127
    pre = '>' if not short and r.random() < 0.3 else ''
    if how == 'label' and (d >= 0 or d < -size):
        local = r.random() < 0.5
        base = r.choice([0x1000, 0x7f80, 0x100, 0xc000])
        if d >= 0:
            a = base
            if d > 0x3000:
                mid = [' rmb %d' % d]
            else:
                mid = filler(r, d)
            src = [' org $%x' % a, '%s %s %s%s' % ('BR', name, pre, '5f' if local else 'T')] + mid + ['%s nop' % ('5' if local else 'T')]
            target = a + size + d
        else:
            gap = -d - size
            target = base
            a = target + gap
            body = filler(r, gap - 1) if gap > 1 else []
            if gap >= 1:
                src = [' org $%x' % target, '%s nop' % ('5' if local else 'T')] + body
            else:
                src = [' org $%x' % target, '%s' % ('5' if local else 'T')]
            src.append('%s %s %s%s' % ('BR', name, pre, '5b' if local else 'T'))
        if target > 0xfff0 or a < 0 or a > 0xfff0:
            return make(seed, op, d, 'number')
        return Case(src), a, target & 0xffff, ok
    a = r.choice([0, 0x20, 0x7ff0, 0x8000, 0xfff0, 0xfffc, 0x1234, r.randrange(0xfff0)])
    target = (a + size + d) & 0xffff
    if how == 'pc':
        src = [' org $%x' % a, ' %s %s*%+d' % (name, pre, size + d)]
    elif how == 'macro':
        src = ['M macro', ' %s %s\\1' % (name, pre), ' endm', ' org $%x' % a, ' M $%x' % target]
    elif how == 'equ':
        src = [' org $%x' % a, ' %s %sT' % (name, pre), 'T equ $%x' % target]
    elif how == 'section':
        src = [' section "b"', ' org $%x' % target, 'T fcb 1' if target < 0xffff and not (a - 1 <= target <= a + 4) else 'T', ' section "c"', ' org $%x' % a,
               ' %s %sT' % (name, pre)]
    elif how == 'put':
        p = (a + 0x2000) & 0x7fff
        src = [' org $%x' % a, ' put $%x' % p, ' %s %s$%x' % (name, pre, target)]
        return Case(src), (p, a), target, ok
    else:
        src = [' org $%x' % a, ' %s %s$%x' % (name, pre, target)]
    return Case(src), a, target, ok


def job(exe):
    def f(j):
        seed, op, d, how = j
        case, a, target, ok = make(*j)
        put, pc = a if isinstance(a, tuple) else (a, a)
        run = core.run_tool(exe, case.files, case.args(('out',)), ('out',))
        out = {'verdict': 'ok', 'case': None, 'ok': ok}

        def bad(kind, why):
            out.update(verdict='bad', kind=kind, case=case, why='%s, distance %d (%s): %s' % (op, d, how, why))
            return out
        if not run.clean:
            return bad('crash', run.status())
        if (run.rc == 0) != ok:
            return bad('accepted' if run.rc == 0 else 'rejected', 'exit %d %s' % (run.rc, run.err[:200]))
        if not ok:
            return out
        mem = formats.srec(run.files['out'])[0]
        o = isa.OPS_6809[op]
        code = ([o['code'] >> 8] if o['code'] > 255 else []) + [o['code'] & 255]
        n = len(code)
        if [mem.get(put + i) for i in range(n)] != code:
            return bad('opcode', 'wrong opcode')
        if o['k'] == 'rel8':
            off = mem[put + n]
            off -= 256 if off > 127 else 0
            nxt = pc + n + 1
        else:
            off = mem[put + n] << 8 | mem[put + n + 1]
            nxt = pc + n + 2
        if (nxt + off) & 0xffff != target:
            return bad('target', 'goes to $%04X, not $%04X' % ((nxt + off) & 0xffff, target))
        return out
    return f


def run(ctx):
    ctx.rule = RULE
    exe = build.build('plain')
    r = ctx.rng
    jobs = []
    hows = ['number', 'pc', 'macro', 'equ', 'section', 'put', 'label']
    for d in list(range(-135, 136)):
        for how in hows:
            for op in r.sample(SHORT, ctx.n(2, len(SHORT))) + r.sample(LONG, ctx.n(1, 6)):
                jobs.append((('%d/%d' % (ctx.seed, len(jobs))), op, d, how))
    for op in SHORT + LONG:
        for d in [-129, -128, 127, 128, 0, -2, -3, -4, 32767, -32768, 255, 256, -256, 1000] + [r.randrange(-32768, 32768) for _ in range(ctx.n(4, 200))]:
            jobs.append((('%d/%d' % (ctx.seed, len(jobs))), op, d, r.choice(hows)))
    for j in jobs[:: max(1, len(jobs) // 4)][:4]:
        c = make(*j)[0]
        ctx.sample({'branch': j[1:], 'main': c.files['main.s'].decode()[:400]})
    f = job(exe)
    for j, t in zip(jobs, core.pmap(f, jobs)):
        ctx.evaluations += 1
        if t.get('harness'):
            ctx.log(t['why'])
            continue
        ctx.distinct.add(j[1:])
        if t['verdict'] == 'bad':
            ctx.violate('branch-' + t['kind'], t['why'], t['case'], t['case'].args())
        else:
            ctx.count('accepted, target checked' if t['ok'] else 'rejected, as out of reach')
    # many branches together; lengths between them settle over several passes
    cases = []
    for i in range(ctx.n(600, 10000)):
        n = r.randrange(2, 60)
        src = [' org $%x' % r.choice([0, 0x1000, 0x7f80, 0xe000])]
        if r.random() < 0.5:
            src.append(' setdp $%x' % r.choice([0, 0x10, 0x7f, 0xe0]))
        for j in range(n):
            k = r.random()
            lo = max(0, j - r.choice([5, 20, 45]))
            hi = min(n - 1, j + r.choice([5, 20, 45]))
            t = 'A%d' % r.randrange(lo, hi + 1)
            if k < 0.5:
                src.append('A%d %s %s' % (j, r.choice(SHORT), t))
            elif k < 0.7:
                src.append('A%d %s %s' % (j, r.choice(LONG), t))
            elif k < 0.85:
                src.append('A%d %s %s' % (j, r.choice(['lda', 'stx', 'jmp', 'ldy']), t))
            else:
                src.append('A%d %s %s,pcr' % (j, r.choice(['leax', 'ldd', 'jsr']), t))
        cases.append(Case(src))
    core.campaign(ctx, exe, cases, ('status', 'image'), 'branches together')
    neg = []
    for op in SHORT + LONG:
        for t in ('nowhere', 'a', '"x"+a', '', '1,2', '#', '9f', '9b', '[1]'):
            neg.append(Case([' %s %s' % (op, t)]))
    core.campaign(ctx, exe, neg, ('status',), 'no target')
    core.campaign(ctx, exe, core.randoms(ctx, ctx.n(500, 10000), weights={'instr': 40, 'local': 30, 'label': 15}),
                  ('status', 'image'), 'random')
