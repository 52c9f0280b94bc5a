"""C06: direct addressing is used exactly when the assumed direct page allows."""
import random

from lib import build, core, formats, isa
from lib.core import Case

RULE = ('Random sequences of SETDP, SECTION switches and memory-operand instructions over all mnemonics with a direct '
        'form, with addresses inside, next to and far from the assumed page, plain, forced with < and >, immediate, '
        'defined before or after use, under every kind of initial direct page (none, option, negative). Each '
        'instruction is classified from its opcode byte as direct or extended against a rule stated directly from the '
        'property, and each program compared with the model. Non-trivial: a distinct program with its rule verdict.')

MEM = sorted(n for n, o in isa.OPS_6809.items() if 'dir' in o)
MEM6 = sorted(n for n, o in isa.OPS_6309.items() if 'dir' in o)


def make(seed):
    r = random.Random(seed)
    six = r.random() < 0.4
    opt = r.choice([None, None, None, 0, 1, 0x12, 0x7f, 0x80, 0xff])
    pages = [r.randrange(256) for _ in range(3)] + [0, 0xff]
    dp0 = -1 if opt is None else opt
    dp = {}
    cur = 'CODE'
    src = []
    late = []
    exp = []      # (address, op, form, low)
    base = {}
    nxt = [0x1000]
    addr = {}

    def place():
        if cur not in addr:
            addr[cur] = nxt[0]
            nxt[0] += 0x1800
            src.append(' org $%x' % addr[cur])
    place()
    names = 0
    for i in range(r.choice([5, 15, 40])):
        k = r.random()
        if k < 0.12:
            v = r.choice(pages + [-1, 256, 0x1ff, -200])
            if r.random() < 0.3:
                src.append('P%d equ %d' % (i, v))
                src.append(' setdp P%d' % i)
            else:
                src.append(' setdp %d' % v)
            dp[cur] = v & 0xff if v >= 0 else -1
            continue
        if k < 0.22:
            cur = r.choice(['CODE', 'one', 'two', 'three'])
            src.append(' section "%s"' % cur)
            place()
            continue
        op = r.choice(MEM6 if six else MEM)
        o = (isa.OPS_6309 if six else isa.OPS_6809)[op]
        page = r.choice(pages + [dp.get(cur, dp0) & 0xff] * 3)
        v = page << 8 | r.choice([0, 255, r.randrange(256)])
        if r.random() < 0.3:
            v = (v + r.choice([-1, 1, 256, -256])) & 0xffff
        w = v
        if r.random() < 0.1:
            w = v + r.choice([0x10000, -0x10000])     # the address is taken modulo 64K
        k = r.randrange(4)
        if k == 0:
            t = str(w)
        elif k == 1:
            names += 1
            t = 'B%d' % names
            src.append('%s equ %d' % (t, w))
        elif k == 2:
            names += 1
            t = 'F%d' % names
            late.append('%s equ %d' % (t, w))
        else:
            names += 1
            t = 'F%d+%d' % (names, 3)
            late.append('F%d equ %d' % (names, w - 3))
        force = r.choice(['', '', '', '', '<', '>'])
        pre = ''
        if o['k'] == 'immmem':
            pre = '#%d,' % r.randrange(256)
        d = dp.get(cur, dp0)
        direct = force == '<' or (force == '' and d == v >> 8)
        # fixed position for each instruction
        src.append(' org $%x' % addr[cur])
        src.append(' %s %s%s%s' % (r.choice([op, op.upper()]), pre, force, t))
        exp.append((addr[cur], op, direct, v, bool(pre)))
        addr[cur] += 8
    case = Case(src + late, isa6309=six, setdp=opt)
    if opt is None and r.random() < 0.2:
        case.setdp = None
    return case, exp


def job(exe):
    def f(seed):
        case, exp = make(seed)
        res = core.compare(exe, case, ('status', 'image'))
        out = core.trim(res)
        out['n'] = 0
        if res['verdict'] != 'ok' or res['run'].rc != 0:
            return out
        mem = formats.srec(res['run'].files['out'])[0]
        c = {'direct': 0, 'extended': 0}
        for a, op, direct, v, imm in exp:
            o = (isa.OPS_6309 if case.isa6309 else isa.OPS_6809)[op]
            code = o['dir'] if direct else o['ext']
            want = ([code >> 8] if code > 255 else []) + [code & 255]
            i = len(want)
            got = [mem.get(a + j) for j in range(i)]
            operand = [v & 255] if direct else [v >> 8, v & 255]
            i += imm
            go = [mem.get(a + i + j) for j in range(len(operand))]
            if got != want or go != operand or a + i + len(operand) in mem:
                out.update(verdict='bad', kind='form', case=case,
                           why='%s with operand $%04X at $%04X: expected %s addressing' % (op, v, a, 'direct' if direct else 'extended'))
                return out
            c['direct' if direct else 'extended'] += 1
        out['extra'] = c
        return out
    return f


def run(ctx):
    ctx.rule = RULE
    exe = build.build('plain')
    f = job(exe)
    n = ctx.n(2500, 60000)
    seeds = ['%s/%d/%d' % (ctx.prop, ctx.seed, i) for i in range(n)]
    for s in seeds[:2]:
        c, e = make(s)
        ctx.sample({'args': ' '.join(c.args()), 'main': c.files['main.s'].decode()[:500]})
    for t in core.pmap(f, seeds):
        ctx.evaluations += 1
        if t.get('harness'):
            ctx.log(t['why'])
            continue
        if t['verdict'] == 'undecided':
            ctx.undecided[t['why'][:60]] = ctx.undecided.get(t['why'][:60], 0) + 1
            continue
        ctx.distinct.add(t['digest'])
        for k, v in (t.get('extra') or {}).items():
            ctx.count(k + ' operands classified', v)
        if t['verdict'] == 'bad':
            ctx.violate('form-' + t['kind'], t['why'], t['case'], t['case'].args())
    # final values that only settle after several passes, and what must not be direct
    r = ctx.rng
    cases = []
    for i in range(ctx.n(400, 6000)):
        pg = r.randrange(0, 255)
        n = r.randrange(1, 60)
        src = [' setdp $%02x' % pg, ' org $%x' % (pg << 8 | r.choice([0x00, 0x80, 0xf0, 0xe0]))]
        # labels that move across the end of the page as earlier lines shrink
        for j in range(n):
            src.append('%s %s %s%s' % ('A%d' % j, r.choice(['lda', 'sta', 'jmp', 'ldx', 'sty', 'clr']), r.choice(['', '', '<', '>']),
                                       'A%d' % r.randrange(n)))
        cases.append(Case(src))
    core.campaign(ctx, exe, cases, ('status', 'image'), 'operands in the page being assembled')
    reg = []
    for sd in ('0', '1', '$12', '0xff', '255'):
        for ad in (0x34, 0x134, 0x1234, 0xff34):
            reg.append(Case([' lda $%x' % ad, ' section "two"', ' org $200', ' lda $%x' % ad, ' jsr $%x' % ad], setdp=sd))
    core.campaign(ctx, exe, reg, ('status', 'image'), 'initial direct page')
    core.campaign(ctx, exe, core.randoms(ctx, ctx.n(600, 15000), weights={'setdp': 10, 'section': 6, 'instr': 60}, opts=True),
                  ('status', 'image'), 'random')
