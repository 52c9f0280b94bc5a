"""C12: code and data are placed where ORG, PUT, RMB, ALIGN and SECTION say."""
import random

from lib import build, core, formats, scale
from lib.core import Case
from checks.c09 import drive

RULE = ('Random sequences of ORG, PUT, RMB, ALIGN, data of chosen sizes (including 1, 127..129, 255..257, 4095..4097), section '
        'switches (string, constant and the CODE..AUTO forms) with and without an address, entered from one another in '
        'any order, labels on every kind of line. A small independent simulation places every byte and label; overlap '
        'and impossible addresses are decided from it. The memory image is decoded from SREC or CoCo output, labels '
        'from the symbols file. Programs whose sections and directives change between passes must come out as if the '
        'conditions were known from the start. Non-trivial: a distinct program with at least two placements.')


def sizes(r):
    return r.choice([1, 1, 2, 3, 5, 16, 32, 33, 64, 127, 128, 129, 255, 256, 257, r.randrange(1, 600), r.choice([4095, 4096, 4097])])


def make(seed):
    r = random.Random(seed)
    names = ['CODE', 'DATA', 'BSS', 'RAM', 'AUTO', 'code', 'x y', 'two', 'Z'][:]
    r.shuffle(names)
    secs = ['CODE'] + [n for n in names if n != 'CODE'][:r.choice([0, 1, 2, 5])]
    src = []
    ev = []          # (op, value)
    nlab = 0
    late = []
    consts = 0
    wild = r.random() < 0.35          # placements anywhere: most overlap
    slot = [0]

    def place():
        """An address for a placement."""
        if wild:
            return r.choice([r.randrange(0, 0x10000), r.randrange(0, 0x400), 0xff00 + r.randrange(0x100), 0])
        slot[0] += 1
        return (slot[0] * 0x1400 + r.randrange(0x80)) & 0xffff

    def val(v):
        nonlocal consts
        k = r.random()
        if k < 0.6:
            return r.choice(['%d', '$%x', '0x%04x'] if v >= 0 else ['%d']) % v
        consts += 1
        late.append('k%d equ %d' % (consts, v)) if r.random() < 0.5 else src.append('k%d equ %d' % (consts, v))
        return 'k%d' % consts

    def lab():
        nonlocal nlab
        if r.random() < 0.4:
            nlab += 1
            return 'l%d' % nlab
        return ''
    n = r.choice([3, 6, 12, 25, 60])
    bad_ok = r.random() < 0.15
    for i in range(n):
        k = r.random()
        if k < 0.3:
            sz = sizes(r)
            b = r.randrange(256)
            l = lab()
            form = r.randrange(4)
            if form == 0 and sz <= 64:
                src.append('%s fcb %s' % (l, ','.join([str(b)] * sz)))
            elif form == 1 and sz % 2 == 0 and sz < 70:
                src.append('%s fdb %s' % (l, ','.join(['$%02x%02x' % (b, b)] * (sz // 2))))
            elif form == 2 and sz < 300:
                b = 0x41 + b % 26
                src.append('%s fcc "%s"' % (l, chr(b) * sz))
            else:
                src.append('%s fill %d,%d' % (l, b, sz))
            ev.append(('data', (sz, b), l))
        elif k < 0.42:
            v = place()
            if bad_ok and r.random() < 0.3:
                v = r.choice([0x10000, -1, 0xffff, 0x20000, 70000])
            src.append('%s org %s' % (lab(), ''))
            l = src.pop().split(' ')[0]
            t = val(v)
            src.append('%s org %s' % (l, t))
            ev.append(('org', v, l))
        elif k < 0.5:
            v = place()
            if bad_ok and r.random() < 0.3:
                v = r.choice([0x10000, -1, 0xffff])
            l = lab()
            t = val(v)
            src.append('%s put %s' % (l, t))
            ev.append(('put', v, l))
        elif k < 0.6:
            v = r.choice([0, 1, 2, 100, 127, 128, 256, r.randrange(1000)])
            if bad_ok and r.random() < 0.3:
                v = r.choice([-1, 0xf000, 65535, 65536])
            l = lab()
            t = val(v)
            src.append('%s rmb %s' % (l, t))
            ev.append(('rmb', v, l))
        elif k < 0.7:
            v = r.choice([1, 2, 3, 4, 8, 16, 100, 128, 256, 512])
            if bad_ok and r.random() < 0.3:
                v = r.choice([0, -1, -4])
            f = r.choice([None, None, r.randrange(256)])
            l = lab()
            t = val(v)
            src.append('%s align %s%s' % (l, t, '' if f is None else ',%d' % f))
            ev.append(('align', (v, f), l))
        elif k < 0.8 and len(secs) > 1:
            s = r.choice(secs)
            l = lab()
            if s in ('CODE', 'DATA', 'BSS', 'RAM', 'AUTO', 'code') and r.random() < 0.5:
                src.append('%s %s' % (l, s))
            else:
                src.append('%s section "%s"' % (l, s))
            ev.append(('section', s, l))
        else:
            l = lab()
            if r.random() < 0.5:
                src.append('%s fdb *' % l)
            else:
                src.append('%s lda #$12' % l)
                ev.append(('code', bytes([0x86, 0x12]), l))
                continue
            ev.append(('here', None, l))
    return Case(src + late, fmt=r.choice(['srec', 'srec', 'coco'])), ev


class Bad(Exception):
    pass


def simulate(ev):
    """Place everything.  Returns (ok, memory, labels)."""
    # events of each section in order; the section a new one is entered from
    parent = {'CODE': None}
    order = ['CODE']
    cur = 'CODE'
    per = {'CODE': []}
    labels_at = []
    for op, v, l in ev:
        if op == 'section':
            if v not in per:
                per[v] = []
                parent[v] = cur
                order.append(v)
            cur = v
            per[cur].append(('none', None, l))
        else:
            per[cur].append((op, v, l))
    chunks = []
    labels = {}
    end = {}
    for s in order:
        p = parent[s]
        pc, put = end[p] if p else (0, 0)
        for op, v, l in per[s]:
            if l:
                labels[l] = v if op == 'org' else pc
            if op == 'org':
                if not -0x10000 <= v <= 0x1000000:
                    raise Bad('org')
                pc = v
                if v >= 0:
                    put = v
            elif op == 'put':
                if not 0 <= v <= 0x1000000:
                    raise Bad('put')
                put = v
            elif op in ('rmb', 'align'):
                n = v
                f = None
                if op == 'align':
                    if v[0] < 1:
                        raise Bad('align')
                    n = (-pc) % v[0]
                    f = v[1]
                if n < 0:
                    raise Bad('rmb')
                if f is None:
                    if n > 0x1000000 - pc:
                        raise Bad('beyond')
                else:
                    chunks.append((put, pc, bytes([f]) * n))
                pc += n
                put += n
            elif op in ('data', 'here', 'code'):
                if pc < 0:
                    raise Bad('negative')
                if op == 'data':
                    b = bytes([v[1]]) * v[0]
                elif op == 'here':
                    b = bytes([pc >> 8 & 255, pc & 255])
                else:
                    b = v
                chunks.append((put, pc, b))
                pc += len(b)
                put += len(b)
            if chunks and chunks[-1][1] + len(chunks[-1][2]) > 0x10000 and chunks[-1][2]:
                raise Bad('beyond')
        end[s] = (pc, put)
    mem = {}
    for put, pc, b in chunks:
        for i, x in enumerate(b):
            if put + i > 0xffff:
                raise Bad('beyond memory')
            if put + i in mem:
                raise Bad('overlap')
            mem[put + i] = x
    return mem, labels


def job(exe):
    def f(seed):
        case, ev = make(seed)
        res = core.compare(exe, case, ('status', 'image', 'symbols'))
        out = core.trim(res)
        if res['verdict'] == 'undecided' or res.get('kind') == 'crash':
            return out
        run = res['run']

        def bad(kind, why):
            out.update(verdict='bad', kind=kind, why=why, case=case)
            return out
        unsure = any(op == 'org' and v < 0 for op, v, l in ev)
        try:
            mem, labels = simulate(ev)
            why = None
        except Bad as e:
            mem, labels, why = None, None, str(e)
        if unsure:
            # a negative ORG has no load address of its own: the model decides
            out['extra'] = {'left to the model': 1}
            return out
        if (run.rc == 0) != (mem is not None):
            return bad('status', 'exit %d, but the placement is %s: %s' % (run.rc, 'correct' if mem is not None else 'impossible (%s)' % why, run.err[:200]))
        if mem is None:
            out['extra'] = {'rejected: ' + why: 1}
            return out
        try:
            got = formats.DECODE[case.fmt](run.files['out'])[0]
        except formats.Bad as e:
            return bad('format', str(e))
        d = core.diff_mem(got, mem)
        if d:
            return bad('placement', 'memory differs from the directives ' + d)
        syms, dup = core.parse_symbols(run.files['sym'])
        for l, v in labels.items():
            if l not in syms or core.sym_text(syms[l])[1] != v:
                return bad('label', 'label %s is %s, placed at $%04X' % (l, syms.get(l), v))
        out['extra'] = {'bytes placed': len(mem), 'labels placed': len(labels), 'sections': len({v for op, v, l in ev if op == 'section'})}
        return out
    return f


def make_late(seed):
    """Which sections are entered, and what goes where, changes after the
    first pass or two.  Returns the program and the same with the conditions
    known from the start."""
    r = random.Random(seed)
    late = r.choice([0, 0, 1, 2])
    secs = ['CODE', 'a', 'b', 'c', 'd'][:r.choice([2, 3, 5])]
    n = [0]

    def emit():
        n[0] += 1
        k = r.random()
        if k < 0.15:
            return [' org $%x' % (0x800 * r.randrange(30))]
        if k < 0.25:
            return [' put $%x' % (0x800 * r.randrange(30))]
        if k < 0.45:
            return [' section "%s"' % r.choice(secs)]
        if k < 0.6:
            return [' rmb %d' % r.randrange(20)]
        if k < 0.7:
            return [' align %d%s' % (1 << r.randrange(6), r.choice(['', ',7']))]
        return ['l%d fcb %s' % (n[0], ','.join(str(n[0] * 3 + i & 255) for i in range(r.randrange(1, 5))))]

    def part(d):
        out = []
        for _ in range(r.randrange(1, 4)):
            if r.random() < 0.3 and d < 2:
                out.append(' if %sg%d' % (r.choice(['', '!']), r.randrange(late + 1)))
                out += part(d + 1)
                if r.random() < 0.6:
                    out.append(' else')
                    out += part(d + 1)
                out.append(' endif')
            else:
                for _ in range(r.randrange(1, 4)):
                    out += emit()
        return out
    # the reference makes sure of another pass
    body = [' org $100', ' fcb g0']
    for _ in range(r.choice([1, 2, 4])):
        body += part(0)
    defs = ['g%d equ g%d' % (i, i + 1) for i in range(late)] + ['g%d equ 1' % late]
    return Case(body + defs), Case(defs[::-1] + body)


def late_job(exe):
    def f(seed):
        a, b = make_late(seed)
        res = core.compare(exe, a, ('status', 'image'))
        out = core.trim(res)
        if res['verdict'] != 'ok':
            return out
        rb = core.run_tool(exe, b.files, b.args(('out', 'sym')), ('out', 'sym'))
        ra = res['run']
        if not rb.clean:
            out.update(verdict='undecided', why='known from the start: %s' % rb.status())
            return out
        if ra.rc == 0:
            want = formats.srec(rb.files['out'])[0] if rb.rc == 0 else None
            got = formats.srec(ra.files['out'])[0]
            if got != want:
                out.update(verdict='bad', kind='late', case=a, why='placed %s when conditions are only known late, %s when known from the start' %
                           (sorted(got.items())[:40], want and sorted(want.items())[:40] or rb.err[:200]))
                return out
            out['extra'] = {'settled late, as if known from the start': 1}
        elif rb.rc == 0:
            # it may not settle within the passes allowed
            out['extra'] = {'not settled': 1}
        else:
            out['extra'] = {'rejected either way': 1}
        return out
    return f


def run(ctx):
    ctx.rule = RULE
    exe = build.build('plain')
    base = '%s/%d/' % (ctx.prop, ctx.seed)
    for i in range(3):
        ctx.sample(make(base + str(i))[0].files['main.s'].decode()[:400])
    drive(ctx, job(exe), [base + str(i) for i in range(ctx.n(3000, 70000))], 'layout')
    drive(ctx, late_job(exe), [base + 'L%d' % i for i in range(ctx.n(1500, 40000))], 'late')
    r = ctx.rng
    cases = []
    # two blocks at every distance around touching, in both orders and by ORG or PUT, of sizes
    # around those where storage is extended
    for sz in (1, 2, 127, 128, 129, 255, 256, 257):
        for gap in (-2, -1, 0, 1, 2):
            a = 0x2000
            b = a + sz + gap
            for how in ('org', 'put'):
                one = [' %s $%x' % (how, a), ' fill 1,%d' % sz]
                two = [' %s $%x' % (how, b), ' fill 2,3']
                cases.append(Case(one + two))
                cases.append(Case(two + one))
                cases.append(Case(one + [' section "b"'] + two))
                cases.append(Case(two + [' section "b"'] + one))
    core.campaign(ctx, exe, cases, ('status', 'image'), 'touching')
    cases = []
    # the top of memory
    for n in (1, 2, 3, 128, 129):
        for d in (-2, -1, 0, 1, 2):
            a = 0x10000 - n + d
            for how in ('org', 'put'):
                if a <= 0xffff:
                    cases.append(Case([' %s %d' % (how, a), ' fill 7,%d' % n]))
                    cases.append(Case([' %s %d' % (how, a), 'e rmb %d' % n, 'f equ *']))
                    cases.append(Case([' %s %d' % (how, a), ' align %d' % n, 'f']))
                    cases.append(Case([' %s %d' % (how, a), ' align %d,1' % n, 'f']))
                    for f in ('coco', 'hex', 'binary', 'dragondos'):
                        cases.append(Case([' %s %d' % (how, a), ' fill 7,%d' % n], fmt=f))
    for v in (-0x8001, -0x8000, -1, 0, 0xffff, 0x10000, 1 << 31, 1 << 32, (1 << 63) - 1, -(1 << 62)):
        for how in ('org', 'put', 'rmb', 'align'):
            cases.append(Case([' %s %d' % (how, v), 'l equ *']))
            cases.append(Case([' %s %d' % (how, v), 'l nop']))
            cases.append(Case([' nop', ' %s %d' % (how, v), 'l nop']))
    core.campaign(ctx, exe, cases, ('status', 'image', 'symbols'), 'limits')
    cases = []
    # many spans and many sections, in every order of addresses
    for i in range(ctx.n(60, 1000)):
        n = r.choice([2, 20, 200, 900])
        at = list(range(n))
        r.shuffle(at)
        step = r.choice([1, 2, 40, 64])
        sz = r.randrange(1, step + 1)
        src = []
        for j, a in enumerate(at):
            if i % 2:
                src.append(' section "s%d"' % (j % r.choice([1, 7, n])))
            src.append(' %s %d' % (r.choice(['org', 'put']), a * step))
            src.append(' fill %d,%d' % (j & 255, sz if r.random() < 0.999 or n < 100 else step + 1))
        cases.append(Case(src))
    core.campaign(ctx, exe, cases, ('status', 'image'), 'many')
    core.campaign(ctx, exe, scale.edges(), ('status', 'image', 'symbols'), 'edges')
    core.campaign(ctx, exe, scale.sections(), ('status', 'image', 'symbols'), 'large')
    core.campaign(ctx, exe, core.randoms(ctx, ctx.n(800, 15000), weights={'org': 10, 'put': 8, 'rmb': 10, 'align': 10, 'section': 14, 'data': 25, 'instr': 15},
                                         fmts=('srec', 'hex', 'coco')),
                  ('status', 'image', 'symbols'), 'random')
