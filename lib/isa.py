"""MC6809 and HD6309 instruction sets, written from the data sheets.

The tables are laid out the way the data sheets lay them out (rows of the
opcode map), not the way the assembler under test stores them.
"""

REGS_6809 = {'a', 'b', 'd', 'x', 'y', 'u', 's', 'pc', 'pcr', 'cc', 'dp'}
REGS_6309 = REGS_6809 | {'e', 'f', 'w', 'q', 'v'}

# PSHS/PULS/PSHU/PULU post-byte:  PC U/S Y X DP B A CC
STACK_BITS = {'pc': 0x80, 'u': 0x40, 's': 0x40, 'y': 0x20, 'x': 0x10,
              'dp': 0x08, 'b': 0x04, 'a': 0x02, 'd': 0x06, 'cc': 0x01}

# TFR/EXG nibble, and size class in bits
TFR = {'d': (0, 16), 'x': (1, 16), 'y': (2, 16), 'u': (3, 16), 's': (4, 16),
       'pc': (5, 16), 'w': (6, 16), 'v': (7, 16),
       'a': (8, 8), 'b': (9, 8), 'cc': (10, 8), 'dp': (11, 8),
       'e': (14, 8), 'f': (15, 8)}


def _put(t, name, **kw):
    assert name not in t, name
    t[name] = kw


def _mem(code, page=0, imm=0, store=False):
    """Row of the accumulator group: code is the immediate-column opcode."""
    p = page << 8
    d = {'k': 'mem', 'dir': p | (code + 0x10), 'idx': p | (code + 0x20), 'ext': p | (code + 0x30)}
    if imm and not store:
        d['imm'] = (p | code, imm)
    return d


def _rmw(low, page=0):
    p = page << 8
    return {'k': 'mem', 'dir': p | low, 'idx': p | 0x60 | low, 'ext': p | 0x70 | low}


OPS_6809 = {}
_t = OPS_6809

# $8x-$Fx, one column per accumulator
for _n, _c in (('sub', 0), ('cmp', 1), ('sbc', 2), ('and', 4), ('bit', 5), ('ld', 6),
               ('eor', 8), ('adc', 9), ('or', 10), ('add', 11)):
    _t[_n + 'a'] = _mem(0x80 + _c, imm=1)
    _t[_n + 'b'] = _mem(0xc0 + _c, imm=1)
_t['sta'] = _mem(0x87)
_t['stb'] = _mem(0xc7)
for _n, _pg, _c in (('subd', 0, 0x83), ('addd', 0, 0xc3), ('cmpx', 0, 0x8c), ('ldx', 0, 0x8e),
                    ('ldd', 0, 0xcc), ('ldu', 0, 0xce),
                    ('cmpd', 0x10, 0x83), ('cmpy', 0x10, 0x8c), ('ldy', 0x10, 0x8e), ('lds', 0x10, 0xce),
                    ('cmpu', 0x11, 0x83), ('cmps', 0x11, 0x8c)):
    _t[_n] = _mem(_c, _pg, imm=2)
for _n, _pg, _c in (('stx', 0, 0x8f), ('std', 0, 0xcd), ('stu', 0, 0xcf),
                    ('sty', 0x10, 0x8f), ('sts', 0x10, 0xcf), ('jsr', 0, 0x8d)):
    _t[_n] = _mem(_c, _pg)
# read-modify-write rows $0x $6x $7x and the inherent rows $4x $5x
RMW = (('neg', 0), ('com', 3), ('lsr', 4), ('ror', 6), ('asr', 7), ('asl', 8), ('lsl', 8),
       ('rol', 9), ('dec', 10), ('inc', 12), ('tst', 13), ('clr', 15))
for _n, _c in RMW:
    _t[_n] = _rmw(_c)
    _t[_n + 'a'] = {'k': 'inh', 'code': 0x40 | _c}
    _t[_n + 'b'] = {'k': 'inh', 'code': 0x50 | _c}
_t['jmp'] = _rmw(14)
# inherent
for _n, _c in (('nop', 0x12), ('sync', 0x13), ('daa', 0x19), ('sex', 0x1d), ('rts', 0x39),
               ('abx', 0x3a), ('rti', 0x3b), ('mul', 0x3d), ('swi', 0x3f),
               ('swi2', 0x103f), ('swi3', 0x113f)):
    _t[_n] = {'k': 'inh', 'code': _c}
for _n, _c in (('orcc', 0x1a), ('andcc', 0x1c), ('cwai', 0x3c)):
    _t[_n] = {'k': 'imm', 'imm': (_c, 1)}
for _n, _c in (('exg', 0x1e), ('tfr', 0x1f)):
    _t[_n] = {'k': 'pair', 'code': _c}
for _n, _c in (('leax', 0x30), ('leay', 0x31), ('leas', 0x32), ('leau', 0x33)):
    _t[_n] = {'k': 'mem', 'idx': _c}
for _n, _c, _o in (('pshs', 0x34, 's'), ('puls', 0x35, 's'), ('pshu', 0x36, 'u'), ('pulu', 0x37, 'u')):
    _t[_n] = {'k': 'stack', 'code': _c, 'own': _o}
# branches
for _n, _c in (('bra', 0x20), ('brn', 0x21), ('bhi', 0x22), ('bls', 0x23), ('bcc', 0x24), ('bhs', 0x24),
               ('bcs', 0x25), ('blo', 0x25), ('bne', 0x26), ('beq', 0x27), ('bvc', 0x28), ('bvs', 0x29),
               ('bpl', 0x2a), ('bmi', 0x2b), ('bge', 0x2c), ('blt', 0x2d), ('bgt', 0x2e), ('ble', 0x2f)):
    _t[_n] = {'k': 'rel8', 'code': _c}
    _t['l' + _n] = {'k': 'rel16', 'code': 0x1000 | _c}
_t['bsr'] = {'k': 'rel8', 'code': 0x8d}
_t['lbra'] = {'k': 'rel16', 'code': 0x16}
_t['lbsr'] = {'k': 'rel16', 'code': 0x17}
# 6800-style aliases listed in the manual
for _n, _c in (('ldaa', 'lda'), ('ldab', 'ldb'), ('staa', 'sta'), ('stab', 'stb'),
               ('oraa', 'ora'), ('orab', 'orb'), ('cpx', 'cmpx')):
    _t[_n] = dict(_t[_c])

OPS_6309 = dict(OPS_6809)
_t = OPS_6309
# memory with immediate mask
for _n, _c in (('oim', 1), ('aim', 2), ('eim', 5), ('tim', 11)):
    _t[_n] = dict(_rmw(_c), k='immmem')
# register to register, page 2
for _i, _n in enumerate(('addr', 'adcr', 'subr', 'sbcr', 'andr', 'orr', 'eorr', 'cmpr')):
    _t[_n] = {'k': 'pair', 'code': 0x1030 + _i}
for _n, _c in (('pshsw', 0x1038), ('pulsw', 0x1039), ('pshuw', 0x103a), ('puluw', 0x103b),
               ('sexw', 0x14)):
    _t[_n] = {'k': 'inh', 'code': _c}
# inherent on D ($104x), W ($105x), E ($114x), F ($115x)
for _n, _c in (('neg', 0), ('com', 3), ('lsr', 4), ('ror', 6), ('asr', 7), ('asl', 8), ('lsl', 8),
               ('rol', 9), ('dec', 10), ('inc', 12), ('tst', 13), ('clr', 15)):
    _t[_n + 'd'] = {'k': 'inh', 'code': 0x1040 | _c}
for _n, _c in (('com', 3), ('lsr', 4), ('ror', 6), ('rol', 9), ('dec', 10), ('inc', 12), ('tst', 13), ('clr', 15)):
    _t[_n + 'w'] = {'k': 'inh', 'code': 0x1050 | _c}
for _n, _c in (('com', 3), ('dec', 10), ('inc', 12), ('tst', 13), ('clr', 15)):
    _t[_n + 'e'] = {'k': 'inh', 'code': 0x1140 | _c}
    _t[_n + 'f'] = {'k': 'inh', 'code': 0x1150 | _c}
# 16-bit D and W arithmetic
for _n, _c in (('subw', 0x80), ('cmpw', 0x81), ('sbcd', 0x82), ('andd', 0x84), ('bitd', 0x85),
               ('ldw', 0x86), ('eord', 0x88), ('adcd', 0x89), ('ord', 0x8a), ('addw', 0x8b)):
    _t[_n] = _mem(_c, 0x10, imm=2)
_t['stw'] = _mem(0x87, 0x10)
_t['ldq'] = _mem(0xcc, 0x10)
_t['ldq']['imm'] = (0xcd, 4)
_t['stq'] = _mem(0xcd, 0x10)
# 8-bit E and F
for _r, _b in (('e', 0x80), ('f', 0xc0)):
    for _n, _c in (('sub', 0), ('cmp', 1), ('ld', 6), ('add', 11)):
        _t[_n + _r] = _mem(_b + _c, 0x11, imm=1)
    _t['st' + _r] = _mem(_b + 7, 0x11)
_t['divd'] = _mem(0x8d, 0x11, imm=1)
_t['divq'] = _mem(0x8e, 0x11, imm=2)
_t['muld'] = _mem(0x8f, 0x11, imm=2)
# bit manipulation, block transfer, mode
for _i, _n in enumerate(('band', 'biand', 'bor', 'bior', 'beor', 'bieor', 'ldbt', 'stbt')):
    _t[_n] = {'k': 'bit', 'code': 0x1130 + _i}
_t['tfm'] = {'k': 'tfm', 'code': 0x1138}
for _n, _c in (('bitmd', 0x113c), ('ldmd', 0x113d)):
    _t[_n] = {'k': 'imm', 'imm': (_c, 1)}


_RR = {'x': 0x00, 'y': 0x20, 'u': 0x40, 's': 0x60}
_ACC = {'a': 0x86, 'b': 0x85, 'd': 0x8b}
_ACC9 = {'e': 0x87, 'f': 0x8a, 'w': 0x8e}


def _s16(v):
    v &= 0xffff
    return v - 65536 if v > 32767 else v


def encode_indexed(a0, a1, ind, pc, is6309):
    """(bytes, illegal) for "a0,a1" or "[a0,a1]", None if there's no such mode.

    pc is the address of the post-byte."""
    if a1.t != 'reg':
        return None
    i = 0x10 if ind else 0
    r, step = a1.v, a1.attr
    zero = a0.t == 'empty' or (a0.t == 'int' and a0.v == 0 and a0.attr is None)
    size = a0.attr if a0.t == 'int' else None
    if a0.t == 'int' and size not in (None, '<<', '<', '>'):
        return None
    if a0.t not in ('int', 'empty', 'reg'):
        return None
    if a0.t == 'reg' and a0.attr is not None:
        return None

    if r in _RR:
        rr = _RR[r]
        if step is not None:
            code = {'+': 0x80, '++': 0x81, '-r': 0x82, '--r': 0x83}.get(step)
            if code is None or not (zero if step in ('+', '++') else a0.t == 'empty'):
                return None
            # the single-step modes have no indirect version
            return [code | rr | i], bool(ind) and step in ('+', '-r')
        if a0.t == 'reg':
            code = _ACC.get(a0.v)
            if code is None and is6309:
                code = _ACC9.get(a0.v)
            if code is None:
                return None
            return [code | rr | i], False
        if zero:
            return [0x84 | rr | i], False
        v = a0.v
        if size is None:
            if -16 <= v <= 15 and not ind:
                size = '<<'
            elif -128 <= v <= 127:
                size = '<'
            else:
                size = '>'
        if size == '<<':
            if ind:
                return None
            return [rr | (v & 0x1f)], False
        if size == '<':
            return [0x88 | rr | i, v & 0xff], False
        return [0x89 | rr | i, (v >> 8) & 0xff, v & 0xff], False

    if r in ('pc', 'pcr'):
        if step is not None or a0.t == 'reg':
            return None
        if a0.t == 'empty':
            # no base offset: as an offset of zero, in the short form
            return [0x8c | i, 0], False
        v = a0.v
        if r == 'pcr':
            near = _s16(v - (pc + 2))
            far = _s16(v - (pc + 3))
        else:
            near = far = v
        if size is None:
            size = '<' if -128 <= near <= 127 else '>'
        if size == '<<':
            return None
        if size == '<':
            return [0x8c | i, near & 0xff], False
        return [0x8d | i, (far >> 8) & 0xff, far & 0xff], False

    if r == 'w' and is6309:
        j = 1 if ind else 0
        if step in ('++', '--r'):
            if a0.t == 'empty':
                return [{'++': 0xcf, '--r': 0xef}[step] + j], False
            return None
        if step is not None or a0.t == 'reg':
            return None
        if zero:
            return [0x8f + j], False
        if size not in (None, '>'):
            return None
        return [0xaf + j, (a0.v >> 8) & 0xff, a0.v & 0xff], False
    return None
