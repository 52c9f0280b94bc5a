"""Decoders for the five output formats, from their published definitions.

Each takes the file and returns (memory, exec, notes): memory is a dict of
address -> byte, exec is None when the format says nothing, notes counts what
was seen.  Anything not allowed by the definition raises Bad.
"""


class Bad(Exception):
    pass


def _put(mem, addr, data, limit=0x10000):
    for i, b in enumerate(data):
        a = addr + i
        if a >= limit:
            raise Bad('data at %#x is beyond the address space' % a)
        if a in mem:
            raise Bad('data for %#x is given twice' % a)
        mem[a] = b


def _lines(data):
    if not data:
        raise Bad('empty file')
    try:
        text = data.decode('ascii')
    except UnicodeDecodeError:
        raise Bad('not a text file')
    if not text.endswith('\n'):
        raise Bad('the last record is cut off')
    return text.replace('\r\n', '\n').split('\n')[:-1]


def _hex(s):
    if len(s) % 2 or any(c not in '0123456789ABCDEFabcdef' for c in s):
        raise Bad('not pairs of hex digits: %r' % s[:80])
    return bytes.fromhex(s)


def srec(data):
    mem = {}
    ex = None
    n = {'records': 0, 'full': 0, 'sizes': set()}
    ended = False
    for ln in _lines(data):
        if ended:
            raise Bad('record after the termination record')
        if ln[:1] != 'S' or ln[1:2] not in '0159':
            raise Bad('unknown record %r' % ln[:20])
        b = _hex(ln[2:])
        if len(b) < 4:
            raise Bad('short record %r' % ln)
        if b[0] != len(b) - 1:
            raise Bad('record length is %d, not %d' % (len(b) - 1, b[0]))
        if sum(b) & 0xff != 0xff:
            raise Bad('checksum error in %r' % ln)
        addr = b[1] << 8 | b[2]
        body = b[3:-1]
        if ln[1] == '1':
            _put(mem, addr, body)
            n['records'] += 1
            n['sizes'].add(len(body))
        elif ln[1] == '9':
            if body:
                raise Bad('data in the termination record')
            ex = addr
            ended = True
    if not ended:
        raise Bad('no termination record')
    return mem, ex, n


def ihex(data):
    mem = {}
    ex = None
    n = {'records': 0, 'sizes': set()}
    ended = False
    base = 0
    for ln in _lines(data):
        if ended:
            raise Bad('record after the end of file record')
        if ln[:1] != ':':
            raise Bad('unknown record %r' % ln[:20])
        b = _hex(ln[1:])
        if len(b) < 5:
            raise Bad('short record %r' % ln)
        if b[0] != len(b) - 5:
            raise Bad('record length is %d, not %d' % (len(b) - 5, b[0]))
        if sum(b) & 0xff:
            raise Bad('checksum error in %r' % ln)
        addr = b[1] << 8 | b[2]
        body = b[4:-1]
        if b[3] == 0:
            _put(mem, base + addr, body)
            n['records'] += 1
            n['sizes'].add(len(body))
        elif b[3] == 1:
            if body:
                raise Bad('data in the end of file record')
            # the address field of the end record carries the start address
            ex = addr
            ended = True
        elif b[3] == 5 and len(body) == 4:
            ex = int.from_bytes(body, 'big')
        elif b[3] == 4 and len(body) == 2:
            base = int.from_bytes(body, 'big') << 16
        elif b[3] == 2 and len(body) == 2:
            base = int.from_bytes(body, 'big') << 4
        else:
            raise Bad('unknown record type %d' % b[3])
    if not ended:
        raise Bad('no end of file record')
    return mem, ex, n


def coco(data):
    mem = {}
    n = {'segments': 0, 'sizes': set(), 'first': None}
    p = 0
    while True:
        if len(data) - p < 5:
            raise Bad('file ends in a segment header')
        t = data[p]
        ln = data[p + 1] << 8 | data[p + 2]
        addr = data[p + 3] << 8 | data[p + 4]
        p += 5
        if t == 0xff:
            if ln:
                raise Bad('postamble with a length')
            if p != len(data):
                raise Bad('data after the postamble')
            return mem, addr, n
        if t:
            raise Bad('unknown segment type %d' % t)
        if len(data) - p < ln:
            raise Bad('file ends in a segment')
        if n['first'] is None:
            n['first'] = addr
        _put(mem, addr, data[p:p + ln])
        n['segments'] += 1
        n['sizes'].add(ln)
        p += ln


def dragondos(data):
    if len(data) < 9:
        raise Bad('file ends in the header')
    if data[0] != 0x55 or data[8] != 0xaa:
        raise Bad('no DragonDOS header')
    if data[1] != 2:
        raise Bad('file type %d' % data[1])
    addr = data[2] << 8 | data[3]
    size = data[4] << 8 | data[5]
    ex = data[6] << 8 | data[7]
    if len(data) - 9 != size:
        raise Bad('header says %d bytes but there are %d' % (size, len(data) - 9))
    mem = {}
    _put(mem, addr, data[9:])
    return mem, ex, {'load': addr, 'size': size}


DECODE = {'srec': srec, 'hex': ihex, 'coco': coco, 'dragondos': dragondos}
OPTION = {'srec': '-S', 'hex': '-H', 'coco': '-C', 'dragondos': '-D', 'binary': '-B'}
