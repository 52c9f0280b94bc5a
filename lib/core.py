"""Running the assembler, comparing a run with the model, reporting."""
import hashlib
import json
import multiprocessing as mp
import os
import random
import re
import resource
import shutil
import signal
import struct
import subprocess
import sys
import tempfile
import time
import traceback

from . import build, formats, model

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NPROC = max(2, min(8, os.cpu_count() or 2))

CPU_LIMIT = 20          # seconds of processor time: far beyond any case here
WALL_LIMIT = 120
OUT_LIMIT = 256 << 20
# A tree on which much hangs must still get its answer: after many timeouts
# the limit of processor time is cut, and when the deadline passes no more
# cases are run.  Neither happens otherwise.
MANY_TIMEOUTS = 24
CPU_LIMIT_CUT = 3
DEADLINE = time.time() + 780
_timeouts = mp.get_context('fork').Value('i', 0)
stopped = []


class Inconclusive(Exception):
    pass


# ---------------------------------------------------------------------------
# One run of the tool

class Run:
    """What one execution did."""
    __slots__ = ('rc', 'sig', 'timeout', 'err', 'out', 'files', 'args')

    @property
    def clean(self):
        return self.sig is None and not self.timeout and self.rc in (0, 1)

    def status(self):
        if self.timeout:
            return 'timeout'
        if self.sig:
            return 'signal %d' % self.sig
        return 'exit %d' % self.rc


SAN_ENV = {
    'ASAN_OPTIONS': 'detect_leaks=0:abort_on_error=0:exitcode=99:allocator_may_return_null=1:'
                    'detect_stack_use_after_return=1:strict_string_checks=1:max_allocation_size_mb=3000',
    'UBSAN_OPTIONS': 'halt_on_error=1:print_stacktrace=1:exitcode=99',
    'MSAN_OPTIONS': 'exitcode=99:allocator_may_return_null=1:poison_in_dtor=1',
}


def _limits(cpu, mem, fsize):
    def f():
        resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
        resource.setrlimit(resource.RLIMIT_CPU, (cpu, cpu + 2))
        if mem:
            resource.setrlimit(resource.RLIMIT_AS, (mem, mem))
        resource.setrlimit(resource.RLIMIT_FSIZE, (fsize, fsize))
    return f


_workdir = None


def workdir():
    """A per-process scratch directory."""
    global _workdir
    d = os.path.join(build.scratch(), 'w%d' % os.getpid())
    if _workdir != d:
        os.makedirs(d, exist_ok=True)
        _workdir = d
    return d


def empty_dir(d):
    for e in os.scandir(d):
        if e.is_dir(follow_symlinks=False):
            shutil.rmtree(e.path, ignore_errors=True)
        else:
            os.unlink(e.path)


def run_tool(exe, files, args, outputs=(), env=None, cpu=CPU_LIMIT, mem=4 << 30, fsize=OUT_LIMIT,
             prefix=(), wall=WALL_LIMIT, keep_dir=False, stdin=None, retry=True, pre=None, errpipe=False):
    """Run the assembler on `files` (name -> bytes) in an empty directory."""
    d = workdir()
    if not keep_dir:
        empty_dir(d)
        for name, data in files.items():
            p = os.path.join(d, name)
            if '/' in name:
                os.makedirs(os.path.dirname(p), exist_ok=True)
            with open(p, 'wb') as f:
                f.write(data)
    if pre:
        pre(d)
    if _timeouts.value > MANY_TIMEOUTS:
        cpu = min(cpu, CPU_LIMIT_CUT)
        wall = min(wall, 10 * CPU_LIMIT_CUT)
        retry = False
    e = {'PATH': '/usr/bin:/bin', 'LC_ALL': 'C', 'HOME': d}
    e.update(SAN_ENV)
    if env:
        e.update(env)
    sanitised = 'b-asan' in exe or 'b-msan' in exe
    r = Run()
    r.args = list(args)
    r.timeout = False
    r.sig = None
    # error output goes to a file so that a flood of messages can't block
    ef = os.path.join(build.scratch(), 'err%d' % os.getpid())
    with open(ef, 'wb+') as err:
        p = subprocess.Popen(list(prefix) + [exe] + list(args), cwd=d, env=e,
                             stdin=subprocess.DEVNULL if stdin is None else stdin,
                             stdout=subprocess.PIPE if errpipe else err,
                             stderr=subprocess.STDOUT if errpipe else err,
                             preexec_fn=_limits(cpu, 0 if sanitised else mem, fsize),
                             start_new_session=True)
        piped = b''
        try:
            if errpipe:
                piped = p.communicate(timeout=wall)[0]
            else:
                p.wait(wall)
        except subprocess.TimeoutExpired:
            r.timeout = True
        try:
            os.killpg(p.pid, signal.SIGKILL)
        except ProcessLookupError:
            pass
        p.wait()
        err.seek(0)
        r.err = piped if errpipe else err.read(4 << 20)
    if not r.timeout:
        if p.returncode < 0:
            r.sig = -p.returncode
            if r.sig in (signal.SIGXCPU,) or (r.sig == signal.SIGKILL):
                r.timeout = True
                with _timeouts.get_lock():
                    _timeouts.value += 1
                r.sig = None
        r.rc = p.returncode
    else:
        r.rc = None
        with _timeouts.get_lock():
            _timeouts.value += 1
        if retry:       # wall clock: might be the machine, ask once more
            return run_tool(exe, files, args, outputs, env, cpu, mem, fsize, prefix, wall * 2, keep_dir,
                            stdin, False, pre, errpipe)
    r.files = {}
    for o in outputs:
        q = os.path.join(d, o)
        try:
            with open(q, 'rb') as f:
                r.files[o] = f.read(OUT_LIMIT)
        except OSError:
            r.files[o] = None
    return r


def sanitizer_report(r):
    """Text of a sanitizer's complaint about this run, or None."""
    t = r.err
    for pat in (b'ERROR: AddressSanitizer', b'runtime error:', b'WARNING: MemorySanitizer',
                b'ERROR: UndefinedBehaviorSanitizer', b'AddressSanitizer:DEADLYSIGNAL',
                b'ERROR: MemorySanitizer', b'UndefinedBehaviorSanitizer:DEADLYSIGNAL'):
        i = t.find(pat)
        if i >= 0:
            return t[max(0, i - 100):i + 1500].decode(errors='replace')
    return None


# ---------------------------------------------------------------------------
# A case: sources and options

class Case:
    __slots__ = ('files', 'mains', 'isa6309', 'defines', 'setdp', 'max_passes', 'exec_opt',
                 'fmt', 'extra', 'note')

    def __init__(self, src=None, files=None, mains=None, isa6309=False, defines=(), setdp=None,
                 max_passes=None, exec_opt=None, fmt='srec', extra=(), note=None):
        self.files = dict(files or {})
        if src is not None:
            if isinstance(src, (list, tuple)):
                src = '\n'.join(src) + '\n'
            if isinstance(src, str):
                src = src.encode('latin-1')
            self.files['main.s'] = src
        self.mains = list(mains or ['main.s'])
        self.isa6309 = isa6309
        self.defines = list(defines)
        self.setdp = setdp
        self.max_passes = max_passes
        self.exec_opt = exec_opt
        self.fmt = fmt
        self.extra = list(extra)
        self.note = note

    def args(self, outs=('out', 'lst', 'sym')):
        a = []
        if self.isa6309:
            a.append('-3')
        if self.fmt:
            a.append(formats.OPTION[self.fmt])
        for k, v in self.defines:
            a += ['-d', '%s=%s' % (k, v) if v is not None else k]
        if self.setdp is not None:
            a.append('--setdp=%s' % self.setdp)
        if self.max_passes is not None:
            a += ['-P', str(self.max_passes)]
        if self.exec_opt is not None:
            a += ['-e', str(self.exec_opt)]
        a += self.extra
        for o in outs:
            a += [{'out': '-o', 'lst': '-l', 'sym': '-s', 'exp': '-E'}[o], o]
        return a + self.mains

    def model(self):
        setdp = -1
        if self.setdp is not None:
            setdp = self.setdp if isinstance(self.setdp, int) else model.parse_opt_int(self.setdp)
            setdp = -1 if setdp is None or setdp < 0 else setdp & 0xff
        defs = [(k, 1 if v is None else (v if isinstance(v, int) else model.parse_opt_int(v)))
                for k, v in self.defines]
        return model.Asm(self.files, self.mains, self.isa6309, defs, setdp,
                         self.max_passes or 12, None if self.exec_opt is None else str(self.exec_opt))

    def digest(self):
        h = hashlib.sha1()
        for k in sorted(self.files):
            h.update(k.encode() + b'\0' + self.files[k] + b'\0')
        h.update(repr((self.mains, self.args())).encode())
        return h.hexdigest()


def write_replay(case, d, exe_args, what):
    os.makedirs(d, exist_ok=True)
    for name, data in (case.files if case else {}).items():
        p = os.path.join(d, name)
        os.makedirs(os.path.dirname(p), exist_ok=True)
        with open(p, 'wb') as f:
            f.write(data)
    with open(os.path.join(d, 'REPLAY.txt'), 'w') as f:
        f.write('In this directory: asm6809 %s\n\n%s\n' % (' '.join(exe_args), what))


# ---------------------------------------------------------------------------
# Comparing with the model

def parse_symbols(data):
    """Symbols file -> {name: text of value}, list of duplicates."""
    out = {}
    dup = []
    for ln in data.decode('latin-1').split('\n'):
        if not ln:
            continue
        m = re.match(r'^(\S+)[ \t]+(?:EQU|equ)[ \t]+(.*)$', ln)
        if not m:
            out.setdefault('?', []).append(ln)
            continue
        if m.group(1) in out:
            dup.append(m.group(1))
        out[m.group(1)] = m.group(2)
    return out, dup


def sym_text(text):
    """Value in a symbols file, as a (type, value)."""
    t = text.strip()
    m = re.fullmatch(r'\$([0-9A-Fa-f]+)', t)
    if m:
        return ('int', int(m.group(1), 16))
    m = re.fullmatch(r'-?[0-9]+', t)
    if m:
        return ('int', int(t))
    m = re.fullmatch(r'\((-?\d+) - 1\)', t)
    if m:
        return ('int', int(m.group(1)) - 1)
    if re.fullmatch(r'-?[0-9]*\.[0-9]*', t) and t.strip('-.'):
        return ('float', float(t))
    if len(t) >= 2 and t[0] in '"/' and t[-1] == t[0]:
        s = t[1:-1]
        out = ''
        i = 0
        while i < len(s):
            if s[i] == '\\' and i + 1 < len(s):
                i += 1
                out += {'n': '\n', 'r': '\r'}.get(s[i], s[i])
            elif s[i:i + 2] == '&&':
                i += 1
                out += '&'
            else:
                out += s[i]
            i += 1
        return ('str', out)
    return ('other', t)


def fmt_mem(m, limit=48):
    """Short description of a memory image."""
    out = []
    prev = None
    for a in sorted(m):
        if prev is None or a != prev + 1:
            out.append('%04X:' % a)
        out.append('%02X' % m[a])
        prev = a
        if len(out) > limit:
            out.append('...')
            break
    return ' '.join(out)


def diff_mem(got, want):
    for a in sorted(set(got) | set(want)):
        if got.get(a) != want.get(a):
            g, w = got.get(a), want.get(a)
            return 'at $%04X: %s, expected %s' % (
                a, 'nothing' if g is None else '%02X' % g, 'nothing' if w is None else '%02X' % w)
    return None


LEVEL_NAMES = {model.INEFFICIENT: 'warning', model.ILLEGAL: 'warning', model.INCONSISTENT: 'error',
               model.OUT_OF_RANGE: 'error', model.SYNTAX: 'syntax error', model.DATA: 'error',
               model.FATAL: 'error'}

FACETS = ('status', 'image', 'exec', 'listing', 'symbols', 'diag')


def assembles(r, case):
    if not r.ok or r.overlap or r.exec_error:
        return False
    return not ('-E' in case.extra and (r.export_undef or r.export_bad))


def expected_ok(r, case):
    if not assembles(r, case):
        return False
    if case.fmt != 'binary':
        for p, d in r.segs:
            if p + len(d) > 0x10000:
                return False
        if case.fmt == 'coco' and any(len(d) > 0xffff for p, d in r.segs):
            return False
        if case.fmt == 'dragondos' and r.segs and len(model.binary_blob(r)) > 0xffff:
            return False
        if case.fmt == 'dragondos' and r.segs and r.segs[0][0] + len(model.binary_blob(r)) > 0x10000:
            return False
    return True


def compare(exe, case, facets=('status', 'image', 'exec')):
    """Run the tool and the model on a case.

    Returns a dict: verdict 'ok' | 'bad' | 'undecided', why, run, result."""
    try:
        r = case.model().run()
    except model.Unsupported as e:
        return {'verdict': 'undecided', 'why': 'model: %s' % e, 'case': case}
    except RecursionError:
        return {'verdict': 'undecided', 'why': 'model: recursion', 'case': case}
    ok = expected_ok(r, case)
    run = run_tool(exe, case.files, case.args(), ('out', 'lst', 'sym', 'exp'))
    res = {'verdict': 'ok', 'run': run, 'result': r, 'case': case, 'expect_ok': ok}

    def bad(kind, why):
        res['verdict'] = 'bad'
        res['kind'] = kind
        res['why'] = why
        return res

    if not run.clean:
        rep = sanitizer_report(run)
        return bad('crash', 'the assembler ended with %s%s' % (run.status(), '\n' + rep if rep else ''))
    if ok and run.rc != 0:
        return bad('rejected', 'a correct program is rejected (exit %d): %s'
                   % (run.rc, run.err[:300].decode(errors='replace')))
    if not ok and run.rc == 0:
        return bad('accepted', 'a program in error is accepted (exit 0); expected e.g. %r' % (r.errs[:3],))
    if not ok:
        # what a format can't represent is only found once a listing is written
        left = [o for o in (('out',) if assembles(r, case) else ('out', 'lst', 'sym', 'exp')) if run.files.get(o) is not None]
        if left:
            return bad('written', 'the run fails, but %s is written' % left[0])
        if 'diag' in facets and r.level >= model.INCONSISTENT:
            return diag(res, bad)
        return res
    if run.files['out'] is None:
        return bad('output', 'no output file was written')
    if 'image' in facets or 'exec' in facets:
        want = model.memory(r)
        if case.fmt == 'binary':
            got, ex = run.files['out'], None
            w = model.binary_blob(r)
            if got != w:
                i = next((i for i, (a, b) in enumerate(zip(got, w)) if a != b), min(len(got), len(w)))
                return bad('image', 'binary output differs from offset %d: got %s.. (%d bytes) expected %s.. (%d bytes)'
                           % (i, got[i:i + 16].hex(), len(got), w[i:i + 16].hex(), len(w)))
        else:
            try:
                mem, ex, notes = formats.DECODE[case.fmt](run.files['out'])
            except formats.Bad as e:
                return bad('image', 'the %s output is malformed: %s' % (case.fmt, e))
            if case.fmt == 'dragondos' and r.segs:
                lo = r.segs[0][0]
                want = {lo + i: b for i, b in enumerate(model.binary_blob(r))}
            if 'image' in facets:
                dm = diff_mem(mem, want)
                if dm:
                    return bad('image', 'assembled bytes differ %s' % dm)
            if 'exec' in facets:
                wx = r.exec
                if wx is None:
                    if case.fmt == 'hex':
                        wx = 0
                    elif case.fmt == 'srec':
                        wx = 0
                    else:
                        wx = r.segs[0][0] if r.segs else ex
                if ex != wx:
                    return bad('exec', 'EXEC address is %r, expected %r' % (ex, wx))
            res['notes'] = notes
    if 'listing' in facets:
        w = '\n'.join(model.listing_text(r))
        got = run.files['lst'].decode('latin-1') if run.files['lst'] is not None else None
        if got is None:
            return bad('listing', 'no listing was written')
        gl = got.split('\n')
        if gl and gl[-1] == '':
            gl.pop()
        wl = w.split('\n') if w else []
        if gl != wl:
            for i, (a, b) in enumerate(zip(gl, wl)):
                if a != b:
                    return bad('listing', 'listing line %d is %r, expected %r' % (i + 1, a[:200], b[:200]))
            return bad('listing', 'listing has %d lines, expected %d' % (len(gl), len(wl)))
        res['list_lines'] = len(wl)
    if 'symbols' in facets:
        got = run.files['sym']
        if got is None:
            return bad('symbols', 'no symbols file was written')
        syms, dup = parse_symbols(got)
        if dup:
            return bad('symbols', 'symbol %r is listed twice' % dup[0])
        if '?' in syms:
            return bad('symbols', 'unexpected line in symbols file: %r' % syms['?'][0])
        want = {k: v for k, v in r.symbols.items() if v is not None and v.t != 'empty'}
        if set(syms) != set(want):
            d = sorted(set(syms) ^ set(want))[:4]
            return bad('symbols', 'symbols listed differ from those defined: %r' % d)
        for k, v in want.items():
            t, x = sym_text(syms[k])
            if v.t == 'int':
                if (t, x) != ('int', v.v):
                    return bad('symbols', 'symbol %s is %s, expected %d' % (k, syms[k], v.v))
            elif v.t == 'float':
                if t != 'float' or (x != v.v and not (x != x and v.v != v.v)):
                    if v.v != v.v or v.v in (float('inf'), float('-inf')):
                        continue
                    return bad('symbols', 'symbol %s is %s, expected %r' % (k, syms[k], v.v))
            elif v.t == 'str':
                if (t, x) != ('str', v.v):
                    return bad('symbols', 'symbol %s is %s, expected %r' % (k, syms[k], v.v))
        res['nsyms'] = len(want)
        if '-E' in case.extra and run.files['exp'] is not None:
            why = compare_exports(r, run.files['exp'], want, syms)
            if why:
                return bad('exports', why)
    return res


def parse_exports(data, values=False):
    """Names listed: macros and symbols."""
    macs, syms = [], []
    cur = 0
    for l in data.decode('latin-1').split('\n')[:-1]:
        f = l.split('\t')
        if len(f) > 1 and f[1].lower() == 'macro':
            cur += 1
            if cur == 1:
                macs.append(f[0])
        elif len(f) > 1 and f[1].lower() == 'endm':
            cur -= 1
        elif cur == 0:
            syms.append(tuple(l.split('\t', 2)) if values else f[0])
    return macs, syms, cur


def compare_exports(r, data, want, syms):
    """The exports file against what was flagged, and the symbols file."""
    macs, listed, depth = parse_exports(data, True)
    names = [f[0] for f in listed]
    if depth:
        return 'the exports file leaves a macro open'
    if len(set(macs + names)) != len(macs + names):
        return 'the exports file lists a name twice'
    flagged = set(r.exports)
    m = {k for k in flagged if k in r.macros}
    for kind, got, exp in (('macros', set(macs), m), ('symbols', set(names), flagged - m)):
        if got != exp:
            return '%s exported differ from those flagged: %r' % (kind, sorted(got ^ exp)[:4])
    for f in listed:
        if len(f) != 3 or f[1].lower() != 'equ' or syms.get(f[0], '').strip() != f[2].strip():
            return 'symbol %s is exported as %s, and listed as %s' % (f[0], f[2], syms.get(f[0]))
    return None


DIAG = re.compile(r'^(?:(warning|error|syntax error): )?(?:(.*?):(\d+): )?(.*)$')


def parse_diags(err):
    out = []
    for ln in err.decode('latin-1').split('\n'):
        if not ln:
            continue
        m = re.match(r'^(?:.*?/)?(warning|error|syntax error): (?:([^:]*):(\d+): )?(.*)$', ln)
        if m:
            out.append((m.group(1), m.group(2), int(m.group(3)) if m.group(3) else None, m.group(4)))
        else:
            m = re.match(r'^([^:]*):(\d+): (.*)$', ln)
            if m:
                out.append((None, m.group(1), int(m.group(2)), m.group(3)))
            else:
                out.append((None, None, None, ln))
    return out


def diag(res, bad):
    """Is the first error of the most serious kind reported at its place?"""
    r, run = res['result'], res['run']
    top = [(f, n) for lv, f, n, m in r.errs if lv == r.level and f is not None and m is not None]
    got = parse_diags(run.err)
    if not run.err.strip():
        return bad('silent', 'exit 1 without a message')
    if not top:
        return res
    f, n = top[0]
    places = {(b, c) for a, b, c, d in got}
    if n == 0:
        # a macro is not finished: there is no line to report, only its name
        places |= {(d.split(': ')[0], 0) for a, b, c, d in got}
    if (f, n) not in places:
        return bad('diag', 'no message for %s:%d (%s); messages: %s'
                   % (f, n, LEVEL_NAMES.get(r.level), run.err[:400].decode(errors='replace')))
    res['diag'] = (r.level, f, n)
    return res


# ---------------------------------------------------------------------------
# Check context

class Ctx:
    def __init__(self, prop, tier, seed):
        self.prop = prop
        self.tier = tier
        self.seed = seed
        self.t0 = time.time()
        self.rng = random.Random('%s/%d' % (prop, seed))
        self.counts = {}
        self.distinct = set()
        self.evaluations = 0
        self.samples = []
        self.undecided = {}
        self.violations = []
        self.known_hits = {}
        self.known = load_known(prop)
        self.assumptions = []
        self.fatal = None
        self.level = 'exploration'
        self.rule = ''

    @property
    def quick(self):
        return self.tier == 'quick'

    def n(self, quick, thorough):
        return quick if self.quick else thorough

    def log(self, *a):
        print('[%6.1fs]' % (time.time() - self.t0), *a, file=sys.stderr, flush=True)

    def count(self, what, by=1):
        self.counts[what] = self.counts.get(what, 0) + by

    def sample(self, s, limit=6):
        if len(self.samples) < limit:
            self.samples.append(s if len(str(s)) < 2000 else str(s)[:2000])

    def violate(self, key, why, case=None, args=None):
        """Record a violation, unless a known finding covers it."""
        for k in self.known:
            if k['key'] == key:
                self.known_hits.setdefault(key, why)
                return
        self.violations.append((key, why, case, args))

    def report(self, res, tag='', key=None, nontrivial=None, want=None):
        """Fold one compare() result in."""
        self.evaluations += 1
        if res['verdict'] == 'undecided':
            w = res['why'].split(':')[0] + ':' + res['why'].split(':')[-1]
            self.undecided[w] = self.undecided.get(w, 0) + 1
            return False
        if nontrivial is None or nontrivial:
            self.distinct.add(res['digest'] if 'digest' in res else res['case'].digest())
        if res['verdict'] == 'bad':
            self.violate(key or res.get('kind', 'bad'), (tag + ': ' if tag else '') + res['why'],
                         res.get('case'), res['case'].args() if res.get('case') else None)
            return False
        return True

    def finish(self):
        known_expected = list(self.known)
        for k in known_expected:
            if k['key'] in self.known_hits:
                print('KNOWN-FINDING: property=%s %s' % (self.prop, k['what']))
        rdir = os.path.join(VERIF, 'evidence', 'replay', self.prop)
        shutil.rmtree(rdir, ignore_errors=True)
        seen = {}
        n = 0
        for key, why, case, args in self.violations:
            seen[key] = seen.get(key, 0) + 1
            if seen[key] > 3 or n >= 20:
                continue
            d = os.path.join(rdir, '%d-%s' % (n, re.sub(r'[^A-Za-z0-9_.-]+', '_', key)[:40]))
            n += 1
            write_replay(case, d, args or [], why)
            print('VIOLATION property=%s replay=%s' % (self.prop, d))
            print('   ' + why.replace('\n', '\n   ')[:1500])
        if stopped:
            self.assumptions.append('%d rounds of cases were cut short: the tree under test takes far too long' % len(stopped))
            self.log('cut short')
        cov = {
            'evaluations': self.evaluations,
            'distinct_nontrivial': len(self.distinct),
            'rule': self.rule,
            'samples': self.samples or ['(none)'],
            'observed': self.counts,
            'undecided': self.undecided,
        }
        ev = {'property': self.prop, 'tier': self.tier, 'seed': self.seed, 'level': self.level,
              'coverage': cov, 'assumptions': self.assumptions,
              'wall_s': round(time.time() - self.t0, 2), 'violations': len(self.violations)}
        os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
        tmp = os.path.join(VERIF, 'evidence', '.%s.tmp' % self.prop)
        with open(tmp, 'w') as f:
            json.dump(ev, f, indent=1, default=str)
        os.rename(tmp, os.path.join(VERIF, 'evidence', '%s.json' % self.prop))
        self.log('%s: %d evaluations, %d distinct, %d undecided, %d violations'
                 % (self.prop, self.evaluations, len(self.distinct), sum(self.undecided.values()),
                    len(self.violations)))
        return 1 if self.violations else 0


def load_known(prop):
    out = []
    p = os.path.join(VERIF, 'known_findings.txt')
    if os.path.exists(p):
        for ln in open(p):
            m = re.match(r'^known: property=(\S+) key=(\S+) (.*)$', ln.strip())
            if m and m.group(1) == prop:
                out.append({'key': m.group(2), 'what': m.group(3)})
    return out


# ---------------------------------------------------------------------------
# Work over processes

_fn = None


def _call(item):
    try:
        return _fn(item)
    except Exception:
        return {'verdict': 'undecided', 'why': 'harness: ' + traceback.format_exc()[-600:], 'case': None,
                'harness': True}


def _call_chunk(span):
    out = []
    for i in range(*span):
        if time.time() > DEADLINE:
            break
        out.append(_call(i))
    return out


def pmap(fn, items, chunk=None, procs=NPROC):
    """Unordered parallel map.  fn runs in forked workers."""
    global _fn
    build.scratch()
    items = list(items)
    _fn = lambda i: fn(items[i])
    if chunk is None:
        chunk = max(1, min(64, len(items) // (procs * 4) or 1))
    with mp.get_context('fork').Pool(procs) as pool:
        spans = [(i, min(i + chunk, len(items))) for i in range(0, len(items), chunk)]
        it = pool.imap(_call_chunk, spans)
        for a, b in spans:
            try:
                got = it.next(max(0.1, DEADLINE - time.time()))
            except mp.TimeoutError:
                got = []
            yield from got
            if len(got) < b - a:
                stopped.append(len(items))
                pool.terminate()
                return


# ---------------------------------------------------------------------------
# Model-differential campaigns

def trim(res, keep=False):
    """Only what the parent needs."""
    out = {'verdict': res['verdict'], 'why': res.get('why', ''), 'kind': res.get('kind', '')}
    case = res.get('case')
    if case is not None:
        out['digest'] = case.digest()
        if res['verdict'] == 'bad' or keep:
            out['case'] = case
        else:
            out['case'] = None
    r = res.get('result')
    if r is not None:
        out['ok'] = res.get('expect_ok')
        out['level'] = r.level
        out['passes'] = getattr(r, 'passes', 0)
        if r.ok:
            out['bytes'] = sum(len(d) for p, d in r.segs)
            out['segs'] = len(r.segs)
    for k in ('list_lines', 'nsyms', 'diag', 'notes', 'extra'):
        if k in res:
            out[k] = res[k]
    return out


def campaign(ctx, exe, cases, facets, tag='', key=None, nontrivial=None, after=None):
    """Compare every case with the model.  `cases` is a list of Case, or of
    zero-argument-callables/(fn, arg) pairs producing them in the worker."""
    def one(item):
        if isinstance(item, tuple):
            case = item[0](*item[1:])
        else:
            case = item
        res = compare(exe, case, facets)
        if after is not None and res['verdict'] == 'ok':
            after(res)
        return trim(res)

    cases = list(cases)
    if not ctx.samples or len(ctx.samples) < 5:
        for it in cases[:: max(1, len(cases) // 2)][:2]:
            c = it[0](*it[1:]) if isinstance(it, tuple) else it
            main = c.files.get(c.mains[0], b'')
            ctx.sample({'kind': tag, 'args': ' '.join(c.args()), 'main': main[:600].decode('latin-1')})
    for t in pmap(one, cases):
        ctx.evaluations += 1
        if t.get('harness'):
            ctx.count('harness errors')
            ctx.undecided['harness'] = ctx.undecided.get('harness', 0) + 1
            ctx.log(t['why'])
            continue
        if t['verdict'] == 'undecided':
            w = t['why'][:60]
            ctx.undecided[w] = ctx.undecided.get(w, 0) + 1
            continue
        nt = True
        if nontrivial is not None:
            nt = nontrivial(t)
        if nt:
            ctx.distinct.add(t['digest'])
        if t['verdict'] == 'bad':
            c = t['case']
            ctx.violate(key or '%s-%s' % (tag, t['kind']), '%s: %s' % (tag, t['why']), c, c.args())
            continue
        ctx.count('%s: %s' % (tag, 'assembled, as expected' if t.get('ok') else 'refused, as expected'))
        if t.get('ok'):
            ctx.count('programs assembled')
            ctx.count('bytes compared', t.get('bytes', 0))
            if t.get('passes', 0) > 2:
                ctx.count('needed more than two passes')
        else:
            ctx.count('programs rejected as expected')
        if 'list_lines' in t:
            ctx.count('listing lines compared', t['list_lines'])
        if 'nsyms' in t:
            ctx.count('symbols compared', t['nsyms'])
        if t.get('diag'):
            ctx.count('diagnostics placed')
        for k, v in (t.get('extra') or {}).items():
            ctx.count(k, v)


def make_random(seed, kw):
    """Worker-side: a random program as a Case."""
    rng = random.Random(seed)
    from . import gen
    kw = dict(kw)
    isa = kw.pop('isa6309', None)
    if isa is None:
        isa = rng.random() < 0.35
    size = kw.pop('sizes', (3, 6, 10, 20, 40, 80))
    fmts = kw.pop('fmts', ('srec',))
    opts = kw.pop('opts', False)
    g = gen.Gen(rng, isa, size=rng.choice(size), **kw)
    files = g.program()
    c = Case(files=files, isa6309=isa, fmt=rng.choice(fmts))
    if opts:
        if rng.random() < 0.3:
            c.setdp = rng.choice([0, 1, 0x12, 0x7f, 0x80, 0xff])
        if rng.random() < 0.3:
            c.defines = [('D%d' % i, rng.choice([None, 0, 1, 5, 300, '0x1234', '$ff'])) for i in range(rng.randrange(1, 4))]
        if rng.random() < 0.3:
            c.exec_opt = rng.choice(['0', '0x1234', '$C000', '1000', '@777', '%101', '65535'] + g.labels[:2] + g.consts[:2])
    return c


def randoms(ctx, n, salt='', **kw):
    base = '%s/%d/%s' % (ctx.prop, ctx.seed, salt)
    return [(make_random, '%s/%d' % (base, i), kw) for i in range(n)]
