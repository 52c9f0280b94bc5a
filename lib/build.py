"""Build instrumented variants of the current /repo tree in a scratch directory."""
import atexit
import fcntl
import os
import shutil
import subprocess
import tempfile

REPO = os.environ.get('ASM_REPO', '/repo')

SAN = '-g -O1 -fno-omit-frame-pointer -fno-common'
VARIANTS = {
    # what a user would build
    'plain': dict(cc='gcc', cflags='-O2 -g'),
    # heap, stack, globals, use after free, and every UB class that UBSan has
    # a check for, made fatal ("function" is left out: flex and bison call
    # through unprototyped pointers)
    'asan': dict(cc='clang', cflags=SAN + ' -fsanitize=address,undefined,float-cast-overflow,bounds '
                 '-fno-sanitize=function -fno-sanitize-recover=all '
                 '-fsanitize-address-use-after-scope'),
    # reads of uninitialised memory
    'msan': dict(cc='clang', cflags=SAN + ' -fsanitize=memory -fsanitize-memory-track-origins=2 '
                 '-fno-sanitize-recover=all'),
    # for coverage-guided fuzzing
    # (afl-clang-fast's own clang has no sanitizer runtime here: use clang's
    # edge callbacks with AFL++'s runtime)
    'afl': dict(cc='clang', cflags='-g -O1 -fno-omit-frame-pointer -fno-common -fsanitize=address,undefined,float-cast-overflow '
                '-fno-sanitize=function -fno-sanitize-recover=all -fsanitize-coverage=trace-pc-guard',
                libs='/usr/lib/afl/afl-compiler-rt.o'),
    # edge coverage, used to report reach
    'cov': dict(cc='gcc', cflags='-O0 -g --coverage -fprofile-abs-path'),
}


class BuildError(Exception):
    pass


_scratch = None


def scratch():
    """A directory removed when the process that made it ends."""
    global _scratch
    if _scratch is None:
        base = '/dev/shm' if os.access('/dev/shm', os.W_OK) and \
            shutil.disk_usage('/dev/shm').free > (1 << 30) else None
        d = tempfile.mkdtemp(prefix='asmv.', dir=base)
        _scratch = d
        owner = os.getpid()

        def clean():
            if os.getpid() == owner:
                shutil.rmtree(d, ignore_errors=True)
        atexit.register(clean)
    return _scratch


SKIP = ('.git',)


def _copy(dst):
    os.makedirs(dst)
    subprocess.run(['bash', '-c', 'tar -C "$1" --exclude=./.git -cf - . | tar -C "$2" -xf -', '-', REPO, dst],
                   check=True, capture_output=True)


def _sh(cmd, cwd, env=None):
    return subprocess.run(['bash', '-c', cmd], cwd=cwd, stdin=subprocess.DEVNULL,
                          stdout=subprocess.PIPE, stderr=subprocess.STDOUT, env=env)


def build(variant='plain', extra=''):
    """Path of the assembler built from /repo's working tree."""
    v = VARIANTS[variant]
    d = os.path.join(scratch(), 'b-' + variant)
    exe = os.path.join(d, 'src', 'asm6809')
    if os.path.exists(exe):
        return exe
    _copy(d)
    env = dict(os.environ)
    for k in ('CFLAGS', 'LDFLAGS', 'CC', 'MAKEFLAGS', 'MSAN_OPTIONS', 'ASAN_OPTIONS'):
        env.pop(k, None)
    # nothing built before may be reused
    _sh("find . -name '*.o' -delete; find . -name '*.a' -delete; rm -f src/asm6809", d)
    tracked = _sh('git -C "%s" ls-files' % REPO, d).stdout.decode(errors='replace').split('\n')
    for f in ('src/grammar.c', 'src/grammar.h', 'src/lex.c'):
        if f not in tracked and os.path.exists(os.path.join(d, f)):
            os.remove(os.path.join(d, f))
    tools = 'ACLOCAL=: AUTOCONF=: AUTOMAKE=: AUTOHEADER=:'
    log = b''
    if not os.path.exists(os.path.join(d, 'Makefile')) or not os.path.exists(os.path.join(d, 'config.h')):
        r = _sh('(test -x configure || ./autogen.sh) && ./configure', d, env)
        log += r.stdout
    else:
        # everything generated by the autotools counts as up to date
        _sh("touch aclocal.m4; sleep 0.02; touch configure config.h.in; find . -name Makefile.in -exec touch {} +;"
            "sleep 0.02; touch config.status; sleep 0.02; touch config.h stamp-h1; find . -name Makefile -exec touch {} +", d)
    cmd = 'make -j8 %s CC=%s CFLAGS="%s %s"' % (tools, v['cc'], v['cflags'], extra)
    if v.get('libs'):
        cmd += ' LIBS="%s"' % v['libs']
    r = _sh(cmd + ' -C gnulib & ' + cmd + ' -C dt101; wait; ' + cmd + ' -C src', d, env)
    log += r.stdout
    if not os.path.exists(exe):
        # a stale or missing configuration: start over
        r = _sh('(test -x configure || ./autogen.sh) && ./configure && ' + cmd, d, env)
        log += r.stdout
    if not os.path.exists(exe):
        raise BuildError(log.decode(errors='replace')[-3000:])
    return exe


def shim(name, src, flags='', cc='gcc'):
    """Compile a preloadable shared object from /verif/shim."""
    out = os.path.join(scratch(), name + '.so')
    if not os.path.exists(out):
        subprocess.run('%s -shared -fPIC -O1 -g %s -o %s %s -ldl' % (cc, flags, out, src), shell=True, check=True)
    return out
