"""Client of harness/vrun.c (one interpreter, one fork per case)."""
import os, signal, subprocess, tempfile
from . import build as B

SAN_ENV = {
    'ASAN_OPTIONS': 'detect_leaks=0:detect_stack_use_after_return=0:'
                    'abort_on_error=0:exitcode=86:allocator_may_return_null=1:'
                    'handle_segv=1:allow_user_segv_handler=0:print_legend=0:'
                    'max_malloc_fill_size=4096:malloc_fill_byte=190',
    'UBSAN_OPTIONS': 'print_stacktrace=1:halt_on_error=1:exitcode=87',
}


class Result:
    __slots__ = ('code', 'sig', 'out', 'err')

    def __init__(self, code, sig, out, err):
        self.code, self.sig, self.out, self.err = code, sig, out, err

    @property
    def done(self):
        return self.code == 0 and self.out.endswith(b'#DONE\n')

    @property
    def timeout(self):
        return self.sig in (signal.SIGXCPU, signal.SIGKILL)

    def text(self):
        return self.out.decode('utf-8', 'surrogateescape')

    def lines(self):
        """output without the trailing #DONE"""
        return self.text().split('\n')[:-2]

    def describe(self):
        s = 'exit=%d signal=%d' % (self.code, self.sig)
        if self.err:
            s += ' stderr=' + self.err.decode('utf-8', 'replace')[:1500]
        return s


class ServerDied(Exception):
    pass


class Server:
    def __init__(self, variant='compact-opt', heap=None, preload=None, enc=None, stack_mb=None,
                 lib=None, cwd=None, prog='vrun'):
        self.variant, self.heap, self.preload, self.enc = variant, heap, preload, enc
        self.stack_mb, self.lib, self.cwd, self.prog = stack_mb, lib, cwd, prog
        self.p = None
        self.tmp = None

    def start(self):
        d = B.build(self.variant)
        cmd = [os.path.join(d, self.prog), '--lib', self.lib or B.LIB]
        if self.enc:
            cmd += ['--enc', self.enc]
        if self.heap:
            cmd += ['--heap', self.heap]
        if self.preload:
            fd, self.tmp = tempfile.mkstemp(suffix='.scm')
            with os.fdopen(fd, 'w') as f:
                f.write(self.preload)
            cmd += ['--preload', self.tmp]
        if self.stack_mb:
            cmd = ['bash', '-c', 'ulimit -s %d; exec "$@"' % (self.stack_mb * 1024), 'x'] + cmd
        env = dict(os.environ, LC_ALL='C', **SAN_ENV)
        if self.variant.endswith('-gcs'):
            env['MALLOC_PERTURB_'] = '170'
        self.errf = tempfile.TemporaryFile()
        self.p = subprocess.Popen(cmd, stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=self.errf,
                                  env=env, cwd=self.cwd)
        line = self.p.stdout.readline()
        if self.tmp:
            os.unlink(self.tmp)
            self.tmp = None
        if line != b'READY\n':
            self.p.wait()
            self.errf.seek(0)
            raise ServerDied('interpreter failed to initialise: %r exit=%s %s' % (
                line, self.p.returncode, self.errf.read().decode('utf-8', 'replace')[-2000:]))

    def run(self, text, mode='-', cpu=10, as_mb=0):
        if self.p is None:
            self.start()
        if isinstance(text, str):
            text = text.encode('utf-8', 'surrogateescape')
        self.p.stdin.write(b'%s %d %d %d\n' % (mode.encode() or b'-', cpu, as_mb, len(text)) + text)
        self.p.stdin.flush()
        hdr = self.p.stdout.readline().split()
        if len(hdr) != 4:
            raise ServerDied('case server died (%s)' % self.p.poll())
        code, sig, no, ne = map(int, hdr)
        out = self.p.stdout.read(no)
        err = self.p.stdout.read(ne)
        return Result(code, sig, out, err)

    def close(self):
        if self.p:
            try:
                self.p.stdin.close()
                self.p.wait(10)
            except Exception:
                self.p.kill()
                self.p.wait()
            self.p.stdout.close()
            self.errf.close()
            self.p = None
