"""Runs the Python tools of the repository for a harness (see pyhost.hpp).

One request per line on stdin, fields separated by \\x1f; one line in reply.

  run  SCRIPT CWD KIND AT MISSING ARGS...
       -> exit status, operations done, files fetched (separated by blanks)
  both CWD MISSING N SCRIPT ARG... SCRIPT ARG...
       (N arguments of the first run) two runs under a controlled scheduler:
       -> "?" and the runs that wait to do an operation, answered by the
       number of the run that goes on; finally the exit statuses
  look DIR -> names and what they are: gz, asc (complete products), bad, other

Every run is a forked child which executes the unmodified script as __main__,
with its FTP server replaced by one that serves the products of all days but
the missing ones. Operations (of the FTP session, and opening, writing and
renaming files) are numbered; at operation AT a fault occurs: KIND "crash" (the
process is gone, half of what it was writing is written), "error" (connection
lost, disk full). HANG is reported for runs of more than 8 s.
"""
import argparse, builtins, calendar, copy, datetime, ftplib, gzip, io, mmap
import os, re, runpy, shutil, signal, string, struct, sys, time, _strptime
from argparse import RawTextHelpFormatter

sys.dont_write_bytecode = True
MEM = mmap.mmap(-1, 1 << 16)
real_open, real_replace, real_rename = builtins.open, os.replace, os.rename
real_remove, real_isfile, real_exists = os.remove, os.path.isfile, os.path.exists
NAME = re.compile(r'AOD1B_(\d{4})-(\d\d)-(\d\d)_X_(\d\d)\.asc(\.gz)?$')


def product(name):
    """Contents of a product, None for names that are none."""
    m = NAME.match(name)
    if not m:
        return None
    y, mo, d, rl = (int(m[i]) for i in (1, 2, 3, 4))
    if not (1970 < y < 2100 and 1 <= mo <= 12 and
            1 <= d <= calendar.monthrange(y, mo)[1] and rl in (5, 6)):
        return None
    text = ''.join('%s line %d\n' % (name[:25], i * i) for i in range(3)).encode()
    return gzip.compress(text, mtime=0) if m[5] else text


class Fault:
    kind, at = '', -1
    grant = None      # of the scheduler

    @classmethod
    def op(cls, name, ftp=False, half=None):
        """One operation is about to be done."""
        if cls.grant:
            os.write(cls.grant[0], b'.')
            if os.read(cls.grant[1], 1) != b'.':
                os._exit(97)
            return
        n = struct.unpack_from('<i', MEM, 0)[0] + 1
        struct.pack_into('<i', MEM, 0, n)
        if n != cls.at:
            return
        if half:
            half()
        if cls.kind == 'crash':
            os._exit(99)
        if ftp:
            raise EOFError('connection lost')
        raise OSError(28, 'No space left on device')


def note(name):
    n = struct.unpack_from('<i', MEM, 4)[0]
    b = (name + ' ').encode()
    if 8 + n + len(b) > len(MEM):
        return
    MEM[8 + n:8 + n + len(b)] = b
    struct.pack_into('<i', MEM, 4, n + len(b))


class Written(io.RawIOBase):
    """A file being written: every write is an operation."""
    def __init__(self, fn, raw):
        self.raw_, self.name = raw, fn
    def writable(self): return True
    def readable(self): return self.raw_.readable()
    def seekable(self): return True
    def seek(self, *a): return self.raw_.seek(*a)
    def tell(self): return self.raw_.tell()
    def truncate(self, *a): return self.raw_.truncate(*a)
    def readinto(self, b): return self.raw_.readinto(b)
    def fileno(self): return self.raw_.fileno()
    def write(self, b):
        b = bytes(b)
        Fault.op('write', half=lambda: self.raw_.write(b[:len(b) // 2]))
        return self.raw_.write(b)
    def close(self):
        if not self.closed:
            self.raw_.close()
        super().close()


def my_open(file, mode='r', buffering=-1, encoding=None, errors=None,
            newline=None, closefd=True, opener=None):
    if isinstance(file, int) or not any(x in mode for x in 'wax+'):
        if Fault.grant:
            Fault.op('open')
        return real_open(file, mode, buffering, encoding, errors, newline,
                         closefd, opener)
    Fault.op('create')
    raw = real_open(file, mode.replace('b', '').replace('t', '') + 'b', 0,
                    opener=opener)
    w = Written(file, raw)
    if buffering == 0:
        return w
    # small buffers: what is not flushed yet is lost in a crash
    w = (io.BufferedRandom if '+' in mode else io.BufferedWriter)(
        w, 64 if 'b' in mode else 512)
    if 'b' in mode:
        return w
    return io.TextIOWrapper(w, encoding or 'utf-8', errors, newline,
                            write_through=True)


def hooked(f, name):
    def g(*a, **k):
        Fault.op(name)
        return f(*a, **k)
    return g


class FTP:
    """Stands in for ftplib.FTP."""
    missing = ()

    def __init__(self, host='', *a, **k):
        self.dir = '/'
        self.sock = None
        if host:
            self.connect(host)
    def connect(self, host='', *a, **k):
        Fault.op('connect', True)
        if 'gfz' not in host:
            raise OSError('unknown host ' + host)
        return '220'
    def login(self, *a, **k):
        Fault.op('login', True)
        return '230'
    def cwd(self, d):
        Fault.op('cwd', True)
        d = os.path.normpath(os.path.join(self.dir, d))
        if not re.match(r'(/(grace(/Level-1B(/GFZ(/AOD(/RL0[56](/\d{4})?)?)?)?)?)?)$', d):
            raise ftplib.error_perm('550 ' + d)
        self.dir = d
        return '250'
    def pwd(self): return self.dir
    def voidcmd(self, *a): return '200'
    def sendcmd(self, *a): return '200'
    def set_pasv(self, *a): pass
    def _get(self, fn):
        d, b = os.path.split(os.path.join(self.dir, fn))
        m = NAME.match(b)
        p = product(b)
        if not p or not m[5] or b in self.missing or \
           d != '/grace/Level-1B/GFZ/AOD/RL%s/%s' % (m[4], m[1]):
            raise ftplib.error_perm('550 No such file ' + fn)
        return b, p
    def size(self, fn): return len(self._get(fn)[1])
    def nlst(self, *a): return []
    def retrbinary(self, cmd, callback, blocksize=8192, rest=None):
        Fault.op('retr', True)
        w = cmd.split()
        if len(w) != 2 or w[0].upper() != 'RETR':
            raise ftplib.error_perm('500 ' + cmd)
        b, p = self._get(w[1])
        note(b)
        p = p[rest or 0:]
        n = (len(p) + 2) // 3
        for i in range(0, len(p), n):
            Fault.op('block', True)
            callback(p[i:i + n])
        Fault.op('end', True)
        return '226'
    def quit(self):
        Fault.op('quit', True)
        return '221'
    def close(self): pass
    def __enter__(self): return self
    def __exit__(self, *a): self.close()


def child(script, cwd, missing, args):
    """Run the script; never returns."""
    code = 98
    try:
        signal.alarm(8)
        os.chdir(cwd)
        os.environ['PWD'] = cwd
        null = os.open('/dev/null', os.O_RDWR)
        for fd in (0, 1, 2):
            os.dup2(null, fd)
        sys.stdin = real_open(0, 'r', closefd=False)
        sys.stdout = sys.stderr = real_open(1, 'w', closefd=False)
        sys.argv = [script] + args
        sys.path[0] = os.path.dirname(script)
        FTP.missing = missing
        ftplib.FTP = ftplib.FTP_TLS = FTP
        builtins.open = io.open = my_open
        os.replace = hooked(real_replace, 'replace')
        os.rename = hooked(real_rename, 'rename')
        if Fault.grant:
            os.path.isfile = hooked(real_isfile, 'isfile')
            os.path.exists = hooked(real_exists, 'exists')
            os.remove = os.unlink = hooked(real_remove, 'remove')
        time.sleep = lambda *a: None
        try:
            runpy.run_path(script, run_name='__main__')
            code = 0
        except SystemExit as e:
            code = e.code if isinstance(e.code, int) else (1 if e.code else 0)
        except BaseException:
            code = 1
    finally:
        os._exit(code & 0xff)


def status(st):
    if os.WIFSIGNALED(st):
        return 'HANG' if os.WTERMSIG(st) == signal.SIGALRM else 'SIG%d' % os.WTERMSIG(st)
    return str(os.WEXITSTATUS(st))


def run(script, cwd, kind, at, missing, *args):
    MEM[0:8] = b'\0' * 8
    pid = os.fork()
    if not pid:
        Fault.kind, Fault.at = kind, int(at)
        child(script, cwd, missing.split(), list(args))
    st = os.waitpid(pid, 0)[1]
    n, k = struct.unpack_from('<ii', MEM, 0)
    return '%s\x1f%d\x1f%s' % (status(st), n, MEM[8:8 + k].decode())


def both(cwd, missing, n, *rest):
    n = int(n)
    MEM[0:8] = b'\0' * 8
    runs = [list(rest[:n + 1]), list(rest[n + 1:])]
    pipes, pids = [], []
    for i in (0, 1):
        up, down = os.pipe(), os.pipe()
        pid = os.fork()
        if not pid:
            os.close(up[0])
            os.close(down[1])
            for u, d, _ in pipes:
                os.close(u)
                os.close(d)
            Fault.grant = (up[1], down[0])
            child(runs[i][0], cwd, missing.split(), runs[i][1:])
        os.close(up[1])
        os.close(down[0])
        pipes.append((up[0], down[1], i))
        pids.append(pid)
    waiting, ended = [False, False], [False, False]
    def settle(i):
        if os.read(pipes[i][0], 1) == b'.':
            waiting[i] = True
        else:
            ended[i] = True
    settle(0)
    settle(1)
    while not all(ended):
        can = [str(i) for i in (0, 1) if waiting[i]]
        print('?' + ' '.join(can), flush=True)
        i = int(sys.stdin.readline())
        if i < 0:               # the rest is of no interest
            for p in pids:
                os.kill(p, signal.SIGKILL)
            break
        waiting[i] = False
        os.write(pipes[i][1], b'.')
        settle(i)
    r = [status(os.waitpid(p, 0)[1]) for p in pids]
    for u, d, _ in pipes:
        os.close(u)
        os.close(d)
    return ' '.join(r)


def look(d):
    r = []
    for n in sorted(os.listdir(d)):
        p = product(n)
        if p is None or not real_isfile(os.path.join(d, n)):
            r.append(n + ' other')
            continue
        with real_open(os.path.join(d, n), 'rb') as f:
            b = f.read()
        if n.endswith('.gz'):
            try:
                ok = gzip.decompress(b) == gzip.decompress(p)
            except Exception:
                ok = False
        else:
            ok = b == p
        r.append(n + ' ' + (('gz' if n.endswith('.gz') else 'asc') if ok else 'bad'))
    return ' '.join(r)


def put(d, *names):
    """Files as they are after a complete run; 'name!' for an incomplete one."""
    for n in names:
        p = product(n.rstrip('!')) or n.encode()
        with real_open(os.path.join(d, n.rstrip('!')), 'wb') as f:
            f.write(p[:len(p) // 2] if n.endswith('!') else p)
    return 'ok'


# what the children need is there before they are made
argparse.ArgumentParser(formatter_class=RawTextHelpFormatter).parse_args([])
datetime.datetime.strptime('2008-07-03 00:00:00', '%Y-%m-%d %H:%M:%S')
while True:
    line = sys.stdin.readline()
    if not line:
        break
    a = line.rstrip('\n').split('\x1f')
    print({'run': run, 'both': both, 'look': look, 'put': put}[a[0]](*a[1:]), flush=True)
