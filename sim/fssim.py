"""Storage simulator: processes that save and load, stepped one file operation at a time over a modelled disk.

Every actor is a forked process running real code on a real scratch directory below an LD_PRELOAD seam (shim/fsshim.c)
that stops it at each file operation. The controller picks, from the plan, which actor moves next and what happens to
the operation: it proceeds, fails with an errno, is cut short, the process dies before or after it, Ctrl-C arrives, or
the whole machine loses power. In parallel it keeps a model of what is durable, so that the directory that a power loss
would leave can be built.

Durability model: file contents are durable as of the last successful fsync of that file plus any subset of later
writes, each possibly torn; names are durable in the order of the operations up to any point not before the last fsync
of the directory. What existed at the start is durable.
"""
import collections
import ctypes
import errno
import os
import random
import shutil
import signal
import stat
import struct
import subprocess
import sys
import tempfile

import cloudpickle

from sim.core import HarnessError, VERIF

OPS = {1: 'open', 2: 'write', 3: 'read', 4: 'fsync', 5: 'close', 6: 'rename', 7: 'unlink', 8: 'truncate', 9: 'link',
       10: 'mkdir', 11: 'other'}
GO, ERRNO, SHORT, CRASH, SHORT_CRASH, SIGINT, CRASH_AFTER = range(7)
MSG = struct.Struct('=iiiiiiq')
SO = None


def ensure_shim():
    """Builds the seam and re-executes this process below it. Called by a property module before anything else."""
    so = os.environ.get('VERIF_FSSHIM')
    if so and so in os.environ.get('LD_PRELOAD', ''):
        return
    src = os.path.join(VERIF, 'shim', 'fsshim.c')
    d = os.path.join(VERIF, 'build')
    os.makedirs(d, exist_ok=True)
    so = os.path.join(d, 'fsshim.so')
    if not os.path.exists(so) or os.path.getmtime(so) < os.path.getmtime(src):
        tmp = '%s.%d' % (so, os.getpid())
        subprocess.run(['gcc', '-O1', '-shared', '-fPIC', '-w', '-o', tmp, src, '-ldl', '-lpthread'], check=True)
        os.replace(tmp, so)
    os.environ['VERIF_FSSHIM'] = so
    os.environ['LD_PRELOAD'] = so
    os.execv(sys.executable, [sys.executable] + sys.argv)


def _lib():
    global SO
    if SO is None:
        SO = ctypes.CDLL(os.environ['VERIF_FSSHIM'])
        SO.fs_arm.argtypes = [ctypes.c_char_p, ctypes.c_int, ctypes.c_int, ctypes.c_uint64]
    return SO


class Inode:
    def __init__(self, data=b'', link=None):
        self.durable = bytes(data)
        self.data = bytearray(data)
        self.dirty = []              # (offset, bytes) or ('trunc', length)
        self.link = link

    def apply(self, target, op):
        if op[0] == 'trunc':
            n = op[1]
            if len(target) > n:
                del target[n:]
            else:
                target.extend(b'\0' * (n - len(target)))
        else:
            off, data = op
            if len(target) < off:
                target.extend(b'\0' * (off - len(target)))
            target[off:off + len(data)] = data

    def do(self, op):
        self.apply(self.data, op)
        self.dirty.append(op)

    def sync(self):
        self.durable = bytes(self.data)
        self.dirty = []


class Disk:
    """Model of one directory tree."""

    def __init__(self, root):
        self.root = root
        self.names = {}
        self.journal = []            # ('set', path, inode) / ('del', path)
        self.forced = 0
        self.dirs = set()
        for base, dirs, files in os.walk(root):
            self.dirs.add(base)
            for f in files + [d for d in dirs if os.path.islink(os.path.join(base, d))]:
                p = os.path.join(base, f)
                if os.path.islink(p):
                    self.names[p] = Inode(link=os.readlink(p))
                elif stat.S_ISREG(os.stat(p).st_mode):
                    with open(p, 'rb') as fh:
                        self.names[p] = Inode(fh.read())
        self.start = dict(self.names)

    def _set(self, path, ino):
        self.names[path] = ino
        self.journal.append(('set', path, ino))

    def _del(self, path):
        self.names.pop(path, None)
        self.journal.append(('del', path))

    def power_loss(self, rng, into):
        """Writes the tree as a power loss now could leave it to the directory `into`."""
        cut = rng.randint(self.forced, len(self.journal))
        names = _power_loss_names(self, cut)
        mode = rng.choice(['none', 'all', 'some', 'torn'])
        lost = 0
        for d in sorted(self.dirs):
            os.makedirs(into + d[len(self.root):], exist_ok=True)
        for path in sorted(names):
            ino = names[path]
            dst = into + path[len(self.root):]
            if ino.link is not None:
                tgt = ino.link
                if tgt.startswith(self.root):
                    tgt = into + tgt[len(self.root):]
                os.symlink(tgt, dst)
                continue
            data = bytearray(ino.durable)
            for op in ino.dirty:
                keep = {'none': False, 'all': True}.get(mode)
                if keep is None:
                    keep = rng.random() < 0.5
                if not keep:
                    lost += 1
                    continue
                if mode == 'torn' and op[0] != 'trunc' and len(op[1]) > 1:
                    op = (op[0], op[1][:rng.randrange(1, len(op[1]))])
                    lost += 1
                ino.apply(data, op)
            with open(dst, 'wb') as f:
                f.write(data)
        return cut, mode, lost


class Actor:
    def __init__(self, index, fn, root, seed):
        self.index = index
        self.nops = 0
        self.fds = {}
        self.pending = None
        self.result = None           # ('ok', value) / ('raise', type name, text, is_exception) / ('crashed',)
        self.started = False
        self.finished_at = None
        self.started_at = None
        down_r, down_w = os.pipe()
        up_r, up_w = os.pipe()
        sys.stdout.flush()
        sys.stderr.flush()
        self.pid = os.fork()
        if self.pid == 0:
            try:
                signal.signal(signal.SIGALRM, signal.SIG_DFL)
                signal.setitimer(signal.ITIMER_REAL, 0)
                signal.signal(signal.SIGINT, signal.default_int_handler)
                os.close(down_w)
                os.close(up_r)
                os.chdir(root)
                lib = _lib()
                os.read(down_r, 1)
                lib.fs_arm(os.fsencode(root), down_r, up_w, seed)
                try:
                    try:
                        res = ('ok', fn())
                    finally:
                        lib.fs_disarm()
                except BaseException as e:
                    res = ('raise', type(e).__name__, str(e)[:200], isinstance(e, Exception))
                try:
                    data = cloudpickle.dumps(res)
                except Exception as e:
                    data = cloudpickle.dumps(('raise', 'unserialisable', repr(e), True))
                out = MSG.pack(200, 0, 0, 0, 0, len(data), 0) + data
                while out:
                    n = os.write(up_w, out)
                    out = out[n:]
            except BaseException as e:
                try:
                    os.write(2, ('actor failed: %r\n' % (e,)).encode())
                except Exception:
                    pass
            finally:
                os._exit(0)
        os.close(down_r)
        os.close(up_w)
        self.r, self.w = up_r, down_w

    def _read(self, n):
        buf = b''
        while len(buf) < n:
            d = os.read(self.r, n - len(buf))
            if not d:
                return None
            buf += d
        return buf

    def message(self):
        head = self._read(MSG.size)
        if head is None:
            return None
        op, fd, arg, n1, n2, nd, off = MSG.unpack(head)
        p1 = os.fsdecode(self._read(n1)) if n1 else None
        p2 = os.fsdecode(self._read(n2)) if n2 else None
        data = self._read(nd) if nd else b''
        return {'op': op, 'fd': fd, 'arg': arg, 'p1': p1, 'p2': p2, 'data': data, 'off': off}

    def reply(self, act, val=0):
        os.write(self.w, struct.pack('=ii', act, val))

    def advance(self):
        """Runs the actor until it stops at its next operation or ends."""
        m = self.message()
        if m is None:
            self.result = ('crashed',)
        elif m['op'] == 200:
            self.result = cloudpickle.loads(m['data'])
        elif m['op'] == 100:
            raise HarnessError('unexpected completion report')
        else:
            self.pending = m
        if self.result is not None:
            self.reap()

    def begin(self):
        self.started = True
        os.write(self.w, b'g')
        self.advance()

    def reap(self):
        for fd in (self.r, self.w):
            try:
                os.close(fd)
            except OSError:
                pass
        try:
            os.kill(self.pid, signal.SIGKILL)
        except OSError:
            pass
        os.waitpid(self.pid, 0)

    def kill(self):
        if self.result is None:
            self.result = ('crashed',)
            self.pending = None
            self.reap()


ERRNOS = {'open': [errno.ENOSPC, errno.EACCES, errno.EMFILE, errno.EIO, errno.EROFS], 'write': [errno.ENOSPC, errno.EIO,
          errno.EDQUOT, errno.EFBIG], 'fsync': [errno.EIO, errno.ENOSPC], 'close': [errno.EIO, errno.EDQUOT],
          'rename': [errno.EIO, errno.EACCES, errno.ENOSPC, errno.EXDEV, errno.EPERM], 'unlink': [errno.EIO, errno.EACCES],
          'read': [errno.EIO, errno.ESTALE], 'truncate': [errno.EIO], 'link': [errno.EPERM], 'mkdir': [errno.EACCES],
          'other': [errno.EIO]}


class Machine:
    """One simulated run."""

    def __init__(self, root, plan, out):
        self.root = os.path.realpath(root)
        self.plan = plan
        self.out = out
        self.disk = Disk(self.root)
        self.rng = random.Random('fs/%s' % plan.get('seed', 0))
        self.faults = {(f['actor'], f['op']): f for f in plan.get('faults', [])}
        self.actors = []
        self.fired = collections.Counter()
        self.clock = 0
        self.power_lost = False
        self.disk_full_after = plan.get('disk_full')       # bytes that can still be written, or None
        self.names = {}
        self.order = []

    def add(self, fn):
        a = Actor(len(self.actors), fn, self.root, self.plan.get('seed', 0) * 1000 + len(self.actors))
        self.actors.append(a)
        return a

    def _label(self, path):
        """Path for the event log: temporary names are numbered by appearance."""
        if path is None:
            return None
        rel = os.path.relpath(path, self.root)
        return self.names.setdefault(rel, 'f%d' % len(self.names))

    def run(self):
        """Steps the actors until all have ended or the power is lost."""
        try:
            while True:
                ready = [a for a in self.actors if a.result is None]
                if not ready:
                    return
                one = len(ready) == 1 or self.plan.get('serial')
                a = ready[0] if one else ready[self.rng.randrange(len(ready))]
                self.clock += 1
                if self.clock > 20000:
                    raise HarnessError('an actor does not stop using files')
                if not a.started:
                    a.started_at = self.clock
                    a.begin()
                else:
                    self.step(a)
                    if self.power_lost:
                        return
                if a.result is not None:
                    a.finished_at = self.clock
                    self.out.event('end', a.index, a.result[:2] if a.result[0] == 'raise' else a.result[0])
        finally:
            for a in self.actors:
                a.kill()

    def step(self, a):
        m = a.pending
        a.pending = None
        op = OPS.get(m['op'], 'other')
        f = self.faults.get((a.index, a.nops))
        a.nops += 1
        act, val, kind = GO, 0, None
        if f is not None:
            kind = f['kind']
            if kind == 'power':
                self.fire('power_loss')
                self.power_lost = True
                if op == 'write' and f.get('val', 0) % 2:
                    # the write reached the page cache before the power went
                    self.model(a, m, op, len(m['data']))
                return
            if kind == 'errno':
                e = ERRNOS[op]
                act, val = ERRNO, e[f.get('val', 0) % len(e)]
            elif kind == 'eintr':
                if op in ('open', 'write', 'read', 'fsync'):
                    act, val = ERRNO, errno.EINTR
            elif kind == 'short':
                if op == 'write' and len(m['data']) > 1:
                    act, val = SHORT, 1 + f.get('val', 0) % (len(m['data']) - 1)
                elif op == 'read' and m['arg'] > 1:
                    act, val = SHORT, 1 + f.get('val', 0) % min(m['arg'] - 1, 500)
            elif kind == 'crash':
                act = CRASH
            elif kind == 'torn_crash':
                act, val = (SHORT_CRASH, f.get('val', 0) % max(len(m['data']), 1)) if op == 'write' else (CRASH, 0)
            elif kind == 'crash_after':
                act = CRASH_AFTER
            elif kind == 'sigint':
                act = SIGINT
            if act != GO:
                self.fire('%s@%s' % (kind, op))
        if op == 'write' and act in (GO, SHORT) and self.disk_full_after is not None:
            n = len(m['data']) if act == GO else val
            if n > self.disk_full_after:
                self.fire('disk_full')
                if self.disk_full_after > 0:
                    act, val = SHORT, self.disk_full_after
                    self.disk_full_after = 0
                else:
                    act, val = ERRNO, errno.ENOSPC
            else:
                self.disk_full_after -= n
        self.out.event(a.index, op, self._label(m['p1']), self._label(m['p2']), len(m['data']), act, val)
        self.order.append((a.index, op))
        a.reply(act, val)
        if act == CRASH:
            a.result = ('crashed',)
            a.reap()
            return
        d = a.message()
        if d is None or d['op'] != 100:
            raise HarnessError('no completion report from actor %d' % a.index)
        ret = d['off']
        if ret >= 0:
            self.model(a, m, op, ret)
        if act in (CRASH_AFTER, SHORT_CRASH):
            a.result = ('crashed',)
            a.reap()
            return
        a.advance()

    def fire(self, kind):
        self.fired[kind] += 1
        self.out.faults[kind] += 1

    def _resolve(self, path):
        return os.path.join(os.path.realpath(os.path.dirname(path)), os.path.basename(path))

    def model(self, a, m, op, ret):
        """Mirrors an operation that took effect."""
        disk = self.disk
        if op == 'open':
            path = self._resolve(m['p1'])
            for _ in range(8):
                ino = disk.names.get(path)
                if ino is None or ino.link is None:
                    break
                path = self._resolve(os.path.join(os.path.dirname(path), ino.link))
            if os.path.isdir(path):
                a.fds[ret] = path
                return
            flags = m['arg']
            if ino is None:
                if not os.path.exists(path):
                    return
                ino = Inode()
                disk._set(path, ino)
            if flags & os.O_TRUNC:
                ino.do(('trunc', 0))
            a.fds[ret] = ino
            return
        ino = a.fds.get(m['fd'])
        if op == 'write' and isinstance(ino, Inode):
            ino.do((m['off'], bytes(m['data'][:ret])))
        elif op == 'truncate' and isinstance(ino, Inode):
            ino.do(('trunc', m['off']))
        elif op == 'fsync':
            if isinstance(ino, Inode):
                ino.sync()
            elif isinstance(ino, str):
                disk.forced = len(disk.journal)
        elif op == 'close':
            a.fds.pop(m['fd'], None)
        elif op == 'rename':
            p, q = self._resolve(m['p1']), self._resolve(m['p2'])
            ino = disk.names.get(p)
            if ino is not None:
                disk.names.pop(p)
                disk.names[q] = ino
                # one atomic journal entry
                disk.journal.append(('ren', p, q, ino))
        elif op == 'link':
            ino = disk.names.get(self._resolve(m['p1']))
            if ino is not None:
                disk._set(self._resolve(m['p2']), ino)
        elif op == 'unlink':
            disk._del(self._resolve(m['p1']))


def _power_loss_names(disk, cut):
    names = dict(disk.start)
    for op in disk.journal[:cut]:
        if op[0] == 'set':
            names[op[1]] = op[2]
        elif op[0] == 'ren':
            names.pop(op[1], None)
            names[op[2]] = op[3]
        else:
            names.pop(op[1], None)
    return names


class Scratch:
    """A scratch directory on a memory file system where there is one."""

    def __enter__(self):
        base = '/dev/shm' if os.access('/dev/shm', os.W_OK) else None
        self.path = os.path.realpath(tempfile.mkdtemp(prefix='vfs', dir=base))
        return self.path

    def __exit__(self, *exc):
        shutil.rmtree(self.path, ignore_errors=True)


def listing(root):
    res = set()
    for base, dirs, files in os.walk(root):
        for f in files:
            res.add(os.path.relpath(os.path.join(base, f), root))
        for d in dirs:
            if os.path.islink(os.path.join(base, d)):
                res.add(os.path.relpath(os.path.join(base, d), root))
    return res
