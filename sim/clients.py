"""Client processes that obey one command at a time, in the order the caller gives: each keeps its own memory."""
import os
import signal
import struct
import sys

import cloudpickle

from sim.core import HarnessError


def _send(fd, obj):
    data = cloudpickle.dumps(obj)
    data = struct.pack('=q', len(data)) + data
    while data:
        data = data[os.write(fd, data):]


def _receive(fd):
    def exactly(n):
        buf = b''
        while len(buf) < n:
            d = os.read(fd, n - len(buf))
            if not d:
                return None
            buf += d
        return buf
    head = exactly(8)
    return None if head is None else cloudpickle.loads(exactly(struct.unpack('=q', head)[0]))


class Client:
    def __init__(self, make, cwd):
        """make() is called in the new process and returns the function that obeys commands."""
        down_r, self.w = os.pipe()
        self.r, up_w = os.pipe()
        sys.stdout.flush()
        sys.stderr.flush()
        self.pid = os.fork()
        if self.pid == 0:
            try:
                signal.signal(signal.SIGALRM, signal.SIG_DFL)
                signal.setitimer(signal.ITIMER_REAL, 0)
                os.close(self.w)
                os.close(self.r)
                os.chdir(cwd)
                obey = make()
                while True:
                    cmd = _receive(down_r)
                    if cmd is None:
                        break
                    try:
                        res = ('ok', obey(*cmd))
                    except Exception as e:
                        res = ('raise', type(e).__name__, str(e)[:200])
                    _send(up_w, res)
            finally:
                os._exit(0)
        os.close(down_r)
        os.close(up_w)

    def do(self, *cmd):
        _send(self.w, cmd)
        res = _receive(self.r)
        if res is None:
            raise HarnessError('client died')
        return res

    def end(self):
        for fd in (self.r, self.w):
            os.close(fd)
        try:
            os.kill(self.pid, signal.SIGKILL)
        except OSError:
            pass
        os.waitpid(self.pid, 0)
