"""Pristine processes: a server forked before the library has been used runs tasks in children of its own.

run(func_name, payload) executes module.func(payload) in a fresh child and gives back what it returned (pickled).
"""
import os
import pickle
import resource
import signal
import struct
import sys

CPU = 120


class Zygote:
    def __init__(self, module):
        self.module = module
        self.pid = None
        self.forks = 0

    def start(self):
        r1, w1 = os.pipe()
        r2, w2 = os.pipe()
        pid = os.fork()
        if pid == 0:
            os.close(w1)
            os.close(r2)
            signal.setitimer(signal.ITIMER_VIRTUAL, 0)
            try:
                self._serve(r1, w2)
            finally:
                os._exit(0)
        os.close(r1)
        os.close(w2)
        self.pid, self.w, self.r = pid, w1, r2

    @staticmethod
    def _read(fd, n):
        b = b''
        while len(b) < n:
            x = os.read(fd, n - len(b))
            if not x:
                raise EOFError
            b += x
        return b

    @classmethod
    def _recv(cls, fd):
        n, = struct.unpack('<q', cls._read(fd, 8))
        return pickle.loads(cls._read(fd, n))

    @staticmethod
    def _send(fd, x):
        b = pickle.dumps(x, 4)
        b = struct.pack('<q', len(b)) + b
        while b:
            b = b[os.write(fd, b):]

    def _serve(self, r, w):
        while True:
            try:
                name, payload = self._recv(r)
            except EOFError:
                os._exit(0)
            cr, cw = os.pipe()
            pid = os.fork()
            if pid == 0:
                os.close(cr)
                resource.setrlimit(resource.RLIMIT_CPU, (CPU, CPU + 5))
                try:
                    res = ('ok', getattr(sys.modules[self.module], name)(payload))
                except BaseException as e:  # noqa
                    import traceback
                    res = ('error', '%s\n%s' % (type(e).__name__, traceback.format_exc()[-1500:]))
                try:
                    self._send(cw, res)
                finally:
                    os._exit(0)
            os.close(cw)
            try:
                res = self._recv(cr)
            except EOFError:
                res = ('dead', None)
            os.close(cr)
            _, status = os.waitpid(pid, 0)
            if res[0] == 'dead':
                res = ('dead', 'status %d' % status)
            self._send(w, res)

    def run(self, name, payload):
        """ -> ('ok', result), ('error', text) or ('dead', why) """
        self.forks += 1
        self._send(self.w, (name, payload))
        return self._recv(self.r)
