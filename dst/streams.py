"""Simulated byte streams: the reader/writer arguments of the code under test."""
import errno
import io

ERRORS = {
    'EIO': lambda: OSError(errno.EIO, 'simulated I/O error'),
    'ENOSPC': lambda: OSError(errno.ENOSPC, 'simulated disk full'),
    'EINTR': lambda: InterruptedError(errno.EINTR, 'simulated interrupt'),
    'RESET': lambda: ConnectionResetError(errno.ECONNRESET, 'simulated reset'),
    'TIMEOUT': lambda: TimeoutError('simulated timeout'),
    'CLOSED': lambda: ValueError('I/O operation on closed file.'),
    'NOMEM': lambda: MemoryError('simulated allocation failure'),
    'INT': lambda: KeyboardInterrupt('simulated'),
}


class Reader(io.BufferedIOBase):
    """Holds data; the k-th read call (from 0) meets fault = (k, kind).

    kinds: an ERRORS key raises it; 'short' hands out one octet less than asked
    for and then the end of the stream; 'eof' hands out nothing from there on.
    """

    def __init__(self, data, fault=None, stop=None):
        self.data, self.pos, self.calls = data, 0, 0
        self.fault, self.fired, self.raised = fault, False, None
        self.ended = False
        self.stop = stop            # octets from here on have not arrived yet
        self.overread = False
        self.asked = 0

    def readable(self):
        return True

    def seekable(self):
        return True

    def seek(self, off, whence=0):
        self.pos = off if whence == 0 else self.pos + off if whence == 1 else len(self.data) + off
        return self.pos

    def tell(self):
        return self.pos

    def read(self, n=-1):
        k, self.calls = self.calls, self.calls + 1
        if n is None or n < 0:
            n = max(0, len(self.data) - self.pos)
        self.asked += n
        if self.fault is not None and k == self.fault[0]:
            kind = self.fault[1]
            self.fired = True
            if kind == 'eof':
                self.ended = True
            elif kind == 'short':
                self.ended = True
                r = self.data[self.pos:self.pos + max(0, n - 1)]
                self.pos += len(r)
                if not n:
                    self.fired = False
                    self.ended = False
                return r
            else:
                self.raised = ERRORS[kind]()
                raise self.raised
        if self.ended:
            return b''
        r = self.data[self.pos:self.pos + n]
        if self.stop is not None and self.pos + n > self.stop:
            self.overread = True
        self.pos += len(r)
        return r

    read1 = read

    def readinto(self, b):
        r = self.read(len(b))
        b[:len(r)] = r
        return len(r)


class Writer(io.BufferedIOBase):
    """Collects octets; fault = (octet offset, kind): the write that reaches
    that offset stores what fits below it and raises."""

    def __init__(self, fault=None):
        self.buf, self.fault = bytearray(), fault
        self.fired, self.raised, self.calls = False, None, 0

    def writable(self):
        return True

    def write(self, b):
        self.calls += 1
        b = bytes(b)
        if self.fault is not None and not self.fired and len(self.buf) + len(b) > self.fault[0]:
            self.buf += b[:max(0, self.fault[0] - len(self.buf))]
            self.fired = True
            self.raised = ERRORS[self.fault[1]]()
            raise self.raised
        self.buf += b
        return len(b)

    def tell(self):
        return len(self.buf)

    def getvalue(self):
        return bytes(self.buf)
