"""Connections to a serving driver: raw byte streams, framing."""
import socket, struct, time, select
from rf import *
from pbt import Fail

PREFIX = 0xcefadefa
ASYNC, SYNC, RESP = 0, 1, 2
LIMIT = 20.0


class Gone(Exception):
    pass


def header(data, mt):
    """a serialised value (header and payload) as a message of the type"""
    b = bytearray(data)
    b[7] = mt
    return bytes(b)


class Raw:
    def __init__(self, port, shake=b"\x01\x00", cuts=None):
        try:
            self.s = socket.create_connection(("127.0.0.1", port), LIMIT)
        except OSError as e:
            raise Gone("no connection: %s" % e)
        self.s.setsockopt(socket.IPPROTO_TCP, socket.TCP_NODELAY, 1)
        self.buf = b""
        if shake is not None:
            self.send(shake, cuts)
            if len(self.take(1)) != 1:
                raise Gone("no handshake")

    def send(self, b, cuts=None, gap=0.0):
        """in pieces, cut at the offsets; whatever arrives meanwhile is kept (nobody blocks on full buffers)"""
        ps = sorted(set(min(max(c, 0), len(b)) for c in (cuts or []))) + [len(b)]
        p = 0
        for q in ps:
            part = b[p:q]
            p = q
            self.push(part)
            if q != len(b) and gap:
                time.sleep(gap)

    def push(self, part):
        end = time.time() + LIMIT
        while part:
            r, w, _ = select.select([self.s], [self.s], [], 5)
            if r:
                try:
                    d = self.s.recv(1 << 20)
                except OSError:
                    d = b""
                if not d:
                    raise Gone("closed by the peer")
                self.buf += d
            if w:
                try:
                    self.s.setblocking(False)
                    n = self.s.send(part[:1 << 16])
                except BlockingIOError:
                    n = 0
                except OSError:
                    raise Gone("closed by the peer")
                finally:
                    self.s.settimeout(LIMIT)
                part = part[n:]
            if time.time() > end:
                raise Hang("the peer does not read")

    def take(self, n):
        while len(self.buf) < n:
            try:
                d = self.s.recv(1 << 20)
            except socket.timeout:
                raise Hang("no bytes from the peer in %d s" % LIMIT)
            except OSError:
                raise Gone("reset")
            if not d:
                raise Gone("closed by the peer")
            self.buf += d
        r, self.buf = self.buf[:n], self.buf[n:]
        return r

    def msg(self):
        """next message: its type, header and payload"""
        h = self.take(16)
        pre, ver, fl, en, mt, size = struct.unpack("<IBBBBq", h)
        if pre != PREFIX or size < 1 or size > 1 << 34:
            raise Fail("malformed header from the server: %s" % h.hex())
        return mt, h + self.take(size)

    def close(self, abort=False):
        if abort:
            self.s.setsockopt(socket.SOL_SOCKET, socket.SO_LINGER, struct.pack("ii", 1, 0))
        self.s.close()

