"""The real binary on a pseudo terminal: keys are typed and everything it writes is collected."""
import os, pty, re, select, signal, time, fcntl, termios, struct

ANSI = re.compile(rb"\x1b\[[0-9;?]*[A-Za-z]")


class Gone(Exception):
    pass


class Console:
    def __init__(self, binary, cwd, args=(), width=80, height=24, env=None):
        self.out = b""
        self.status = None
        e = {"PATH": os.environ.get("PATH", ""), "TERM": "xterm", "LANG": "C.UTF-8", "HOME": cwd}
        e.update(env or {})
        self.pid, self.fd = pty.fork()
        if self.pid == 0:
            try:
                os.chdir(cwd)
                os.execve(binary, [binary] + list(args), e)
            finally:
                os._exit(127)
        fcntl.ioctl(self.fd, termios.TIOCSWINSZ, struct.pack("HHHH", height, width, 0, 0))

    def pump(self, until, data=b"", limit=20.0):
        """Types data and reads until until(output) holds; False at the limit. Raises Gone when the process ends first."""
        end = time.time() + limit
        while True:
            if not data and until(self.out):
                return True
            left = end - time.time()
            if left <= 0:
                return False
            r, w, _ = select.select([self.fd], [self.fd] if data else [], [], min(left, 1))
            if r:
                try:
                    b = os.read(self.fd, 65536)
                except OSError:
                    b = b""
                if not b:
                    raise Gone()
                self.out += b
            elif w:
                n = os.write(self.fd, data[:256])
                data = data[n:]

    def wait(self, limit=20.0):
        """Reads to the end; returns the exit status (negative: the signal), or None when it does not end."""
        try:
            self.pump(lambda o: False, b"", limit)
            return None
        except Gone:
            pass
        end = time.time() + 5
        while time.time() < end:
            p, st = os.waitpid(self.pid, os.WNOHANG)
            if p:
                self.pid = None
                self.status = os.waitstatus_to_exitcode(st)
                return self.status
            time.sleep(0.005)
        return None

    def close(self):
        if self.pid:
            try:
                os.kill(self.pid, signal.SIGKILL)
                os.waitpid(self.pid, 0)
            except OSError:
                pass
            self.pid = None
        try:
            os.close(self.fd)
        except OSError:
            pass


def plain(b):
    return ANSI.sub(b"", b).replace(b"\r\n", b"\n").replace(b"\r", b"")
