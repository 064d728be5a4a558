"""Instrumented sockets: scripted delivery of bytes, timeouts and errors."""

import socket
import ssl

FAULTS = {
    "timeout": lambda: TimeoutError("timed out"),
    "blocking": lambda: BlockingIOError(11, "Resource temporarily unavailable"),
    "reset": lambda: ConnectionResetError(104, "Connection reset by peer"),
    "oserror": lambda: OSError(5, "Input/output error"),
    "intr": lambda: InterruptedError(4, "Interrupted system call"),
    "ssl": lambda: ssl.SSLError("handshake"),
    "eof": None,  # one empty receive
}


class ScriptSocket(socket.socket):
    """A socket whose receive side follows a script.

    script: list of bytes (one network segment each) and fault names; afterwards every
    receive gives b"" (peer closed).  Records what was handed out and what was sent."""

    def __init__(self, script):
        super().__init__(socket.AF_UNIX, socket.SOCK_STREAM)
        self.script = [bytes(s) if not isinstance(s, str) else s for s in script]
        self.script.reverse()
        self.given = bytearray()
        self.sent = []
        self.calls = 0
        self.asked = 0  # largest receive requested
        self.faults = 0  # receives that gave no data

    @property
    def done(self):
        return not self.script

    def recv(self, bufsize, flags=0):
        self.calls += 1
        self.asked = max(self.asked, bufsize)
        while self.script and self.script[-1] == b"":
            self.script.pop()
        if not self.script:
            self.faults += 1
            return b""
        ev = self.script.pop()
        if isinstance(ev, str):
            self.faults += 1
            if FAULTS[ev] is None:
                return b""
            raise FAULTS[ev]()
        data = ev[:bufsize]
        if ev[bufsize:]:
            self.script.append(ev[bufsize:])
        self.given += data
        return data

    def recv_into(self, buffer, nbytes=0, flags=0):
        d = self.recv(nbytes or len(buffer))
        buffer[: len(d)] = d
        return len(d)

    def send(self, data, *args, **kwargs):
        self.sent.append((bytes(data), args, kwargs))
        return len(data)

    def sendall(self, data, *args, **kwargs):
        self.sent.append((bytes(data), args, kwargs))

    def available(self):
        """Bytes the script will give before the next fault or its end."""
        out = b""
        for ev in reversed(self.script):
            if isinstance(ev, str):
                break
            out += ev
        return out


def segment(rng, data, style=None):
    """Split data into network segments."""
    style = style or rng.choice(("bytes", "small", "any", "whole", "big"))
    if style == "bytes" and len(data) > 3000:
        style = "any"
    if style == "whole":
        return [data] if data else []
    if style == "bytes":
        return [data[i:i + 1] for i in range(len(data))]
    out, i = [], 0
    while i < len(data):
        n = {"small": rng.randint(1, 5), "any": rng.choice((1, 2, 3, rng.randint(1, 80), rng.randint(1, 600))),
             "big": rng.randint(200, 3000)}[style]
        out.append(data[i:i + n])
        i += n
    return out
