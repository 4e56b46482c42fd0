"""A loopback HTTP service that records, byte for byte, what reaches it and answers as told."""

import socket
import threading
import time


class Exchange:
    """One request as it arrived."""

    def __init__(self):
        self.method = self.target = self.version = None
        self.headers = []
        self.body = b""
        self.connection = None

    def header(self, name):
        return [v for k, v in self.headers if k.lower() == name.lower()]


class Service:
    """plan(exchange, send, close) answers; send takes bytes, close ends the connection from this side."""

    def __init__(self, plan, host="127.0.0.1"):
        self.plan = plan
        self.exchanges = []
        self.connections = 0
        self.released = 0
        self.faults = []
        self._lock = threading.Lock()
        self._changed = threading.Condition(self._lock)
        self._open = []
        self._listener = socket.create_server((host, 0), backlog=64)
        self.port = self._listener.getsockname()[1]
        self.url = f"http://{host}:{self.port}"
        self._stop = False
        self._thread = threading.Thread(target=self._accept, daemon=True)
        self._thread.start()

    def _accept(self):
        while True:
            try:
                c, _ = self._listener.accept()
            except OSError:
                return
            if self._stop:
                c.close()
                return
            with self._lock:
                self.connections += 1
                number = self.connections
                self._open.append(c)
            threading.Thread(target=self._serve, args=(c, number), daemon=True).start()

    def _serve(self, c, number):
        state = dict(closed=False)

        def close(abort=False):
            state["closed"] = True
            if abort:
                c.setsockopt(socket.SOL_SOCKET, socket.SO_LINGER, b"\1\0\0\0\0\0\0\0")
            else:
                try:
                    c.shutdown(socket.SHUT_RDWR)
                except OSError:
                    pass
            c.close()

        buffer = b""
        try:
            c.settimeout(60.0)
            while not state["closed"]:
                e, buffer = self._read(c, buffer)
                if e is None:
                    break
                e.connection = number
                with self._changed:
                    self.exchanges.append(e)
                    self._changed.notify_all()
                self.plan(e, c.sendall, close)
        except OSError:
            pass
        except Exception as ex:  # a fault of the service itself, never of the client
            self.faults.append(repr(ex))
        if not state["closed"]:
            c.close()
        with self._changed:
            self.released += 1
            self._changed.notify_all()

    def _read(self, c, buffer):
        while b"\r\n\r\n" not in buffer:
            d = c.recv(65536)
            if not d:
                return None, b""
            buffer += d
        head, buffer = buffer.split(b"\r\n\r\n", 1)
        lines = head.decode("latin-1").split("\r\n")
        e = Exchange()
        e.method, e.target, e.version = lines[0].split(" ")
        for line in lines[1:]:
            k, v = line.split(":", 1)
            e.headers.append((k.strip(), v.strip()))
        if e.header("transfer-encoding"):
            while True:
                while b"\r\n" not in buffer:
                    buffer += self._more(c)
                size, buffer = buffer.split(b"\r\n", 1)
                n = int(size, 16)
                while len(buffer) < n + 2:
                    buffer += self._more(c)
                e.body += buffer[:n]
                buffer = buffer[n + 2 :]
                if not n:
                    break
        else:
            n = int((e.header("content-length") or ["0"])[0])
            while len(buffer) < n:
                buffer += self._more(c)
            e.body, buffer = buffer[:n], buffer[n:]
        return e, buffer

    @staticmethod
    def _more(c):
        d = c.recv(65536)
        if not d:
            raise OSError("request cut short")
        return d

    def settled(self, timeout=10.0):
        """Whether every connection made so far was released by the client."""
        end = time.time() + timeout
        with self._changed:
            while self.released < self.connections:
                left = end - time.time()
                if left <= 0:
                    return False
                self._changed.wait(left)
            return True

    def refuse(self):
        """Stop listening: later connections are refused."""
        self._stop = True
        try:
            self._listener.shutdown(socket.SHUT_RDWR)
        except OSError:
            pass
        self._listener.close()

    def end(self):
        self.refuse()
        for c in self._open:
            try:
                c.close()
            except OSError:
                pass


def reply(status=200, reason="Fine", headers=(), body=b"", length=True, chunked=0, version="HTTP/1.1"):
    """The bytes of a response."""
    h = [f"{version} {status} {reason}"] + [f"{k}: {v}" for k, v in headers]
    if chunked:
        h.append("Transfer-Encoding: chunked")
        body = b"".join(b"%x\r\n%s\r\n" % (len(body[i : i + chunked]), body[i : i + chunked]) for i in range(0, len(body), chunked)) + b"0\r\n\r\n"
    elif length:
        h.append(f"Content-Length: {len(body)}")
    return "\r\n".join(h).encode("utf-8") + b"\r\n\r\n" + body
