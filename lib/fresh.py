"""Results of parse_asn1_schema in a process that has parsed nothing else.

A server process imports the library under another hash seed and, for each request, forks a child that parses the
one schema and answers.  Run as a program it is the server."""
import os
import pickle
import struct
import subprocess
import sys


def send(f, obj):
    b = pickle.dumps(obj)
    f.write(struct.pack(">I", len(b)) + b)
    f.flush()


def recv(f):
    h = f.read(4)
    if len(h) < 4:
        raise EOFError
    return pickle.loads(f.read(struct.unpack(">I", h)[0]))


class Server(object):
    def __init__(self, hashseed):
        env = dict(os.environ, PYTHONHASHSEED=str(hashseed))
        self.p = subprocess.Popen([sys.executable, "-m", "lib.fresh"], stdin=subprocess.PIPE, stdout=subprocess.PIPE,
                                  cwd=os.path.dirname(os.path.dirname(os.path.abspath(__file__))), env=env)

    def outcome(self, text):
        send(self.p.stdin, text)
        return recv(self.p.stdout)

    def close(self):
        self.p.stdin.close()
        self.p.wait()


def outcome(text):
    """("ok", code) or ("refused", exception name)"""
    from asn1PERser import parse_asn1_schema
    try:
        return ("ok", parse_asn1_schema(text))
    except Exception as e:
        return ("refused", type(e).__name__)


def serve():
    from lib import env  # noqa: F401
    import asn1PERser  # noqa: F401
    inp, out = sys.stdin.buffer, os.fdopen(os.dup(1), "wb")
    os.dup2(2, 1)
    while True:
        try:
            text = recv(inp)
        except EOFError:
            return
        r, w = os.pipe()
        pid = os.fork()
        if pid == 0:
            try:
                os.close(r)
                with os.fdopen(w, "wb") as f:
                    send(f, outcome(text))
            finally:
                os._exit(0)
        os.close(w)
        with os.fdopen(r, "rb") as f:
            try:
                res = recv(f)
            except EOFError:
                res = ("died", None)
        os.waitpid(pid, 0)
        send(out, res)


if __name__ == "__main__":
    serve()
