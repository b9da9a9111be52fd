"""Runs requests through the concrete driver on all cores. A crash, a sanitizer report or a hang of the driver is an
answer like any other: {'crash': text}."""
import json, os, subprocess, threading, queue, select, tempfile
ENV = dict(os.environ, ASAN_OPTIONS='detect_leaks=1:detect_stack_use_after_return=0:abort_on_error=0', UBSAN_OPTIONS='print_stacktrace=1')


class Proc:
    def __init__(self, exe):
        self.exe = exe
        self.p = None

    def start(self):
        self.err = tempfile.TemporaryFile()
        self.p = subprocess.Popen([self.exe], stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=self.err, env=ENV)

    def close(self):
        """-> report of the leak checker at exit, if any"""
        if self.p is None:
            return None
        try:
            self.p.stdin.close()
        except OSError:
            pass
        try:
            rc = self.p.wait(60)
        except subprocess.TimeoutExpired:
            self.p.kill()
            self.p.wait()
            rc = -1
        self.err.seek(0)
        t = self.err.read().decode('utf-8', 'replace')
        self.p.stdout.close()
        self.p = None
        return t if rc else None

    def ask(self, q, timeout=60):
        if self.p is None:
            self.start()
        try:
            self.p.stdin.write(json.dumps(q).encode() + b'\n')
            self.p.stdin.flush()
            buf = b''
            while not buf.endswith(b'\n'):
                r, _, _ = select.select([self.p.stdout], [], [], timeout)
                if not r:
                    self.p.kill()
                    self.p.wait()
                    self.p = None
                    return {'crash': 'no answer within %d s' % timeout}
                x = os.read(self.p.stdout.fileno(), 1 << 20)
                if not x:
                    raise BrokenPipeError
                buf += x
            return json.loads(buf)
        except (BrokenPipeError, OSError):
            rep = self.close() or 'driver ended'
            return {'crash': rep[:4000]}


def lat(s):
    """a Python str holding text -> the transport form of its UTF-8 bytes"""
    return s.encode('utf-8', 'surrogateescape').decode('latin-1') if isinstance(s, str) else bytes(s).decode('latin-1')


def unlat(s):
    return s.encode('latin-1')


def run_all(exe, reqs, check, workers=8, stop_after=5):
    """reqs: iterable of (request, context); check(request, context, answer) -> None or text of a disagreement.
    -> (number evaluated, [(request, answer, text)], leak report)"""
    it = iter(reqs)
    lock = threading.Lock()
    bad, count, leaks = [], [0], []

    def take():
        with lock:
            out = []
            for _ in range(16):
                try:
                    out.append(next(it))
                except StopIteration:
                    break
            return out

    def work():
        p = Proc(exe)
        last = None
        while len(bad) < stop_after:
            batch = take()
            if not batch:
                break
            for q, ctx in batch:
                a = p.ask(q)
                last = q
                e = ('crash: ' + a['crash']) if 'crash' in a else check(q, ctx, a)
                with lock:
                    count[0] += 1
                    if e:
                        bad.append((q, a, e))
        r = p.close()
        if r:
            with lock:
                leaks.append(r[:4000])
    ts = [threading.Thread(target=work) for _ in range(workers)]
    [t.start() for t in ts]
    [t.join() for t in ts]
    return count[0], bad, leaks
