"""Runs cases on simulation servers, one per core."""
import json
import os
import selectors
import subprocess
import time


def command(exe):
    if exe.endswith('.py'):
        py = '/opt/phd-venv/bin/python'
        return [py if os.path.exists(py) else 'python3-vt', exe]
    return [exe]


class Server:
    def __init__(self, exe):
        self.exe = exe
        self.p = None
        self.case = None
        self.buf = b''
        self.t0 = 0

    def start(self):
        self.p = subprocess.Popen(command(self.exe), stdin=subprocess.PIPE, stdout=subprocess.PIPE,
                                  stderr=subprocess.DEVNULL,
                                  start_new_session=True)
        os.set_blocking(self.p.stdout.fileno(), False)
        self.buf = b''

    def stop(self):
        if self.p:
            try:
                os.killpg(self.p.pid, 9)
            except OSError:
                pass
            self.p.wait()
            self.p.stdin.close()
            self.p.stdout.close()
            self.p = None


def line_of(case):
    return ' '.join('%s=%s' % kv for kv in case.items())


def parse_line(line):
    return dict(t.split('=', 1) for t in line.split())


def run_one(exe, case, limit=400):
    """One case in a fresh process"""
    try:
        r = subprocess.run(command(exe), input=(line_of(case) + '\n').encode(), stdout=subprocess.PIPE,
                           stderr=subprocess.DEVNULL, timeout=limit)
        for l in r.stdout.decode(errors='replace').splitlines():
            if l.startswith('{'):
                return json.loads(l)
        return dict(id=case.get('id'), verdict='error', reason='server ended with %d' % r.returncode)
    except subprocess.TimeoutExpired:
        return dict(id=case.get('id'), verdict='error', reason='time limit')


def run_cases(source, workers=8, until=None, limit=300, stop=lambda r: False):
    """source: iterator of (exe, case); yields (exe, case, result) as they end.
    No new case is started after `until` (monotonic time)."""
    sel = selectors.DefaultSelector()
    idle, busy = [], {}
    source = iter(source)
    done = False
    stopping = False
    try:
        while True:
            while not done and not stopping and len(busy) < workers:
                if until is not None and time.monotonic() > until:
                    done = True
                    break
                try:
                    exe, case = next(source)
                except StopIteration:
                    done = True
                    break
                s = next((x for x in idle if x.exe == exe), None)
                if s:
                    idle.remove(s)
                else:
                    s = Server(exe)
                    s.start()
                s.case = case
                s.t0 = time.monotonic()
                s.p.stdin.write((line_of(case) + '\n').encode())
                s.p.stdin.flush()
                busy[s.p.stdout.fileno()] = s
                sel.register(s.p.stdout.fileno(), selectors.EVENT_READ, s)
            if not busy:
                break
            for key, _ in sel.select(timeout=1):
                s = key.data
                try:
                    chunk = os.read(s.p.stdout.fileno(), 1 << 20)
                except BlockingIOError:
                    continue
                res = None
                if not chunk:
                    code = s.p.wait()
                    res = dict(id=s.case.get('id'), verdict='error', reason='server ended with %s' % code)
                else:
                    s.buf += chunk
                    if b'\n' in s.buf:
                        l, _, s.buf = s.buf.partition(b'\n')
                        try:
                            res = json.loads(l.decode(errors='replace'))
                        except ValueError as x:
                            res = dict(id=s.case.get('id'), verdict='error', reason='bad reply %r' % l[:200])
                if res is None:
                    continue
                sel.unregister(s.p.stdout.fileno())
                del busy[s.p.stdout.fileno()]
                res['wall'] = time.monotonic() - s.t0
                if chunk:
                    idle.append(s)
                else:
                    s.stop()
                out = (s.exe, s.case, res)
                yield out
                if stop(res):
                    stopping = True
                    for x in list(busy.values()):
                        sel.unregister(x.p.stdout.fileno())
                        x.stop()
                    busy.clear()
                    break
            now = time.monotonic()
            for fd, s in list(busy.items()):
                if now - s.t0 > limit:
                    sel.unregister(fd)
                    del busy[fd]
                    s.stop()
                    yield (s.exe, s.case, dict(id=s.case.get('id'), verdict='error', reason='time limit', wall=limit))
    finally:
        for s in list(busy.values()) + idle:
            s.stop()
