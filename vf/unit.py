"""Line-driven unit harness processes."""
import os
import subprocess
import threading

from .core import Violation
from .sim import Proc, san_reports
import tempfile


class Unit(Proc):
    def __init__(self, exe, args=(), env=None):
        self.dir = tempfile.mkdtemp(prefix='vfunit')
        self.errpath = self.dir + '/err'
        e = self._san_env(env)
        with open(self.errpath, 'wb') as er:
            self.p = subprocess.Popen([exe] + list(args), stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=er, env=e, cwd=self.dir)

    def ask(self, line):
        return self.batch([line])[0]

    def batch(self, lines):
        """Sends many lines; one reply line each."""
        def feed():
            try:
                self.p.stdin.write(('\n'.join(lines) + '\n').encode())
                self.p.stdin.flush()
            except OSError:
                pass
        t = threading.Thread(target=feed, daemon=True)
        t.start()
        out = []
        for ln in lines:
            r = self.p.stdout.readline()
            if not r:
                self.p.wait(30)
                v = self.died('request ' + ln[:200])
                raise v
            out.append(r.decode().strip())
        t.join()
        return out

    def close(self):
        try:
            self.p.stdin.close()
        except OSError:
            pass
        try:
            rc = self.p.wait(60)
        except subprocess.TimeoutExpired:
            self.kill()
            rc = 0
        try:
            if rc != 0 or self.san():
                raise self.died('at exit')
        finally:
            self.cleanup()

    def cleanup(self):
        self.kill()
        self.p.stdout.close()
        try:
            os.unlink(self.errpath)
            os.rmdir(self.dir)
        except OSError:
            pass

    def __enter__(self):
        return self

    def __exit__(self, et, ev, tb):
        if et is None:
            self.close()
        else:
            self.cleanup()
        return False


class Oneshot(Proc):
    """A unit harness which runs to completion, printing "V key text" per violation,
    "S name number" per statistic, other lines as they come and DONE at the end."""

    def __init__(self, exe, args=(), vf=None, env=None, timeout=100, what='unit'):
        self.dir = tempfile.mkdtemp(prefix='vfunit')
        self.errpath = self.dir + '/err'
        e = self._san_env(env)
        if vf:
            e['VF_WRAP'] = ','.join('%s=%s' % kv for kv in vf.items())
        self.viol, self.stat, self.lines = [], {}, []
        try:
            with open(self.errpath, 'wb') as er:
                self.p = subprocess.Popen([exe] + [str(a) for a in args], stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=er, env=e, cwd=self.dir)
            try:
                out = self.p.communicate(timeout=timeout)[0].decode('latin1')
            except subprocess.TimeoutExpired:
                raise Violation('hang:' + what, '%s did not finish within %d s\n%s' % (what, timeout, self.stacks()), kind='progress')
            for ln in out.split('\n'):
                if ln.startswith('V '):
                    k, t = (ln[2:].split(' ', 1) + [''])[:2]
                    self.viol.append((k, t))
                elif ln.startswith('S '):
                    k, v = ln[2:].split()
                    self.stat[k] = int(v)
                elif ln:
                    self.lines.append(ln)
            self.reports = self.san()
            if self.reports:
                raise Violation('sanitizer:' + self.reports[0][0], '%s\n%s' % (what, self.reports[0][1]))
            if not self.viol and (self.p.returncode != 0 or 'DONE' not in self.lines[-1:]):
                raise self.died(what)
        finally:
            self.kill()
            self.p.stdout.close()
            for f in os.listdir(self.dir):
                os.unlink(os.path.join(self.dir, f))
            os.rmdir(self.dir)

    def stacks(self):
        from .sim import Host
        return Host.stacks(self)
