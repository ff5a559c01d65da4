"""Another process in which copies of engines go on (used by C15): a fork
made before the history began, or a new interpreter."""
import os
import pickle
import socket
import subprocess
import sys
import tempfile


def act(req):
    """Restore the engines, do what is asked, send them back."""
    from sim import bench
    engines = pickle.loads(req['blob'])
    out = []
    for what, e, data, mode in req['acts']:
        eng = engines[e]
        if what == 'publish':
            out.append(bench.published(eng.pvarray, mode))
            continue
        if what == 'use':
            args, kw, _ = bench.fit_args(req['cfgs'][e], data)
            eng.fit(*args, **kw)
        out.append(bench.run_and_publish(eng, mode))
    return out, (pickle.dumps(engines, req['protocol'])
                 if req['back'] else None)


def answer(req):
    try:
        return True, act(req)
    except BaseException as e:  # noqa
        import traceback
        return False, '%s: %s\n%s' % (type(e).__name__, e,
                                      traceback.format_exc()[-2000:])


class Elsewhere(object):
    """A process that knows nothing of the history."""

    def __init__(self):
        from sim import seams
        self.io = seams
        self.sock, other = socket.socketpair(socket.AF_UNIX,
                                             socket.SOCK_STREAM)
        self.pid = os.fork()
        if self.pid == 0:
            try:
                self.sock.close()
                while True:
                    req = seams._recv(other)
                    if req is None:
                        break
                    seams._send(other, answer(req))
            finally:
                os._exit(0)
        other.close()

    def ask(self, req):
        try:
            self.io._send(self.sock, req)
            got = self.io._recv(self.sock)
        except OSError:
            got = None
        return (False, 'the process died') if got is None else got

    def close(self):
        self.sock.close()
        os.waitpid(self.pid, 0)


def ask_new_interpreter(req, hashseed):
    from sim import boot
    env = boot.child_env(PYTHONHASHSEED=str(hashseed))
    env['PYTHONPATH'] = boot.VERIF
    with tempfile.TemporaryDirectory() as tmp:
        env['MPLCONFIGDIR'] = tmp
        p = subprocess.run([boot.PYTHON, '-m', 'sim.remote'], env=env,
                           cwd='/', input=pickle.dumps(req),
                           stdout=subprocess.PIPE, stderr=subprocess.PIPE)
    i = p.stdout.find(b'RESULT')
    if i < 0:
        return False, 'process ended with %s: %s' % (p.returncode,
                                                     p.stderr[-1500:])
    return pickle.loads(p.stdout[i + 6:])


def main():
    from sim import boot
    boot.prepare()
    res = answer(pickle.loads(sys.stdin.buffer.read()))
    sys.stdout.buffer.write(b'RESULT' + pickle.dumps(res))
    sys.stdout.buffer.flush()


if __name__ == '__main__':
    main()
