"""Runs a writer in a child process that is killed, or gets an error, at a chosen point of its writing."""
import os, resource, shutil, signal, sys

RETURNED, RAISED, KILLED = 'returned', 'raised', 'killed'
EVENTS = ('open', 'os.rename', 'os.remove', 'os.mkdir', 'os.truncate', 'os.link', 'os.symlink', 'os.rmdir', 'shutil.move', 'shutil.copyfile', 'shutil.copytree', 'os.chmod')


def attempt(fn, root, fault=None, point=None, count=False):
    """fn() in a child.  fault: None, 'kill' or 'error';  point: ('step', k): at the k-th file operation below root (before it
    takes place, and after it for renames), or ('bytes', n): when a file would grow beyond n bytes.
    Returns (outcome, number of steps seen)."""
    r, w = os.pipe()
    pid = os.fork()
    if pid:
        os.close(w)
        data = b''
        while True:
            b = os.read(r, 65536)
            if not b:
                break
            data += b
        os.close(r)
        _, st = os.waitpid(pid, 0)
        n = data.count(b'.')
        if os.WIFSIGNALED(st):
            return KILLED, n
        return (RETURNED if os.WEXITSTATUS(st) == 0 else RAISED if os.WEXITSTATUS(st) == 3 else KILLED), n
    try:
        os.close(r)
        dn = os.open(os.devnull, os.O_RDWR)
        for fd in (0, 1, 2):
            os.dup2(dn, fd)
        sys.stdout = open(os.devnull, 'w'); sys.stderr = sys.stdout
        resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
        state = dict(n=0, on=True)

        def step():
            if not state['on']:
                return
            state['n'] += 1
            os.write(w, b'.')
            if point and point[0] == 'step' and state['n'] == point[1]:
                if fault == 'kill':
                    os.kill(os.getpid(), signal.SIGKILL)
                state['on'] = False
                raise OSError(28, 'No space left on device (injected)')

        def inside(args):
            for a in args:
                if isinstance(a, bytes):
                    a = os.fsdecode(a)
                if isinstance(a, (str, os.PathLike)) and os.path.abspath(os.fspath(a)).startswith(root + '/'):
                    return True
            return False

        def hook(name, args):
            if name in EVENTS and inside(args):
                step()

        def after(f):
            def g(*a, **k):
                x = f(*a, **k)
                if inside(a):
                    step()
                return x
            return g
        for name in ('rename', 'replace', 'link', 'truncate', 'ftruncate'):
            setattr(os, name, after(getattr(os, name)))
        shutil.move = after(shutil.move); shutil.copyfile = after(shutil.copyfile); shutil.copy = after(shutil.copy)
        sys.addaudithook(hook)
        if point and point[0] == 'bytes':
            signal.signal(signal.SIGXFSZ, signal.SIG_DFL if fault == 'kill' else signal.SIG_IGN)
            resource.setrlimit(resource.RLIMIT_FSIZE, (point[1], resource.RLIM_INFINITY))
        try:
            fn()
        except BaseException:
            os._exit(3)
        os._exit(0)
    finally:
        os._exit(4)


def digest(path):
    """content of a result file, independent of how it is laid out; None if it cannot be read completely"""
    import hashlib, numpy as np
    h = hashlib.sha1()

    def add(x):
        if isinstance(x, np.ndarray):
            h.update(str(x.dtype).encode() + str(x.shape).encode()); h.update(np.ascontiguousarray(x).tobytes())
        else:
            h.update(repr(x).encode())
    try:
        if open(path, 'rb').read(8) == b'\x89HDF\r\n\x1a\n':
            import h5py
            with h5py.File(path, 'r') as f:
                names = []
                f.visit(names.append)
                for n in sorted(names):
                    add(n)
                    if isinstance(f[n], h5py.Dataset):
                        add(f[n][()])
        else:
            from astropy.io import fits
            import warnings
            with warnings.catch_warnings():
                warnings.simplefilter('error')
                with fits.open(path, memmap=False) as hx:
                    for u in hx:
                        u.verify('exception')
                        for c in u.header.cards:
                            if c.keyword not in ('DATE', 'CHECKSUM', 'DATASUM'):
                                add((c.keyword, c.value))
                        if u.data is not None:
                            add(np.asarray(u.data))
    except Exception:
        return None
    return h.hexdigest()


def raw(path):
    return open(path, 'rb').read() if os.path.isfile(path) else None
