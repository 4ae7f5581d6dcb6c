"""Control over multiprocessing workers: order of completion and failures; runs with a deadline."""
import contextlib, multiprocessing as mp, os, pickle, shutil, signal, sys, tempfile, time, traceback


@contextlib.contextmanager
def worker_order(order, pause=0):
    """the k-th worker started in a batch of len(order) workers does its work as the order[k]-th.
    Batches are recognised by counting; works for any number of batches of that size.
    pause: seconds between the end of one and the beginning of the next."""
    base = tempfile.mkdtemp(prefix='verif-mp-')
    n = len(order)
    Orig = mp.Process
    count = [0]

    class Ordered(Orig):
        def __init__(self, *a, **k):
            super().__init__(*a, **k)
            self._seq = count[0]
            count[0] += 1

        def run(self):
            batch, k = divmod(self._seq, n)
            pos = order[k]
            if pos > 0:
                f = os.path.join(base, f'{batch}-{pos - 1}')
                t0 = time.time()
                while not os.path.exists(f) and time.time() - t0 < 5:
                    time.sleep(0.002)
                time.sleep(pause)
            try:
                super().run()
            finally:
                time.sleep(0.01)
                open(os.path.join(base, f'{batch}-{pos}'), 'w').close()
    mp.Process = Ordered
    try:
        yield count
    finally:
        mp.Process = Orig
        shutil.rmtree(base, ignore_errors=True)


def deadline(fn, seconds, *a, **k):
    """run fn in a forked process group; ('ok', value) | ('error', text, traceback) | ('hang', seconds)"""
    r, w = os.pipe()
    sys.stdout.flush(); sys.stderr.flush()
    pid = os.fork()
    if pid == 0:
        os.setpgid(0, 0)
        os.close(r)
        dn = os.open(os.devnull, os.O_WRONLY)
        os.dup2(dn, 1); os.dup2(dn, 2)
        try:
            out = ('ok', fn(*a, **k))
        except BaseException as e:
            out = ('error', f'{type(e).__name__}: {e}', traceback.format_exc())
        try:
            data = pickle.dumps(out, protocol=-1)
        except Exception as e:
            data = pickle.dumps(('error', f'unpicklable: {e}', ''))
        with os.fdopen(w, 'wb') as f:
            f.write(data)
        os._exit(0)
    os.close(w)
    try:
        os.setpgid(pid, pid)
    except OSError:
        pass
    import select
    buf = b''
    t0 = time.time()
    hang = False
    while True:
        left = seconds - (time.time() - t0)
        if left <= 0:
            hang = True
            break
        rl, _, _ = select.select([r], [], [], min(left, 1.0))
        if rl:
            d = os.read(r, 1 << 20)
            if not d:
                break
            buf += d
    os.close(r)
    try:
        os.killpg(pid, signal.SIGKILL)
    except OSError:
        pass
    os.waitpid(pid, 0)
    if hang:
        return ('hang', seconds)
    if not buf:
        return ('error', 'the process ended without an answer', '')
    try:
        return pickle.loads(buf)
    except Exception:
        return ('error', 'the process ended in the middle of its answer', '')


def parallel_deadline(jobs, seconds, width=6):
    """jobs: list of (fn, args); results in order; runs up to `width` at a time (threads around deadline)"""
    import threading
    out = [None] * len(jobs)
    it = iter(range(len(jobs)))
    lock = threading.Lock()

    def work():
        while True:
            with lock:
                i = next(it, None)
            if i is None:
                return
            out[i] = deadline(jobs[i][0], seconds, *jobs[i][1])
    th = [threading.Thread(target=work) for _ in range(width)]
    for t in th:
        t.start()
    for t in th:
        t.join()
    return out
