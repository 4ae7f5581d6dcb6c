"""A deterministic, single-machine stand-in for an mpi4py communicator.

Ranks are threads of which exactly one runs at a time.  Every communicator call is a scheduling point; the
schedule (a list of rank preferences, then a seeded choice) decides which enabled rank goes next, so a schedule
generated by TLC can be replayed.  Messages are pickled.  Two buffering modes: 'eager' (a send completes at
once) and 'sync' (a send, and the wait of a non-blocking send, completes when the message was received; every
collective synchronises).  When no rank can proceed the run is a deadlock.
"""
import pickle, random, threading

ANY = -1


class Deadlock(Exception):
    pass


class Aborted(Exception):
    pass


class _Msg:
    __slots__ = ('src', 'tag', 'data', 'taken', 'seq')

    def __init__(self, src, tag, data, seq):
        self.src = src; self.tag = tag; self.data = data; self.taken = False; self.seq = seq


class Request:
    def __init__(self, comm, kind, msg=None, source=None, tag=None):
        self.c = comm; self.kind = kind; self.msg = msg; self.source = source; self.tag = tag
        self.done = False; self.value = None

    def wait(self, status=None):
        if self.done:
            return self.value
        if self.kind == 'send':
            w = self.c.world
            w.point(self.c.rank, 'wait', lambda: w.mode == 'eager' or self.msg.taken)
            self.done = True
            return None
        self.value = self.c.recv(source=self.source, tag=self.tag)
        self.done = True
        return self.value

    Wait = wait

    def test(self):
        w = self.c.world
        if self.kind == 'send':
            w.point(self.c.rank, 'test', lambda: True)
            if w.mode == 'eager' or self.msg.taken:
                self.done = True
            return (self.done, None)
        w.point(self.c.rank, 'test', lambda: True)
        if w._match(self.c.rank, self.source, self.tag) is not None:
            return (True, self.wait())
        return (False, None)

    @staticmethod
    def waitall(reqs):
        return [r.wait() for r in reqs]


class Comm:
    def __init__(self, world, rank):
        self.world = world; self.rank = rank; self.size = world.size
        self._coll = 0

    def Get_rank(self):
        return self.rank

    def Get_size(self):
        return self.size

    # ------------------------------------------------------- point to point
    def _post(self, obj, dest, tag):
        w = self.world
        if not (0 <= dest < self.size):
            raise ValueError(f'invalid destination rank {dest}')
        w.seq += 1
        m = _Msg(self.rank, tag, pickle.dumps(obj, protocol=-1), w.seq)
        w.box[dest].append(m)
        w.log.append(('send', self.rank, dest, tag))
        w.nsent += 1
        return m

    def send(self, obj, dest, tag=0):
        w = self.world
        w.point(self.rank, 'send', lambda: True)
        m = self._post(obj, dest, tag)
        if w.mode == 'sync':
            w.point(self.rank, 'send-complete', lambda: m.taken)

    ssend = send

    def isend(self, obj, dest, tag=0):
        self.world.point(self.rank, 'isend', lambda: True)
        return Request(self, 'send', msg=self._post(obj, dest, tag))

    def irecv(self, buf=None, source=ANY, tag=ANY):
        return Request(self, 'recv', source=source, tag=tag)

    def recv(self, buf=None, source=ANY, tag=ANY, status=None):
        w = self.world
        w.point(self.rank, 'recv', lambda: w._match(self.rank, source, tag) is not None)
        m = w._match(self.rank, source, tag)
        w.box[self.rank].remove(m)
        m.taken = True
        w.log.append(('recv', self.rank, m.src, m.tag))
        return pickle.loads(m.data)

    def sendrecv(self, sendobj, dest, sendtag=0, recvbuf=None, source=ANY, recvtag=ANY, status=None):
        r = self.isend(sendobj, dest, sendtag)
        x = self.recv(source=source, tag=recvtag)
        r.wait()
        return x

    # ---------------------------------------------------------- collectives
    def _collective(self, name, root, value, need):
        """need(slot, me) -> may this rank leave?"""
        w = self.world
        k = self._coll
        self._coll += 1
        w.point(self.rank, name, lambda: True)
        slot = w.coll.setdefault(k, {'name': name, 'root': root, 'val': {}})
        if slot['name'] != name or slot['root'] != root:
            w.mismatch = f'rank {self.rank} calls {name}(root={root}) where another rank called {slot["name"]}(root={slot["root"]})'
            raise Deadlock(w.mismatch)
        slot['val'][self.rank] = pickle.dumps(value, protocol=-1)
        full = lambda: len(slot['val']) == self.size
        w.point(self.rank, name + '-complete', full if (w.mode == 'sync' or need == 'all') else (lambda: need(slot)))
        w.log.append((name, self.rank, root, k))
        return slot

    def barrier(self):
        self._collective('barrier', 0, None, 'all')

    Barrier = barrier

    def bcast(self, obj=None, root=0):
        s = self._collective('bcast', root, obj if self.rank == root else None, lambda s: root in s['val'])
        return obj if self.rank == root else pickle.loads(s['val'][root])

    def gather(self, sendobj, root=0):
        s = self._collective('gather', root, sendobj, (lambda s: True) if self.rank != root else 'all')
        return [pickle.loads(s['val'][r]) for r in range(self.size)] if self.rank == root else None

    def allgather(self, sendobj):
        s = self._collective('allgather', 0, sendobj, 'all')
        return [pickle.loads(s['val'][r]) for r in range(self.size)]

    def scatter(self, sendobj=None, root=0):
        s = self._collective('scatter', root, sendobj if self.rank == root else None, lambda s: root in s['val'])
        return pickle.loads(s['val'][root])[self.rank]

    def alltoall(self, sendobj):
        s = self._collective('alltoall', 0, sendobj, 'all')
        return [pickle.loads(s['val'][r])[self.rank] for r in range(self.size)]

    def allreduce(self, sendobj, op=None):
        vals = self.allgather(sendobj)
        r = vals[0]
        for v in vals[1:]:
            r = r + v
        return r

    def reduce(self, sendobj, op=None, root=0):
        vals = self.gather(sendobj, root=root)
        if vals is None:
            return None
        r = vals[0]
        for v in vals[1:]:
            r = r + v
        return r

    def Abort(self, errorcode=1):
        self.world.aborted = self.rank
        raise Aborted(f'MPI_Abort({errorcode}) on rank {self.rank}')

    def Dup(self):
        return self

    def Split(self, color=0, key=0):
        """a communicator of its own for the ranks of one color, ordered by key, then by rank"""
        k = self._coll
        every = self.allgather((color, key, self.rank))
        mine = [r for c, q, r in sorted(every, key=lambda x: (x[1], x[2])) if c == color]
        w = self.world
        sub = w.__dict__.setdefault('subs', {}).setdefault((k, color), None) or _SubWorld(w, mine)
        w.subs[(k, color)] = sub
        return Comm(sub, mine.index(self.rank))

    def Free(self):
        pass


class _SubWorld:
    """the world as the ranks of a smaller communicator see it: messages of its own, the scheduler of all"""
    def __init__(self, parent, ranks):
        self.parent = parent; self.ranks = ranks; self.size = len(ranks); self.mode = parent.mode
        self.box = [[] for _ in ranks]; self.coll = {}; self.log = []; self.seq = 0; self.nsent = 0; self.mismatch = None

    def point(self, rank, name, guard):
        self.parent.point(self.ranks[rank], name, guard)

    _match = None

    @property
    def aborted(self):
        return self.parent.aborted

    @aborted.setter
    def aborted(self, rank):
        self.parent.aborted = self.ranks[rank]

    def leftover(self):
        return sum(len(b) for b in self.box) + sum(s.leftover() for s in self.__dict__.get('subs', {}).values())


class World:
    def __init__(self, size, schedule=(), seed=0, mode='eager', limit=2000000):
        self.size = size; self.schedule = list(schedule); self.rng = random.Random(seed); self.mode = mode
        self.box = [[] for _ in range(size)]
        self.coll = {}; self.log = []; self.seq = 0; self.nsent = 0
        self.mismatch = None; self.aborted = None; self.limit = limit; self.steps = 0
        self.lock = threading.Condition()
        self.pending = {}      # rank -> (name, guard)
        self.turn = None       # rank allowed to run
        self.alive = set(range(size))
        self.dead = False
        self.taken = []        # ranks in the order in which they ran

    def _match(self, rank, source, tag):
        for m in self.box[rank]:
            if (source in (ANY, None, m.src)) and (tag in (ANY, None, m.tag)):
                return m
        return None

    # ---- scheduling: called by a rank thread
    def point(self, rank, name, guard):
        with self.lock:
            self.pending[rank] = (name, guard)
            if self.turn == rank:
                self.turn = None
            self._dispatch()
            while self.turn != rank:
                if self.dead:
                    raise Deadlock(self.why)
                self.lock.wait()
            del self.pending[rank]

    def _dispatch(self):
        """choose the next rank; only when every live rank is at a point"""
        if self.turn is not None or self.dead:
            return
        if set(self.pending) != self.alive:
            return
        if not self.alive:
            return
        self.steps += 1
        enabled = [r for r in sorted(self.alive) if self.pending[r][1]()]
        if not enabled or self.steps > self.limit or self.aborted is not None:
            self.dead = True
            self.why = 'deadlock: ' + ', '.join(f'rank {r} in {self.pending[r][0]}' for r in sorted(self.alive))
            self.lock.notify_all()
            return
        pick = None
        while self.schedule:
            r = self.schedule.pop(0)
            if r in enabled:
                pick = r
                break
        if pick is None:
            pick = self.rng.choice(enabled)
        self.turn = pick
        self.taken.append(pick)
        self.lock.notify_all()

    def _exit(self, rank):
        with self.lock:
            self.alive.discard(rank)
            if self.turn == rank:
                self.turn = None
            self.pending.pop(rank, None)
            self._dispatch()
            self.lock.notify_all()

    def run(self, fn):
        """fn(comm) on every rank. Returns (results, errors): lists indexed by rank."""
        res = [None] * self.size; err = [None] * self.size

        def body(r):
            try:
                c = Comm(self, r)
                self.point(r, 'start', lambda: True)
                res[r] = fn(c)
            except BaseException as e:     # noqa
                err[r] = e
            finally:
                self._exit(r)
        th = [threading.Thread(target=body, args=(r,), daemon=True) for r in range(self.size)]
        for t in th:
            t.start()
        for t in th:
            t.join(600)
        return res, err

    def leftover(self):
        return sum(len(b) for b in self.box) + sum(s.leftover() for s in self.__dict__.get('subs', {}).values())


_SubWorld._match = World._match
