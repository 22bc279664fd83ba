"""Stand-ins for multiprocessing.Process / Pipe under a scheduler owned by the explorer.

Processes are threads that run one at a time; every operation on a pipe or a process is a scheduling point. Modelled: blocking
receive and join, blocking send (no room in the pipe) or buffered send, inheritance of the open ends by a forked child (an end is
closed when every process that holds it has closed it or ended), end of data, broken pipe, death of a child, termination."""
import contextlib, sys, threading


class Killed(BaseException):
    pass


class Deadlock(BaseException):
    pass


class Died(BaseException):
    """the child dies on the spot"""


class Task(object):
    def __init__(self, name):
        self.name, self.sem = name, threading.Semaphore(0)
        self.ready = lambda: True
        self.done = self.killed = False
        self.exitcode = None


class System(object):
    def __init__(self, choose, rendezvous, max_steps=4000):
        self.choose, self.rendezvous = choose, rendezvous
        self.main = self.cur = Task('parent')
        self.tasks = [self.main]
        self.pipes, self.deadlock, self.trace, self.steps, self.max_steps = [], None, [], 0, max_steps
        self.threads, self.nproc = [], 0
        self.free = False           # after the end: run to completion without choices

    # ---- scheduling
    def enabled(self):
        me = self.cur
        en = [t for t in self.tasks if not t.done and (t.killed or t.ready())]
        en.sort(key=lambda t: (t is not me, self.tasks.index(t)))
        return en

    def point(self, label, ready=lambda: True):
        me = self.cur
        me.ready = ready
        self.steps += 1
        self.switch(label)
        me.ready = lambda: True
        if me.killed and not me.done:
            raise Killed()
        if me is self.main and self.deadlock and not ready():
            raise Deadlock(self.deadlock)

    def switch(self, label):
        me = self.cur
        en = self.enabled()
        if self.steps > self.max_steps:
            self.deadlock = self.deadlock or 'no end after %d steps' % self.steps
        if not en or self.steps > self.max_steps:
            if not self.deadlock:
                self.deadlock = 'all processes wait: ' + ', '.join('%s' % t.name for t in self.tasks if not t.done)
            nxt = self.main
        elif len(en) == 1 or self.free:
            nxt = en[0]
        else:
            nxt = en[self.choose(len(en), 'run after %s of %s' % (label, me.name))]
        self.trace.append((me.name, label, nxt.name))
        if nxt is not me:
            self.cur = nxt
            nxt.sem.release()
            if not me.done:
                me.sem.acquire()

    # ---- processes
    def start(self, proc):
        t = Task('child%d' % self.nproc)
        self.nproc += 1
        self.tasks.append(t)
        proc.task = t
        me = self.cur
        for p in self.pipes:
            for e in p.ends:
                if me in e.holders:
                    e.holders.add(t)

        def body():
            t.sem.acquire()
            code = 0
            try:
                if not t.killed:
                    proc.run()
            except Killed:
                code = -15
            except Died:
                code = -9
            except BaseException:
                code = 1
            t.exitcode, t.done = code, True
            for p in self.pipes:
                for e in p.ends:
                    e.holders.discard(t)
            self.switch('end')
        th = threading.Thread(target=body, daemon=True)
        self.threads.append(th)
        th.start()
        self.point('start')

    def finish(self):
        """the parent goes on to other work: its ends are collected; the children must end by themselves"""
        self.free, self.steps = True, 0
        for p in self.pipes:
            for e in p.ends:
                e.holders.discard(self.main)
        hung = None
        self.deadlock_before, self.deadlock = self.deadlock, None
        try:
            self.point('return', lambda: all(t.done for t in self.tasks[1:]))
        except Deadlock:
            hung = [t.name for t in self.tasks[1:] if not t.done]
        for t in self.tasks[1:]:
            t.killed = True
        self.deadlock = None
        if hung:
            self.steps = 0
            self.point('collect', lambda: all(t.done for t in self.tasks[1:]))
        for th in self.threads:
            th.join(10)
        self.deadlock = self.deadlock_before
        return hung


class End(object):
    def __init__(self, sysm, holder):
        self.s, self.holders, self.queue, self.peer = sysm, {holder}, [], None

    def _mine(self):
        if self.s.cur not in self.holders:
            raise OSError('handle is closed')

    @property
    def closed(self):
        return self.s.cur not in self.holders

    def send(self, obj):
        self._mine()
        self.s.point('send')
        self._mine()
        if not self.peer.holders:
            raise BrokenPipeError(32, 'Broken pipe')
        msg = [obj]
        self.peer.queue.append(msg)
        if self.s.rendezvous:
            self.s.point('send-wait', lambda: msg not in self.peer.queue or not self.peer.holders)
            if msg in self.peer.queue:
                raise BrokenPipeError(32, 'Broken pipe')

    def recv(self):
        self._mine()
        self.s.point('recv', lambda: self.queue or not self.peer.holders)
        if self.queue:
            return self.queue.pop(0)[0]
        raise EOFError()

    def poll(self, timeout=0.):
        self._mine()
        if timeout is None:
            self.s.point('poll', lambda: self.queue or not self.peer.holders)
        else:
            self.s.point('poll')
        return bool(self.queue) or not self.peer.holders

    def close(self):
        self._mine()
        self.holders.discard(self.s.cur)

    def fileno(self):
        return 0

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.close()


class FakePipe(object):
    def __init__(self, sysm):
        self.ends = [End(sysm, sysm.cur), End(sysm, sysm.cur)]
        self.ends[0].peer, self.ends[1].peer = self.ends[1], self.ends[0]
        sysm.pipes.append(self)


def make(sysm, start_fault=None, pipe_fault=None):
    class Process(object):
        def __init__(self, group=None, target=None, name=None, args=(), kwargs={}, daemon=None):
            self._target, self._args, self._kwargs, self.daemon, self.task, self.name = target, args, dict(kwargs), daemon, None, name

        def run(self):
            if self._target:
                self._target(*self._args, **self._kwargs)

        def start(self):
            if start_fault and start_fault():
                raise OSError(11, 'Resource temporarily unavailable')
            sysm.start(self)

        def join(self, timeout=None):
            assert self.task is not None, 'can only join a started process'
            if timeout is None:
                sysm.point('join', lambda: self.task.done)
            else:
                sysm.point('join')

        def is_alive(self):
            sysm.point('is_alive')
            return self.task is not None and not self.task.done

        def terminate(self):
            if not self.task.done:
                self.task.killed = True
            sysm.point('terminate')
        kill = terminate

        def close(self):
            if not self.task.done:
                raise ValueError('still running')

        @property
        def exitcode(self):
            return None if self.task is None else self.task.exitcode

        @property
        def pid(self):
            return None if self.task is None else 1000 + sysm.tasks.index(self.task)

    def Pipe(duplex=True):
        if pipe_fault and pipe_fault():
            raise OSError(24, 'Too many open files')
        return tuple(FakePipe(sysm).ends)
    return Process, Pipe


@contextlib.contextmanager
def installed(sysm, **kw):
    import multiprocessing
    Process, Pipe = make(sysm, **kw)
    real = {id(multiprocessing.Process): Process, id(multiprocessing.Pipe): Pipe}
    undo = []

    def put(o, n, v):
        undo.append((o, n, getattr(o, n)))
        setattr(o, n, v)
    for n, m in list(sys.modules.items()):
        if n.startswith('GPyOpt') and m is not None:
            for k, v in list(vars(m).items()):
                if k in ('Process', 'Pipe') and id(v) in real:
                    put(m, k, real[id(v)])
    put(multiprocessing, 'Process', Process)
    put(multiprocessing, 'Pipe', Pipe)
    try:
        yield
    finally:
        for o, n, v in reversed(undo):
            setattr(o, n, v)
