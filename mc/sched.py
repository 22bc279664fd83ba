"""Interleavings of real threads: every line (or opcode) executed in the code under test is a scheduling point."""
import sys, threading


class Explorer(object):
    """Runs the given functions in threads, one at a time. choose(n, label) decides who continues; 0 = the running thread."""
    def __init__(self, choose, path_part, opcodes=False, max_points=100000):
        self.choose, self.part, self.opcodes, self.max_points = choose, path_part, opcodes, max_points
        self.points = 0

    def run(self, funcs):
        n = len(funcs)
        sems = [threading.Semaphore(0) for _ in range(n)]
        finished = threading.Semaphore(0)
        done, results = [False] * n, [None] * n

        def pick(me):
            alive = ([me] if me is not None and not done[me] else []) + [i for i in range(n) if not done[i] and i != me]
            if not alive:
                return None
            if len(alive) == 1:
                return alive[0]
            return alive[self.choose(len(alive), 'thread')]

        def point(me):
            self.points += 1
            if self.points > self.max_points:
                return
            t = pick(me)
            if t != me:
                sems[t].release()
                sems[me].acquire()

        def body(i):
            sems[i].acquire()

            def local(frame, event, arg):
                if event == ('opcode' if self.opcodes else 'line'):
                    point(i)
                return local

            def tracer(frame, event, arg):
                if self.part in frame.f_code.co_filename or frame.f_code.co_filename == '<string>' or frame.f_code.co_name == '<lambda>':
                    frame.f_trace_opcodes = self.opcodes
                    return local
                return None
            sys.settrace(tracer)
            try:
                results[i] = ('ok', funcs[i]())
            except Exception as e:
                results[i] = ('error', e)
            finally:
                sys.settrace(None)
                done[i] = True
                t = pick(None)
                if t is None:
                    finished.release()
                else:
                    sems[t].release()
        ths = [threading.Thread(target=body, args=(i,), daemon=True) for i in range(n)]
        for t in ths:
            t.start()
        sems[pick(None)].release()
        finished.acquire()
        for t in ths:
            t.join(10)
        return results
