"""Runs cases of one property against the real code: worker.py PROP IN OUT.
A case never makes the worker fail: what the code does, including raising or not ending, is recorded."""
import json, os, resource, signal, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.setrecursionlimit(6000)


class Timeout(BaseException):
    pass


def on_alarm(*a):
    raise Timeout()


def main():
    prop, fin, fout = sys.argv[1:4]
    resource.setrlimit(resource.RLIMIT_AS, (3 << 30, 3 << 30))
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
    signal.signal(signal.SIGALRM, on_alarm)
    import props
    run = props.runner(prop)
    timeouts = 0
    with open(fin) as f, open(fout, "w") as out:
        for line in f:
            i, case = json.loads(line)
            if timeouts >= 3:
                ev = None
            else:
                try:
                    signal.setitimer(signal.ITIMER_REAL, 20)
                    try:
                        ev = run(case)
                    finally:
                        signal.setitimer(signal.ITIMER_REAL, 0)
                except Timeout:
                    timeouts += 1
                    ev = [{"op": "broken", "why": "timeout"}]
                except MemoryError:
                    ev = [{"op": "broken", "why": "memory"}]
                except BaseException as e:
                    import traceback
                    ev = [{"op": "broken", "why": traceback.format_exc(limit=-6)[-1500:]}]
            line = json.dumps([i, ev])
            if len(line) > 400000:
                line = json.dumps([i, [{"op": "broken", "why": "oversized output"}]])
            out.write(line + "\n")
            out.flush()


main()
