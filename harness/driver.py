"""Runs the real code on generated cases and records what happened, one JSON event per line.

usage: driver.py PROPERTY SEED LO HI TIER OUT
"""
import json
import os
import signal
import sys
import traceback

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, '/repo')
sys.setrecursionlimit(1500)


class NoAnswer(BaseException):
    pass


def alarm(signum, frame):
    raise NoAnswer()


class Recorder(object):
    def __init__(self, out):
        self.out = out
        self.i = 0
        self.n = 0

    def __call__(self, op, **ev):
        ev['op'] = op
        ev['i'] = self.i
        self.out.write(json.dumps(ev) + '\n')
        self.n += 1


def main(prop, seed, lo, hi, tier, out):
    signal.signal(signal.SIGALRM, alarm)
    with open(out, 'a') as f, open(out + '.at', 'w') as at:
        rec = Recorder(f)
        try:
            import cases
            case = cases.CASES[prop]
        except (Exception, SystemExit) as e:
            traceback.print_exc()
            rec('crash', where='import', x=type(e).__name__, trace=traceback.format_exc()[-2000:])
            return
        for i in range(lo, hi):
            rec.i = i
            f.flush()
            at.seek(0)
            at.write('%d\n' % i)
            at.flush()
            signal.alarm(30)
            try:
                case('%s-%s-%d' % (prop, seed, i), i, tier, rec)
            except NoAnswer:
                rec('crash', where='case', x='NoAnswer', trace=traceback.format_exc()[-2000:])
            except (Exception, SystemExit) as e:
                rec('crash', where='case', x=type(e).__name__, trace=traceback.format_exc()[-2000:])
            finally:
                signal.alarm(0)


if __name__ == '__main__':
    main(sys.argv[1], sys.argv[2], int(sys.argv[3]), int(sys.argv[4]), sys.argv[5], sys.argv[6])
