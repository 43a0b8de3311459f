"""Shared by the drivers: they run the code in /repo and record what it does.  They judge nothing."""
import json
import os
import signal
import sys

REPO = os.environ.get('VF_REPO', '/repo')
sys.path.insert(0, REPO)


class Hang(BaseException):
    pass


alarms = [0]


def _alarm(*a):
    alarms[0] += 1
    raise Hang('time')


signal.signal(signal.SIGALRM, _alarm)


class limit(object):
    """Bounds the time of one call into the code under test."""

    def __init__(self, seconds):
        self.seconds = seconds

    def __enter__(self):
        signal.setitimer(signal.ITIMER_REAL, self.seconds)

    def __exit__(self, *a):
        signal.setitimer(signal.ITIMER_REAL, 0)


def main(run):
    src, dst = sys.argv[1:3]
    with open(src) as f:
        scenarios = json.load(f)
    out = open(dst, 'w')
    t = None
    for s in scenarios:
        if alarms[0] >= 3:
            # calls that do not return have been recorded; the rest would take too long
            t = {'cfg': t['cfg'], 'ev': []}
        else:
            t = run(s)
        t['id'] = s['id']
        out.write(json.dumps(t) + '\n')
        out.flush()
    out.close()
    # nothing the code under test left behind may delay the end
    sys.stdout.flush()
    os._exit(0)


def octets(x):
    """bytes, or text holding one byte per character, as numbers"""
    if isinstance(x, (bytes, bytearray)):
        return list(x)
    if isinstance(x, str):
        return [min(ord(c), 999) for c in x]
    return [-1]
