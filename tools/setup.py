"""Checks that what the framework needs is there and that every specification module parses."""
import glob
import os
import subprocess
import sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, ROOT)
from vf import tlc  # noqa: E402

for mod in sorted(glob.glob(os.path.join(tlc.SPEC, '*.tla'))):
    p = subprocess.run(['java', '-cp', tlc.JARS, 'tla2sany.SANY', mod], cwd=tlc.SPEC, stdout=subprocess.PIPE,
                       stderr=subprocess.STDOUT)
    out = p.stdout.decode()
    if p.returncode or 'Error' in out or 'Fatal' in out:
        print(out)
        sys.exit('%s does not parse' % mod)
    print('parsed', os.path.basename(mod))
subprocess.check_call(['/opt/venv/bin/python', '-B', '-c', 'import serial'])
