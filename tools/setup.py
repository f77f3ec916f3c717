#!/usr/bin/env python3
"""Sanity of the framework in a fresh sandbox: tools present, every specification parses."""
import glob, os, subprocess, sys
from concurrent.futures import ThreadPoolExecutor
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
JARS = '/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar'


def sany(f):
    p = subprocess.run(['java', '-XX:+UseSerialGC', '-cp', JARS, 'tla2sany.SANY', f], cwd=os.path.dirname(f),
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    return f, p.returncode, p.stdout


def main():
    subprocess.check_call(['/opt/venv/bin/python', '-W', 'ignore', '-c', 'import obspy, numpy, rf'])
    bad = 0
    with ThreadPoolExecutor(8) as ex:
        for f, rc, out in ex.map(sany, sorted(glob.glob(os.path.join(V, 'spec', '*.tla')))):
            if rc != 0 or 'Fatal errors' in out or '*** Errors' in out:
                print(f, out[-1500:])
                bad += 1
    os.makedirs(os.path.join(V, 'evidence'), exist_ok=True)
    print('setup ok' if not bad else '%d specifications do not parse' % bad)
    return 1 if bad else 0


sys.exit(main())
