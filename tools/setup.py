#!/usr/bin/env python3
"""Checks that the specification parses and that the harness builds."""
import os, shutil, subprocess, sys, tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, 'lib'))
import common
run = common.Run('setup', 'quick', 1)
try:
    run.build()
    d = run.sub('sany')
    for f in os.listdir(os.path.join(V, 'spec')):
        shutil.copy(os.path.join(V, 'spec', f), d)
    for f in sorted(os.listdir(d)):
        if f.endswith('.tla'):
            r = subprocess.run(['java', '-cp', common.TLA + '/tla2tools.jar:' + common.TLA + '/CommunityModules-deps.jar',
                                'tla2sany.SANY', f], cwd=d, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
            if r.returncode:
                print(r.stdout.decode())
                sys.exit(1)
finally:
    run.close()
