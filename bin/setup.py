#!/usr/bin/env python3
"""Prepares a fresh sandbox: parses the specification, builds the driver once."""
import glob, os, subprocess, sys
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
import build
spec = os.path.join(os.path.dirname(HERE), 'spec')
for f in sorted(glob.glob(os.path.join(spec, '*.tla'))):
    p = subprocess.run(['java', '-cp', '/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar', 'tla2sany.SANY', os.path.basename(f)],
                       cwd=spec, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode:
        sys.exit('specification does not parse: %s\n%s' % (f, p.stdout))
for v in ('std', 'asan'):
    print(v, build.build(v))
