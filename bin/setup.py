#!/usr/bin/env python3
"""Nothing is installed or prebuilt: checks that the tools are there."""
import os, shutil, sys
missing = [t for t in ('java', 'g++', 'python3', 'timeout') if not shutil.which(t)]
if not os.path.exists('/opt/veriftools/tla/tla2tools.jar'):
    missing.append('tla2tools.jar')
if missing:
    sys.exit('missing: ' + ' '.join(missing))
os.makedirs(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'evidence'), exist_ok=True)
print('ok')
