"""setup: nothing is built; checks that the toolchain is usable (python environment, java, TLC jars)"""
import os, subprocess, sys
ok = all(os.path.exists(p) for p in ('/opt/veriftools/tla/tla2tools.jar', '/opt/venv/bin/python'))
ok = ok and subprocess.run(['java', '-version'], stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL).returncode == 0
sys.exit(0 if ok else 1)
