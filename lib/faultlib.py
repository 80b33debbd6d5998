"""Builds and imports the allocation fault injector (lib/fault.c)."""
import os, sys, fcntl, hashlib, subprocess, sysconfig, importlib.util

HERE = os.path.dirname(os.path.abspath(__file__))
BUILD = os.path.join(os.path.dirname(HERE), '.build')


def load():
    src = os.path.join(HERE, 'fault.c')
    inc = sysconfig.get_paths()['include']
    with open(src, 'rb') as f:
        tag = hashlib.sha256(f.read() + inc.encode()).hexdigest()[:16]
    os.makedirs(BUILD, exist_ok=True)
    so = os.path.join(BUILD, 'fault_%s.so' % tag)
    if not os.path.exists(so):
        with open(os.path.join(BUILD, 'faultlock'), 'w') as lk:
            fcntl.flock(lk, fcntl.LOCK_EX)
            if not os.path.exists(so):
                subprocess.run(['gcc', '-O2', '-g', '-fPIC', '-shared', '-I' + inc, src, '-o', so + '.tmp'], check=True)
                os.rename(so + '.tmp', so)
    spec = importlib.util.spec_from_file_location('fault', so)
    m = importlib.util.module_from_spec(spec)
    spec.loader.exec_module(m)
    m.install()
    return m
