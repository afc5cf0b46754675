"""Build the harness once (fills the Go build cache where it persists) and start one target."""
import os, shutil, sys, tempfile
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import target as T, iscsi as I
wd = tempfile.mkdtemp(prefix='verif-setup-')
T.set_workdir(wd)
try:
    T.build()
    with T.Server(T.simple_cfg({0: {'store': 'a', 'blocks': 8}})) as s:
        x = I.Sess(s.port, T.TGT)
        x.ping()
        x.logout()
    print('harness builds and the target answers')
finally:
    shutil.rmtree(wd, ignore_errors=True)
