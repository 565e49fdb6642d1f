"""run.py PID: run one check (exit 0 / exit 1 with a VIOLATION line)."""
import sys, os, importlib, glob
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import common
pid = sys.argv[1]
if len(sys.argv) > 2:
    common.TIER = sys.argv[2]
    os.environ['VERIF_TIER'] = sys.argv[2]
for f in sorted(glob.glob(os.path.join(os.path.dirname(os.path.abspath(__file__)), 'chk_*.py'))):
    if ("'%s'" % pid) in open(f).read():
        m = importlib.import_module(os.path.basename(f)[:-3])
        if pid in m.CHECKS:
            level, fn = m.CHECKS[pid]
            common.main(pid, level, fn)
sys.exit('no check for ' + pid)
