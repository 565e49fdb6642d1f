"""fill.py: run what the quick checks run once and remember sympy's simplifications (memo.py) in .cache"""
import os, sys, glob, pickle, time
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from common import *
import memo, chk_solve, chk_report, chk_code
d = scratch('memo')
t0 = time.time()
sets = set(chk_solve.names()) | set(chk_solve.names([], chk_solve.RANDOM_S + chk_solve.FOLD_Q)) | set(chk_solve.names([], [1, 3, 5, 6, 8, 11, 26])) | set(chk_code.Q1) | set(chk_report.Q) | set(chk_solve.HEAVY[2:5])
fk = [n for n in chk_report.fknames([1, 3, 8]) if n not in sets]
order = {n: k for k, n in enumerate(chk_solve.ROBOTS)}
jobs = sorted([('fk', n) for n in fk] + [('run', n) for n in sets]
              + [('kin', n) for n in chk_solve.ROBOTS] + [('kin', 'random', SEED * 1000 + i, 6) for i in range(8)], key=lambda j: order.get(j[1], 99))


def one(j):
    if time.time() - t0 > 1200: return
    env = {'IKBT_MEMO': d}
    f = os.path.join(d, '%s.json' % str(j).replace('/', ''))
    if j[0] == 'run': driver('drv_run.py', [f, SEED, 'proc', j[1]], timeout=500, env=env)
    elif j[0] == 'kin': driver('drv_kin.py', [f] + list(j[1:]), timeout=500, env=env)
    elif j[0] == 'fk': driver('drv_fk.py', [f, SEED, 1, j[1]], timeout=500, env=env)


pmap(one, jobs)
t = dict(memo.table)
for f in glob.glob(os.path.join(d, '*.pkl')):
    with open(f, 'rb') as g: t.update(pickle.load(g))
os.makedirs(os.path.dirname(memo.FILE), exist_ok=True)
memo.new = t
memo.save(memo.FILE)
print('%d simplifications remembered in %.0f s' % (len(t), time.time() - t0))
