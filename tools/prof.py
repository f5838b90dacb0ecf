"""prof.py PROP UNIT: profile the proof of one unit"""
import sys, cProfile, pstats, os
sys.path.insert(0, '/verif')
sys.setrecursionlimit(20000)
sys.argv, a = ['prove.py'], sys.argv[1:]
from pyvc import prove
prove.load(a[0])
from pyvc import vcsym, unit
from pyvc.unit import units_for
u = [x for x in units_for(a[0], "quick") if x.id == a[1]][0]
pr = cProfile.Profile()
pr.enable()
r = vcsym.run_unit(u, {})
pr.disable()
print(r['wall'], r['paths'], r['error'])
pstats.Stats(pr).sort_stats('cumulative').print_stats(45)
