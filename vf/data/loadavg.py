"""Runs a script on a machine whose load goes up and down."""
import os
import random
import runpy
import sys

rnd = random.Random(int(sys.argv[1]))
level = [rnd.choice([0.0, 0.3, 2.5, 7.0])]


def getloadavg():
    level[0] = min(9.0, max(0.0, level[0] + rnd.choice([-.8, -.4, 0, .4, .7])))
    return (level[0], 0.0, 0.0)


os.getloadavg = getloadavg
sys.argv = sys.argv[2:]
sys.path[0] = os.path.dirname(sys.argv[0])
runpy.run_path(sys.argv[0], run_name='__main__')
