"""Runs a script with directory listings in an arbitrary order."""
import os
import random
import runpy
import sys

rnd = random.Random(int(sys.argv[1]))
real_scandir, real_listdir = os.scandir, os.listdir


class Listing(object):
    def __init__(self, path):
        with real_scandir(path) as it:
            self.items = sorted(it, key=lambda e: e.name)
        rnd.shuffle(self.items)
        self.it = iter(self.items)

    def __iter__(self):
        return self

    def __next__(self):
        return next(self.it)

    def __enter__(self):
        return self

    def __exit__(self, *_):
        pass

    def close(self):
        pass


def listdir(path='.'):
    res = sorted(real_listdir(path))
    rnd.shuffle(res)
    return res


os.scandir = lambda path='.': Listing(path)
os.listdir = listdir
sys.argv = sys.argv[2:]
sys.path.insert(0, os.path.dirname(sys.argv[0]))
runpy.run_path(sys.argv[0], run_name='__main__')
