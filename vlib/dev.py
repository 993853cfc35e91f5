import sys, os, subprocess, time, z3
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.setrecursionlimit(20000)
from base import *
if __name__ == '__main__':
    main_dev(sys.argv[1:])
