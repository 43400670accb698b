#!/opt/veriftools/pyvenv/bin/python3
"""check.py <property>: decides one property of /repo's current tree. See DESIGN.md."""
import sys, os, time, json, importlib, hashlib, subprocess, multiprocessing as mp
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.setrecursionlimit(20000)
from rexv import driver
if __name__ == "__main__":
    sys.exit(driver.main(sys.argv[1:]))
