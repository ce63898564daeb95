#!/usr/bin/env python3
"""Runs the check of one property: run.py C01. Exit 0: held on everything explored. Exit 1: VIOLATION lines on stdout."""
import importlib, os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
sys.setrecursionlimit(100000)


def main():
    prop = sys.argv[1]
    importlib.import_module("checks." + prop.lower()).main()


if __name__ == "__main__":
    main()
