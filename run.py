"""Entry point: explore one property (see mc/core.py)."""
import os
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
from mc import core

if __name__ == '__main__':
    sys.exit(core.main(HERE, sys.argv[1:]))
