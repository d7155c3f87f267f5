"""Entry point of every check:  python run.py C01 [--thorough] [--replay FILE]"""
import os
import sys

os.environ.setdefault('PYTHONDONTWRITEBYTECODE', '1')
os.environ['PYTHONHASHSEED'] = os.environ.get('PYTHONHASHSEED', '0')
sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))

from vlib import core  # noqa: E402

if __name__ == '__main__':
    sys.exit(core.main(sys.argv[1], sys.argv[2:]))
