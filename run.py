"""usage: run.py <property id> [--tier quick|thorough] [--replay file]"""
import os
import sys

sys.dont_write_bytecode = True
os.environ['PYTHONDONTWRITEBYTECODE'] = '1'
os.environ.setdefault('LANG', 'C.UTF-8')
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
if os.environ.get('PYTHONHASHSEED') is None:
    os.environ['PYTHONHASHSEED'] = '0'
    os.execv(sys.executable, [sys.executable] + sys.argv)
from mon.core import main  # noqa: E402

if __name__ == '__main__':
    sys.exit(main(sys.argv[1:]))
