#!/opt/veriftools/pyvenv/bin/python3
"""check.py PROPERTY [--tier quick|thorough] [--seed N] [--replay FILE]"""
import glob, importlib, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
os.environ['PYTHONHASHSEED'] = '0'
sys.dont_write_bytecode = True


def main():
    pid = sys.argv[1]
    f = glob.glob(os.path.join(os.path.dirname(os.path.abspath(__file__)), 'props', pid.lower() + '_*.py'))
    if len(f) != 1:
        sys.exit('no such property: ' + pid)
    mod = importlib.import_module('props.' + os.path.basename(f[0])[:-3])
    from vlib import engine
    engine.main(mod, sys.argv[2:])


if __name__ == '__main__':
    import threading
    main()
