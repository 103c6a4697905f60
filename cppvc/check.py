import sys, os, importlib
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE); sys.path.insert(0, os.path.join(os.path.dirname(HERE), 'props'))
import vc
if __name__ == '__main__':
    pid = sys.argv[1]
    m = importlib.import_module(pid.lower())
    sys.exit(vc.main(pid, m.TITLE, m.run, sys.argv[1:]))
