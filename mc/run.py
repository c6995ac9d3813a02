import sys, os, importlib
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import warnings
warnings.simplefilter('ignore')
import core
if __name__ == '__main__':
    mod = importlib.import_module('props.' + sys.argv[1].lower())
    sys.exit(core.main(mod))
