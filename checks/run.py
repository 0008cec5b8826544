import sys, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, 'lib'))
sys.path.insert(0, os.path.join(V, 'checks'))
import importlib, traceback
try:
    m = importlib.import_module(sys.argv[1].lower())
    m.main()
except SystemExit:
    raise
except BaseException:
    traceback.print_exc()
    sys.exit(5)
