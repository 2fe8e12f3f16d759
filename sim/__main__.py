import os
import sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from sim import runner
rc = runner.main(sys.argv[1:])
sys.stdout.flush()
os._exit(rc)
