import sys
from rkv import runner
sys.exit(runner.main(sys.argv[1:]))
