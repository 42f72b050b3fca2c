import sys
from vf import core
sys.exit(core.main(sys.argv[1], sys.argv[2] if len(sys.argv) > 2 else 'quick', sys.argv[3:]))
