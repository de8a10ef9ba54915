import sys

from dst.core import main

sys.exit(main(sys.argv[1:]))
