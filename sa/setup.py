"""Nothing to build: check that the interpreter needed by the analyses is there."""
import sys
sys.exit(0 if sys.version_info >= (3, 8) else 1)
