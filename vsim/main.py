from . import env  # noqa: F401  (first: thread limits and backend)
import sys
from . import runner

if __name__ == "__main__":
    sys.exit(runner.main())
