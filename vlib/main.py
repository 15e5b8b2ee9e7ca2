import os
import sys

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vlib import boot  # noqa: E402

if __name__ == "__main__":
    boot.setup()
    from vlib import core

    sys.exit(core.main(sys.argv[1:]))
