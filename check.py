#!/usr/bin/env python3-vt
"""check.py <property> [--replay file]: decides one property by simulation."""
import os
import sys

sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "lib"))
import core  # noqa: E402

if __name__ == "__main__":
    sys.exit(core.main(sys.argv))
