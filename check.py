"""Entry point of the property checks: see DESIGN.md."""
import os
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)

from vlib import core  # noqa: E402

if __name__ == '__main__':
    core.main(sys.argv[1:])
