#!/usr/bin/env python3
# builds the symbolic executor (checks build it themselves when it is missing)
import sys
sys.argv = ["run.py"]
import run
print(run.engine())
