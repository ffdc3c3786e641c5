"""Entry point of one worker process of hsv.clicheck."""
import json
import os
import sys

sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from hsv import clicheck  # noqa: E402

clicheck.worker(**json.loads(sys.argv[1]))
