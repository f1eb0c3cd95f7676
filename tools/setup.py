#!/opt/venv/bin/python
"""builds what the checks need (the allocation-fault library); they also build it themselves when it is missing"""
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
sys.dont_write_bytecode = True
from sim import nomem       # noqa

nomem.library()
print('built', nomem.library())
