"""Nothing to build: check the interpreter and that the sources parse."""
import os
import sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from sa.repo import Repo  # noqa: E402
print(f'{len(Repo().modules)} modules parsed')
