"""Builds the library objects once, so that the first check does not pay for it."""
import os
import shutil
import tempfile

from . import build as B
from . import engine


def main():
    os.makedirs(B.BUILD, exist_ok=True)
    os.makedirs(engine.EVID, exist_ok=True)
    work = tempfile.mkdtemp(prefix='setup-', dir=B.BUILD)
    try:
        for v in B.VARIANTS:
            B.build([{'id': 's0', 'levels': [[{'k': 'help'}]], 'debug': False}], v, work)
    except B.BuildError as e:
        print('ERROR: the tree does not build: %s' % e)
        return 3
    finally:
        shutil.rmtree(work, ignore_errors=True)
    print('ready')
    return 0
