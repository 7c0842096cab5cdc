import os
import shutil
import sys
import tempfile
from dst import core

rc = 3
scratch = tempfile.mkdtemp(prefix='dst-', dir=os.environ.get('DST_SCRATCH'))
os.environ['DST_SCRATCH'] = scratch
try:
    rc = core.main(sys.argv[1:])
finally:
    sys.__stdout__.flush()
    sys.__stderr__.flush()
    if rc == 3:
        import traceback
        traceback.print_exc()
    shutil.rmtree(scratch, True)
    os._exit(rc)
