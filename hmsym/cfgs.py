"""Build configurations the checks use."""
import os
from .runner import Cfg

D = Cfg("default", name="default")
L = Cfg("light", name="light")
NQ = Cfg("default", SLAB_QUARANTINE_RANDOM_LENGTH=0, SLAB_QUARANTINE_QUEUE_LENGTH=0, name="default,no-slab-quarantine")
NE = Cfg("default", EXTENDED_SIZE_CLASSES=False, REGION_QUARANTINE_RANDOM_LENGTH=2, REGION_QUARANTINE_QUEUE_LENGTH=2, name="no-ext,region-quarantine-2-2")
NEQ = Cfg("default", EXTENDED_SIZE_CLASSES=False, SLAB_QUARANTINE_RANDOM_LENGTH=0, SLAB_QUARANTINE_QUEUE_LENGTH=0, REGION_QUARANTINE_RANDOM_LENGTH=1, REGION_QUARANTINE_QUEUE_LENGTH=1,
          name="no-ext,no-slab-quarantine,region-quarantine-1-1")
NEL = Cfg("light", EXTENDED_SIZE_CLASSES=False, LARGE_SIZE_CLASSES=False, name="light,no-ext,page-large")
STATS = Cfg("default", STATS=True, name="default,stats")


def android(name, variant="default", glibc=False, **over):
    """what the Android build compiles in addition (statistics per arena and class, disabling and enabling, purging), with stand-ins for bionic's headers"""
    d = os.path.join(os.path.dirname(os.path.abspath(__file__)), "shim")
    return Cfg(variant, extra=("-D__ANDROID__", "-I" + d) + (("-DKEEP_GLIBC",) if glibc else ()) + ("-include", os.path.join(d, "bionic.h")), name=name, **over)
