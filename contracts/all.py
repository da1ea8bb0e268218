from contracts import mathc, chain    # noqa: F401
from . import lowlevel
