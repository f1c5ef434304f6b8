"""C07: time limits keep exactly the records inside the window."""
from . import o2, o2sys, o2parts, o3sys, n2load, n3load

TASKS = [
    ("tlim", o2sys.main(tlim=True, forms=("path", "stream"))),
    ("tlim-fast", o2sys.main(tlim=True, fast=True)),
    ("tlim-ind", o2sys.main(tlim=True, ind=True)),
    ("helpers", o2.helpers),
    ("lemmas", o2parts.lemmas),
    ("num_times", o2parts.num_times),
    ("merge", o2parts.merge),
    ("obs3-tlim", o3sys.main(tlim=True, forms=("path", "stream"))),
] + [("nav2-" + n, f) for n, f in n2load.TASKS if n.endswith("tlim")] + [(n, f) for n, f in n3load.TASKS if n.endswith("tlim")]
ASSUMPTIONS = o2sys.ASSUMPTIONS + n2load.ASSUMPTIONS + n3load.ASSUMPTIONS + ["observation and RINEX 2 navigation files are in time order"]
THOROUGH = n3load.THOROUGH + [("all-options", o2sys.main(ind=True, meas=True, tlim=True, ivl=True, fast=True))]
