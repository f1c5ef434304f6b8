"""C08: selecting systems or measurements only restricts the full read."""
from . import o2, o2sys, o2parts, o3sys, o3epoch, n3load

TASKS = [
    ("meas-ind", o2sys.main(meas=True, ind=True)),
    ("meas", o2sys.main(meas=True)),
    ("plain", o2sys.main()),
    ("meas-tlim", o2sys.main(meas=True, tlim=True)),
    ("helpers", o2.helpers),
    ("lemmas", o2parts.lemmas),
    ("merge", o2parts.merge),
    ("obs3-use-str", o3sys.main(use="str", meas="str")),
    ("obs3-use-set", o3sys.main(use="set", meas="list")),
    ("obs3-epoch", o3epoch.epoch),
] + [(n, f) for n, f in n3load.TASKS if n.endswith("use")]
ASSUMPTIONS = o2sys.ASSUMPTIONS + n3load.ASSUMPTIONS
THOROUGH = [("all-options", o2sys.main(ind=True, meas=True, tlim=True, ivl=True, fast=True))]
