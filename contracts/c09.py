"""C09: decimation keeps one epoch per interval step, with its own values."""
from . import o2, o2sys, o2parts, o3sys

TASKS = [
    ("ivl", o2sys.main(ivl=True)),
    ("ivl-fast", o2sys.main(ivl=True, fast=True)),
    ("ivl-tlim", o2sys.main(ivl=True, tlim=True)),
    ("interval", o2parts.interval),
    ("helpers", o2.helpers),
    ("lemmas", o2parts.lemmas),
    ("num_times", o2parts.num_times),
    ("merge", o2parts.merge),
    ("obs3-ivl", o3sys.main(ivl=True, forms=("path", "stream"))),
    ("obs3-ivl-tlim", o3sys.main(ivl=True, tlim=True)),
]
ASSUMPTIONS = o2sys.ASSUMPTIONS
THOROUGH = [("all-options", o2sys.main(ind=True, meas=True, tlim=True, ivl=True, fast=True))]
