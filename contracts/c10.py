"""C10: fast and strict reading of RINEX 2 observations give identical data.

Both readings are proved to meet one and the same contract, which determines
every cell, time and label of the result: whenever both return, they agree."""
from . import o2, o2sys, o2parts

TASKS = [
    ("fast-tlim", o2sys.main(fast=True, tlim=True)),
    ("fast-ind-meas", o2sys.main(fast=True, ind=True, meas=True)),
    ("fast-ivl", o2sys.main(fast=True, ivl=True)),
    ("fast", o2sys.main(fast=True, forms=("path", "stream"))),
    ("strict", o2sys.main()),
    ("strict-tlim", o2sys.main(tlim=True)),
    ("strict-ivl", o2sys.main(ivl=True)),
    ("strict-ind-meas", o2sys.main(ind=True, meas=True)),
    ("helpers", o2.helpers),
    ("lemmas", o2parts.lemmas),
    ("num_times", o2parts.num_times),
    ("fast_alloc", o2parts.fast_alloc),
    ("merge", o2parts.merge),
]
ASSUMPTIONS = o2sys.ASSUMPTIONS + ["strict reading allocates exactly the epochs inside the window, fast reading any number of rows: a row too few "
                                   "raises IndexError (refused, not truncated)"]
THOROUGH = [("all-options-fast", o2sys.main(ind=True, meas=True, tlim=True, ivl=True, fast=True)), ("all-options-strict", o2sys.main(ind=True, meas=True, tlim=True, ivl=True))]
