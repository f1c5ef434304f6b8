"""C02: RINEX 2 observations land at their own epoch, satellite and observable."""
from . import o2, o2sys, o2parts

TASKS = [
    ("ind", o2sys.main(ind=True)),
    ("fast", o2sys.main(fast=True)),
    ("plain", o2sys.main(forms=("path", "stream"))),
    ("helpers", o2.helpers),
    ("lemmas", o2parts.lemmas),
    ("num_times", o2parts.num_times),
    ("fast_alloc", o2parts.fast_alloc),
    ("merge", o2parts.merge),
]
ASSUMPTIONS = o2sys.ASSUMPTIONS
THOROUGH = [("ind-fast", o2sys.main(ind=True, fast=True, forms=("path", "stream")))]
