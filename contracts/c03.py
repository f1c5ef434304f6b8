"""C03: RINEX 3 observations land at their own epoch, satellite and observable."""
from . import c01, o3sys, o3epoch

TASKS = [("timeobs", c01.obs3), ("record-loop", o3sys.main(forms=("path", "stream"))), ("record-loop-ind", o3sys.main(ind=True)), ("epoch", o3epoch.epoch)]
LEVEL = "other"
BOUNDED = "obsheader3, on generated files"
ASSUMPTIONS = c01.ASSUMPTIONS
