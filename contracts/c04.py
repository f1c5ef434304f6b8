"""C04: RINEX 2 navigation parameters land in their own variable, satellite and epoch."""
from . import nv, c01, n2load

TASKS = [("skip", lambda R: nv.skip(R, "nav2")), ("timenav", c01.nav2)] + [(n, f) for n, f in n2load.TASKS if n.endswith("plain")]
ASSUMPTIONS = c01.ASSUMPTIONS + n2load.ASSUMPTIONS
