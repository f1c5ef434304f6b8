"""C05: RINEX 3 navigation parameters land in their own variable, satellite and epoch."""
from . import n3f, n3load, nv, c01

TASKS = [(n, f) for n, f in n3load.TASKS if not n.endswith(("tlim", "use"))]
TASKS += [("fields", n3f.fields), ("sparefields", n3f.sparefields), ("numfields", n3f.numfields),
          ("skip", lambda R: nv.skip(R, "nav3")), ("time", c01.nav3)]
ASSUMPTIONS = c01.ASSUMPTIONS + n3load.ASSUMPTIONS
