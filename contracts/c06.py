"""C06: SP3 positions, clocks and velocities land at their own satellite and epoch."""
from . import sp3, sp3load, c01

TASKS = [("get_sv", sp3.get_sv), ("sp3dt", c01.sp3), ("load_sp3", sp3load.load)]
ASSUMPTIONS = c01.ASSUMPTIONS + [
    "well-formed SP3: every '+' line is at least 60 characters and the list takes ceil(N/17) of them; satellites are declared once; "
    "position and velocity records name a declared satellite, at most once per epoch, with numbers in their four 14-column fields; "
    "EOF, where present, is the last line"]
