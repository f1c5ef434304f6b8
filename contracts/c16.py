"""C16: header reading returns every record under its label with decoded values exact."""
from . import hd, hdr, hdro, c01

TASKS = [("string_to_float", hd.string_to_float), ("timehdr", c01.hdr2), ("navheader2", hdr.nav2), ("navheader3", hdr.nav3)] + hdro.TASKS
LEVEL = "other"
BOUNDED = "obsheader3: generated headers"
ASSUMPTIONS = c01.ASSUMPTIONS + hdr.ASSUMPTIONS + hdro.ASSUMPTIONS
