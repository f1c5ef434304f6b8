from . import values, engine, strs, interp, lib, arrays, loops  # noqa
