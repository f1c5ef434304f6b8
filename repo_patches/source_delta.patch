From a57b48df0ce81715974b5923ea4f7e8f8f1c2eac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:32 +0000
Subject: [PATCH 01/17] fix: keep epoch microseconds exact instead of
 truncating a binary fraction

---
 src/georinex/common.py | 10 ++++++++++
 src/georinex/nav2.py   |  4 ++--
 src/georinex/obs2.py   | 12 +++++++++---
 src/georinex/obs3.py   | 11 ++++++++---
 4 files changed, 29 insertions(+), 8 deletions(-)

diff --git a/src/georinex/common.py b/src/georinex/common.py
index 97bc0af..83ca4b2 100644
--- a/src/georinex/common.py
+++ b/src/georinex/common.py
@@ -27,6 +27,16 @@ def rinex_string_to_float(s: str) -> float:
     return float(s.replace("D", "E"))
 
 
+def fractional_usec(s: str) -> int:
+    """
+    fractional part of a seconds field, truncated to whole microseconds
+
+    RINEX writes at most 7 decimals, which round() recovers exactly. Multiplying the
+    (inexact) binary fraction by 1e6 and truncating would often lose a microsecond.
+    """
+    return min(round(float(s) % 1 * 10**7) // 10, 999999)
+
+
 def check_ram(memneed: int, fn: T.TextIO | Path):
     if psutil is None:
         return
diff --git a/src/georinex/nav2.py b/src/georinex/nav2.py
index de985d8..4b0c453 100644
--- a/src/georinex/nav2.py
+++ b/src/georinex/nav2.py
@@ -7,7 +7,7 @@ import numpy as np
 import logging
 
 from .rio import opener, rinexinfo
-from .common import rinex_string_to_float
+from .common import rinex_string_to_float, fractional_usec
 
 #
 STARTCOL2 = 3  # column where numerical data starts for RINEX 2
@@ -246,7 +246,7 @@ def _timenav(ln: str) -> datetime:
         hour=int(ln[12:14]),
         minute=int(ln[15:17]),
         second=int(float(ln[17:20])),
-        microsecond=int(float(ln[17:22]) % 1 * 1000000),
+        microsecond=fractional_usec(ln[17:22]),
     )
 
 
diff --git a/src/georinex/obs2.py b/src/georinex/obs2.py
index 292db34..d7d9f11 100644
--- a/src/georinex/obs2.py
+++ b/src/georinex/obs2.py
@@ -15,7 +15,13 @@ except ImportError:
     ecef2geodetic = None
 
 from .rio import opener, rinexinfo
-from .common import determine_time_system, check_ram, check_time_interval, check_unique_times
+from .common import (
+    determine_time_system,
+    check_ram,
+    check_time_interval,
+    check_unique_times,
+    fractional_usec,
+)
 
 __all__ = ["rinexobs2", "rinexsystem2", "obsheader2", "obstime2"]
 
@@ -551,7 +557,7 @@ def _timehdr(ln: str) -> datetime:
         second = 0
 
     try:
-        usec = int(float(ln[30:43]) % 1 * 1000000)
+        usec = fractional_usec(ln[30:43])
     except ValueError:
         usec = 0
 
@@ -577,7 +583,7 @@ def _timeobs(ln: str) -> datetime:
         year += 1900
 
     try:
-        usec = int(float(ln[16:26]) % 1 * 1000000)
+        usec = fractional_usec(ln[16:26])
     except ValueError:
         usec = 0
 
diff --git a/src/georinex/obs3.py b/src/georinex/obs3.py
index a68dc21..789c7bc 100644
--- a/src/georinex/obs3.py
+++ b/src/georinex/obs3.py
@@ -13,7 +13,12 @@ except ImportError:
     ecef2geodetic = None
 #
 from .rio import opener, rinexinfo
-from .common import determine_time_system, check_time_interval, check_unique_times
+from .common import (
+    determine_time_system,
+    check_time_interval,
+    check_unique_times,
+    fractional_usec,
+)
 
 """https://github.com/mvglasow/satstat/wiki/NMEA-IDs"""
 
@@ -179,7 +184,7 @@ def _timeobs(ln: str) -> datetime:
         hour=int(ln[13:15]),
         minute=int(ln[16:18]),
         second=int(ln[19:21]),
-        microsecond=int(float(ln[19:29]) % 1 * 1000000),
+        microsecond=fractional_usec(ln[19:29]),
     )
 
 
@@ -337,7 +342,7 @@ def obsheader3(
             hour=int(t0s[18:24]),
             minute=int(t0s[24:30]),
             second=int(float(t0s[30:36])),
-            microsecond=int(float(t0s[30:43]) % 1 * 1000000),
+            microsecond=fractional_usec(t0s[30:43]),
         )
     except (KeyError, ValueError):
         pass
-- 
2.43.0


From 7eecf44c9684971376e0d3982f1cfc3aec2d9fd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:32 +0000
Subject: [PATCH 02/17] fix: OBS 2 strict mode gave decimated epochs the wrong
 times

---
 src/georinex/obs2.py | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/src/georinex/obs2.py b/src/georinex/obs2.py
index d7d9f11..46d5448 100644
--- a/src/georinex/obs2.py
+++ b/src/georinex/obs2.py
@@ -175,13 +175,12 @@ def rinexsystem2(
             if verbose:
                 print(time_epoch, end="\r")
 
-            if fast:
-                try:
-                    times[j] = time_epoch
-                except IndexError as e:
-                    raise IndexError(
-                        f'may be "fast" mode bug, try fast=False or "-strict" command-line option {e}'
-                    )
+            try:
+                times[j] = time_epoch
+            except IndexError as e:
+                raise IndexError(
+                    f'may be "fast" mode bug, try fast=False or "-strict" command-line option {e}'
+                )
             # %% Does anyone need this?
             #            try:
             #                toffset = ln[68:80]
-- 
2.43.0


From 6055fc718cf292c2004584fcf5ff2e64a4e8d0c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:32 +0000
Subject: [PATCH 03/17] fix: OBS 2 satellite numbers above 36 crashed the
 reader

---
 src/georinex/obs2.py | 9 +--------
 1 file changed, 1 insertion(+), 8 deletions(-)

diff --git a/src/georinex/obs2.py b/src/georinex/obs2.py
index 46d5448..cfcb595 100644
--- a/src/georinex/obs2.py
+++ b/src/georinex/obs2.py
@@ -106,14 +106,7 @@ def rinexsystem2(
 
     interval = check_time_interval(interval)
     # %% allocation
-    """
-    Nsvsys may need updating as GNSS systems grow.
-    Let us know if you needed to change them.
-
-    Beidou is 35 max
-    Galileo is 36 max
-    """
-    Nsvsys = 36
+    Nsvsys = 99  # RINEX 2 satellite numbers are two digits (SBAS 20..58, QZSS, ...)
 
     hdr = obsheader2(fn, useindicators, meas)
 
-- 
2.43.0


From 15d9f670ce26cf709edf7b5205a7dc0c4e0191fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:32 +0000
Subject: [PATCH 04/17] fix: repeated or blank APPROX POSITION XYZ made OBS
 reading fail

---
 src/georinex/obs2.py | 5 +++--
 src/georinex/obs3.py | 2 +-
 2 files changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/georinex/obs2.py b/src/georinex/obs2.py
index cfcb595..3326359 100644
--- a/src/georinex/obs2.py
+++ b/src/georinex/obs2.py
@@ -398,8 +398,9 @@ def obsheader2(
     hdr["Nl_sv"] = ceil(hdr["Nobs"] / 5)
     # %% list with receiver location in x,y,z cartesian ECEF (OPTIONAL)
     try:
-        hdr["position"] = [float(j) for j in hdr["APPROX POSITION XYZ"].split()]
-        if ecef2geodetic is not None:
+        # some files repeat this label, use the first position
+        hdr["position"] = [float(j) for j in hdr["APPROX POSITION XYZ"].split()][:3]
+        if ecef2geodetic is not None and len(hdr["position"]) == 3:
             hdr["position_geodetic"] = ecef2geodetic(*hdr["position"])
     except (KeyError, ValueError):
         pass
diff --git a/src/georinex/obs3.py b/src/georinex/obs3.py
index 789c7bc..9371e50 100644
--- a/src/georinex/obs3.py
+++ b/src/georinex/obs3.py
@@ -154,7 +154,7 @@ def rinexobs3(
 
     if "position" in hdr.keys():
         data.attrs["position"] = hdr["position"]
-        if ecef2geodetic is not None:
+        if "position_geodetic" in hdr.keys():
             data.attrs["position_geodetic"] = hdr["position_geodetic"]
 
     if time_offset:
-- 
2.43.0


From ddd907f8c8b6d5bb419ca720065e52c3d96e7f4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:32 +0000
Subject: [PATCH 05/17] fix: blank satellite system of RINEX 2 is GPS

---
 src/georinex/rio.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/georinex/rio.py b/src/georinex/rio.py
index cae2bde..602b1e5 100644
--- a/src/georinex/rio.py
+++ b/src/georinex/rio.py
@@ -176,7 +176,8 @@ def rinexinfo(f: T.TextIO | Path) -> dict[T.Hashable, T.Any]:
             elif file_type == "E":
                 system = "E"
             else:
-                system = line[40]
+                # RINEX 2: blank system letter means GPS
+                system = line[40] if line[40] != " " else "G"
         else:
             system = line[40]
 
-- 
2.43.0


From f639c528bf6641d4456256f34a4bde68cfddafe3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:32 +0000
Subject: [PATCH 06/17] fix: SP3 values absent from the file came from
 uninitialised memory

---
 src/georinex/sp3.py | 15 +++++++--------
 1 file changed, 7 insertions(+), 8 deletions(-)

diff --git a/src/georinex/sp3.py b/src/georinex/sp3.py
index 6408077..a0f0968 100644
--- a/src/georinex/sp3.py
+++ b/src/georinex/sp3.py
@@ -63,9 +63,10 @@ def load_sp3(fn: Path, outfn: Path | None) -> xarray.Dataset:
         ecefs = []
         clocks = []
         vels = []
-        ecef = np.empty((Nsv, 3))
-        clock = np.empty((Nsv, 2))
-        vel = np.empty((Nsv, 3))
+        # not every epoch has every value (e.g. velocity, clock rate-of-change)
+        ecef = np.full((Nsv, 3), np.nan)
+        clock = np.full((Nsv, 2), np.nan)
+        vel = np.full((Nsv, 3), np.nan)
         i = 0
 
         times = [sp3dt(ln)]
@@ -77,11 +78,9 @@ def load_sp3(fn: Path, outfn: Path | None) -> xarray.Dataset:
                 clocks.append(clock)
                 vels.append(vel)
 
-                ecef = np.empty((Nsv, 3))
-                clock = np.empty((Nsv, 2))  # clock and clock rate-of-change
-
-                vel = np.empty((Nsv, 3))
-                vel.fill(np.nan)  # may not always have velocity
+                ecef = np.full((Nsv, 3), np.nan)
+                clock = np.full((Nsv, 2), np.nan)  # clock and clock rate-of-change
+                vel = np.full((Nsv, 3), np.nan)  # may not always have velocity
 
                 i = 0
                 continue
-- 
2.43.0


From f38cfa070829e0ee543fddb2fdd94ffa24c391aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:32 +0000
Subject: [PATCH 07/17] fix: Hatanaka files inside zip were not decompressed

---
 src/georinex/rio.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/georinex/rio.py b/src/georinex/rio.py
index 602b1e5..f19faa7 100644
--- a/src/georinex/rio.py
+++ b/src/georinex/rio.py
@@ -84,6 +84,11 @@ def opener(fn: T.TextIO | Path, header: bool = False) -> T.Iterator[T.TextIO]:
                         f = io.StringIO(
                             io.TextIOWrapper(bf, encoding="ascii", errors="ignore").read()  # type: ignore
                         )
+                        _, is_crinex = rinex_version(first_nonblank_line(f))
+                        f.seek(0)
+
+                        if is_crinex and not header:
+                            f = io.StringIO(crx2rnx(f.read()))
                         yield f
         elif suffix == ".z" or magic.startswith(b"\x1f\x9d"):
             if unlzw is None:
-- 
2.43.0


From 551381520d1e8cf4939ad8dca874d4dd4b37a70e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:32 +0000
Subject: [PATCH 08/17] fix: epochs lost their microseconds in gettime() and
 OBS 2 strict mode

---
 src/georinex/nav2.py | 2 +-
 src/georinex/nav3.py | 2 +-
 src/georinex/obs2.py | 2 +-
 src/georinex/obs3.py | 2 +-
 4 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/georinex/nav2.py b/src/georinex/nav2.py
index 4b0c453..aabef88 100644
--- a/src/georinex/nav2.py
+++ b/src/georinex/nav2.py
@@ -277,4 +277,4 @@ def navtime2(fn: T.TextIO | Path):
 
             _skip(f, Nl[hdr["systems"]])
 
-    return np.unique(np.asarray(times, dtype="datetime64[ms]"))
+    return np.unique(np.asarray(times, dtype="datetime64[us]"))
diff --git a/src/georinex/nav3.py b/src/georinex/nav3.py
index aa936f8..28b8563 100644
--- a/src/georinex/nav3.py
+++ b/src/georinex/nav3.py
@@ -531,4 +531,4 @@ def navtime3(fn: T.TextIO | Path):
             times.append(time)
             _skip(f, Nl[line[0]])  # different system types skip different line counts
 
-    return np.unique(np.asarray(times, dtype="datetime64[ms]"))
+    return np.unique(np.asarray(times, dtype="datetime64[us]"))
diff --git a/src/georinex/obs2.py b/src/georinex/obs2.py
index 3326359..a6428f3 100644
--- a/src/georinex/obs2.py
+++ b/src/georinex/obs2.py
@@ -516,7 +516,7 @@ def obstime2(fn: T.TextIO | Path, verbose: bool = False):
 
             _skip(f, ln, hdr["Nl_sv"])
 
-    times = np.asarray(times, dtype="datetime64[ms]")
+    times = np.asarray(times, dtype="datetime64[us]")
 
     check_unique_times(times)
 
diff --git a/src/georinex/obs3.py b/src/georinex/obs3.py
index 9371e50..6059f09 100644
--- a/src/georinex/obs3.py
+++ b/src/georinex/obs3.py
@@ -204,7 +204,7 @@ def obstime3(fn: T.TextIO | Path, verbose: bool = False):
                     logging.debug(f"was not a time:\n{ln}")
                     continue
 
-    times = np.asarray(times, dtype="datetime64[ms]")
+    times = np.asarray(times, dtype="datetime64[us]")
 
     check_unique_times(times)
 
-- 
2.43.0


From bc133aae7e5b9342dd994f4cd3cd57e9d5fa4769 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:33 +0000
Subject: [PATCH 09/17] fix: keplerian2ecef failed on NAV data and shifted
 Galileo by 1024 weeks

---
 src/georinex/keplerian.py | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/src/georinex/keplerian.py b/src/georinex/keplerian.py
index 19f0c13..e245126 100644
--- a/src/georinex/keplerian.py
+++ b/src/georinex/keplerian.py
@@ -22,7 +22,13 @@ def keplerian2ecef(
     http://web.cecs.pdx.edu/~ssp/Reports/2006/Monaghan.pdf
     """
 
-    if "sv" in sv and sv["sv"] in {"R", "S"}:
+    # system of the selected satellite, else of the file
+    if "sv" in sv and sv["sv"].ndim == 0:
+        system = str(sv["sv"].values)[:1]
+    else:
+        system = sv.svtype[0]
+
+    if system in {"R", "S"}:
         return sv["X"], sv["Y"], sv["Z"]
 
     # sv = sv.dropna(dim='time', how='all')
@@ -38,13 +44,13 @@ def keplerian2ecef(
     n = n0 + sv["DeltaN"].values  # corrected mean motion
 
     # from GPS Week 0
-    if sv.svtype[0] == "E":
-        weeks = sv["GALWeek"].values - 1024
-        # TODO: need to add N*4096 for year 2058 and beyond
-    elif sv.svtype[0] == "G":
+    if system == "E":
+        # RINEX GAL week is continuous and aligned to the GPS week
+        weeks = sv["GALWeek"].values
+    elif system == "G":
         weeks = sv["GPSWeek"].values
     else:
-        raise ValueError(f"Unknown system type {sv.svtype[0]}")
+        raise ValueError(f"Unknown system type {system}")
     # %% shaping
     weeks = np.atleast_1d(weeks).astype(float)
     Toe = np.atleast_1d(sv["Toe"].values).astype(float)
-- 
2.43.0


From 32cac426411cf755c4ecc1c2cfaab07cdffe7622 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:43 +0000
Subject: [PATCH 10/17] fix: OBS 3 epochs of 100 or more satellites, last
 satellite line without newline

---
 src/georinex/obs3.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/georinex/obs3.py b/src/georinex/obs3.py
index 6059f09..c7ab6b8 100644
--- a/src/georinex/obs3.py
+++ b/src/georinex/obs3.py
@@ -103,10 +103,10 @@ def rinexobs3(
             sv = []
             raw = ""
             # Number of visible satellites this time %i3  pg. A13
-            for _ in range(int(ln[33:35])):
+            for _ in range(int(ln[32:35])):
                 ln = f.readline()
                 sv.append(ln[:3])
-                raw += ln[3:]
+                raw += ln[3:].rstrip("\n") + "\n"  # last line of file may lack newline
 
             if tlim is not None:
                 if time < tlim[0]:
-- 
2.43.0


From 7fbcc96b5ccbb8ed39e7c3e6ce97793436b477df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:49:08 +0000
Subject: [PATCH 11/17] fix: blank RINEX 2 satellite system means GPS in
 Hatanaka files too

---
 src/georinex/common.py | 2 +-
 src/georinex/obs2.py   | 3 ++-
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/georinex/common.py b/src/georinex/common.py
index 83ca4b2..8b309a9 100644
--- a/src/georinex/common.py
+++ b/src/georinex/common.py
@@ -62,7 +62,7 @@ def determine_time_system(header: dict[T.Hashable, T.Any]) -> str:
     except KeyError:
         file_type = header["systems"]
 
-    if file_type == "G":
+    if file_type in ("G", " "):  # RINEX 2: blank means GPS
         ts = "GPS"
     elif file_type == "R":
         ts = "GLO"
diff --git a/src/georinex/obs2.py b/src/georinex/obs2.py
index a6428f3..d00ac65 100644
--- a/src/georinex/obs2.py
+++ b/src/georinex/obs2.py
@@ -389,7 +389,8 @@ def obsheader2(
             hdr[hd] += " " + c
     # %% useful values
     try:
-        hdr["systems"] = hdr["RINEX VERSION / TYPE"][40]
+        # CRINEX: blank system letter means GPS as in plain RINEX 2
+        hdr["systems"] = hdr["RINEX VERSION / TYPE"][40].replace(" ", "G")
     except KeyError:
         pass
 
-- 
2.43.0


From 1503baba8e7323fc9916e8f494493774b719383b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:01:06 +0000
Subject: [PATCH 12/17] fix: SP3 records belong to the satellite they name, not
 to the record count

---
 src/georinex/sp3.py | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/src/georinex/sp3.py b/src/georinex/sp3.py
index a0f0968..300f35b 100644
--- a/src/georinex/sp3.py
+++ b/src/georinex/sp3.py
@@ -67,7 +67,6 @@ def load_sp3(fn: Path, outfn: Path | None) -> xarray.Dataset:
         ecef = np.full((Nsv, 3), np.nan)
         clock = np.full((Nsv, 2), np.nan)
         vel = np.full((Nsv, 3), np.nan)
-        i = 0
 
         times = [sp3dt(ln)]
 
@@ -81,17 +80,17 @@ def load_sp3(fn: Path, outfn: Path | None) -> xarray.Dataset:
                 ecef = np.full((Nsv, 3), np.nan)
                 clock = np.full((Nsv, 2), np.nan)  # clock and clock rate-of-change
                 vel = np.full((Nsv, 3), np.nan)  # may not always have velocity
-
-                i = 0
                 continue
 
             if ln[0] == "P":
+                # an epoch need not have a record of every satellite
+                i = svs.index(ln[1:4].replace(" ", ""))
                 ecef[i, :] = (float(ln[4:18]), float(ln[18:32]), float(ln[32:46]))
                 clock[i, 0] = float(ln[46:60])
-                i += 1
             elif ln[0] == "V":
-                vel[i - 1, :] = (float(ln[4:18]), float(ln[18:32]), float(ln[32:46]))
-                clock[i - 1, 1] = float(ln[46:60])
+                i = svs.index(ln[1:4].replace(" ", ""))
+                vel[i, :] = (float(ln[4:18]), float(ln[18:32]), float(ln[32:46]))
+                clock[i, 1] = float(ln[46:60])
             elif ln.startswith(("EP", "EV")):
                 # let us know if you want these data types
                 pass
-- 
2.43.0


From ad65118f315ee372a7b76414afd9386a8773725f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:22:39 +0000
Subject: [PATCH 13/17] fix: first lines too short for a RINEX label were an
 IndexError, not a ValueError

---
 src/georinex/rio.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/georinex/rio.py b/src/georinex/rio.py
index f19faa7..d09d3ba 100644
--- a/src/georinex/rio.py
+++ b/src/georinex/rio.py
@@ -138,7 +138,7 @@ def first_nonblank_line(f: T.TextIO, max_lines: int = 10) -> str:
             break
 
     if _i is None or _i == max_lines - 1 or not line:
-        raise ValueError(f"could not find first valid header line in {f.name}")
+        raise ValueError(f"could not find first valid header line in {getattr(f, 'name', f)}")
 
     return line
 
@@ -200,7 +200,7 @@ def rinexinfo(f: T.TextIO | Path) -> dict[T.Hashable, T.Any]:
             "systems": system,
         }
 
-    except (TypeError, AttributeError, ValueError) as e:
+    except (TypeError, AttributeError, ValueError, IndexError, OverflowError) as e:
         # keep ValueError for consistent user error handling
         raise ValueError(f"not a known/valid RINEX file.  {e}")
 
-- 
2.43.0


From 99ab3ab57208a8b956f0a99af85088f12a6b8919 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:31:54 +0000
Subject: [PATCH 14/17] fix: compressed files read as the plain file does
 (non-ASCII bytes, line ends of .Z)

---
 src/georinex/rio.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/georinex/rio.py b/src/georinex/rio.py
index d09d3ba..079d2fb 100644
--- a/src/georinex/rio.py
+++ b/src/georinex/rio.py
@@ -50,7 +50,7 @@ def opener(fn: T.TextIO | Path, header: bool = False) -> T.Iterator[T.TextIO]:
         suffix = fn.suffix.lower()
 
         if suffix == ".gz" or magic.startswith(b"\x1f\x8b"):
-            with gzip.open(fn, "rt") as f:
+            with gzip.open(fn, "rt", encoding="ascii", errors="ignore") as f:
                 _, is_crinex = rinex_version(first_nonblank_line(f))
                 f.seek(0)
 
@@ -66,7 +66,7 @@ def opener(fn: T.TextIO | Path, header: bool = False) -> T.Iterator[T.TextIO]:
             """
             plain bzip2 files, NOT tar.bz2, which requires f.seek(512)
             """
-            with bz2.open(fn, "rt") as f:
+            with bz2.open(fn, "rt", encoding="ascii", errors="ignore") as f:
                 _, is_crinex = rinex_version(first_nonblank_line(f))
                 f.seek(0)
 
@@ -95,7 +95,10 @@ def opener(fn: T.TextIO | Path, header: bool = False) -> T.Iterator[T.TextIO]:
                 raise ImportError("ncompress unlzw not available")
 
             with fn.open("rb") as zu:
-                with io.StringIO(unlzw(zu.read()).decode("ascii")) as f:
+                # newline=None: universal newlines as for the other kinds of file
+                with io.StringIO(
+                    unlzw(zu.read()).decode("ascii", errors="ignore"), newline=None
+                ) as f:
                     _, is_crinex = rinex_version(first_nonblank_line(f))
                     f.seek(0)
 
-- 
2.43.0


From adb2693d482b881a5f803bcd10c71ba5a33b9ee5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:08 +0000
Subject: [PATCH 15/17] fix: blank RINEX 2 NAV fields in blank-padded lines
 raised ValueError

---
 src/georinex/nav2.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/georinex/nav2.py b/src/georinex/nav2.py
index aabef88..3bd06b2 100644
--- a/src/georinex/nav2.py
+++ b/src/georinex/nav2.py
@@ -174,7 +174,7 @@ def rinexnav2(fn: T.TextIO | Path, tlim: tuple[datetime, datetime] | None = None
             It assumes the blank is always in the last measurement for now.
             """
             dvec = [
-                float(raws[i][k * Lf : (k + 1) * Lf])
+                float(raws[i][k * Lf : (k + 1) * Lf].strip() or "nan")
                 for k in range(min(len(fields), len(raws[i]) // Lf))
             ]
             data[: len(dvec), it, j] = dvec
-- 
2.43.0


From bb15ea6479c031a47de82252371f7afaf574f380 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:24:50 +0000
Subject: [PATCH 16/17] fix: declared number of observables that does not match
 raised AttributeError for in-memory text

---
 src/georinex/obs2.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/georinex/obs2.py b/src/georinex/obs2.py
index d00ac65..21e0fcf 100644
--- a/src/georinex/obs2.py
+++ b/src/georinex/obs2.py
@@ -409,8 +409,9 @@ def obsheader2(
     try:
         hdr["fields"] = hdr["# / TYPES OF OBSERV"]
         if hdr["Nobs"] != len(hdr["fields"]):
+            # in-memory text (compressed input) has no file name
             logging.error(
-                f"{f.name} number of observations declared in header does not match fields"
+                f"{getattr(f, 'name', '')} number of observations declared in header does not match fields"
             )
             hdr["Nobs"] = len(hdr["fields"])
 
-- 
2.43.0


From d76acf2f16efdf2807a22d5e93fdcacf423e4311 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:11:43 +0000
Subject: [PATCH 17/17] fix: non-finite seconds in TIME OF FIRST/LAST OBS
 raised OverflowError out of header reading

---
 src/georinex/obs2.py | 2 +-
 src/georinex/obs3.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/georinex/obs2.py b/src/georinex/obs2.py
index 21e0fcf..9e18f47 100644
--- a/src/georinex/obs2.py
+++ b/src/georinex/obs2.py
@@ -545,7 +545,7 @@ def _timehdr(ln: str) -> datetime:
 
     try:
         second = int(float(ln[30:36]))
-    except ValueError:
+    except (ValueError, OverflowError):
         second = 0
 
     if not 0 <= second <= 59:
diff --git a/src/georinex/obs3.py b/src/georinex/obs3.py
index c7ab6b8..f4065af 100644
--- a/src/georinex/obs3.py
+++ b/src/georinex/obs3.py
@@ -344,7 +344,7 @@ def obsheader3(
             second=int(float(t0s[30:36])),
             microsecond=fractional_usec(t0s[30:43]),
         )
-    except (KeyError, ValueError):
+    except (KeyError, ValueError, OverflowError):
         pass
 
     try:
-- 
2.43.0

