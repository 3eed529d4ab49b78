From 67ce22b42b008a5547e0458518028492b81bb362 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:03:23 +0000
Subject: [PATCH 01/63] fix: RINEX 2 OBS satellite numbers above 36 (BeiDou,
 SBAS) raised IndexError

---
 src/georinex/obs2.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/georinex/obs2.py b/src/georinex/obs2.py
index 292db34..d340990 100644
--- a/src/georinex/obs2.py
+++ b/src/georinex/obs2.py
@@ -104,10 +104,11 @@ def rinexsystem2(
     Nsvsys may need updating as GNSS systems grow.
     Let us know if you needed to change them.
 
-    Beidou is 35 max
+    Beidou is 63 max
     Galileo is 36 max
+    SBAS is 58 max (PRN - 100)
     """
-    Nsvsys = 36
+    Nsvsys = 63
 
     hdr = obsheader2(fn, useindicators, meas)
 
-- 
2.43.0


From ccb2212c1a393afc8a0f326cfb62b87dc7109bb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:03:23 +0000
Subject: [PATCH 02/63] fix: fractional seconds were truncated, off by one
 microsecond (or sub-millisecond part lost)

---
 src/georinex/nav2.py | 4 ++--
 src/georinex/nav3.py | 2 +-
 src/georinex/obs2.py | 6 +++---
 src/georinex/obs3.py | 6 +++---
 4 files changed, 9 insertions(+), 9 deletions(-)

diff --git a/src/georinex/nav2.py b/src/georinex/nav2.py
index de985d8..3b7219a 100644
--- a/src/georinex/nav2.py
+++ b/src/georinex/nav2.py
@@ -246,7 +246,7 @@ def _timenav(ln: str) -> datetime:
         hour=int(ln[12:14]),
         minute=int(ln[15:17]),
         second=int(float(ln[17:20])),
-        microsecond=int(float(ln[17:22]) % 1 * 1000000),
+        microsecond=min(round(float(ln[17:22]) % 1 * 1000000), 999999),
     )
 
 
@@ -277,4 +277,4 @@ def navtime2(fn: T.TextIO | Path):
 
             _skip(f, Nl[hdr["systems"]])
 
-    return np.unique(np.asarray(times, dtype="datetime64[ms]"))
+    return np.unique(np.asarray(times, dtype="datetime64[us]"))
diff --git a/src/georinex/nav3.py b/src/georinex/nav3.py
index aa936f8..28b8563 100644
--- a/src/georinex/nav3.py
+++ b/src/georinex/nav3.py
@@ -531,4 +531,4 @@ def navtime3(fn: T.TextIO | Path):
             times.append(time)
             _skip(f, Nl[line[0]])  # different system types skip different line counts
 
-    return np.unique(np.asarray(times, dtype="datetime64[ms]"))
+    return np.unique(np.asarray(times, dtype="datetime64[us]"))
diff --git a/src/georinex/obs2.py b/src/georinex/obs2.py
index d340990..b16f2c4 100644
--- a/src/georinex/obs2.py
+++ b/src/georinex/obs2.py
@@ -518,7 +518,7 @@ def obstime2(fn: T.TextIO | Path, verbose: bool = False):
 
             _skip(f, ln, hdr["Nl_sv"])
 
-    times = np.asarray(times, dtype="datetime64[ms]")
+    times = np.asarray(times, dtype="datetime64[us]")
 
     check_unique_times(times)
 
@@ -552,7 +552,7 @@ def _timehdr(ln: str) -> datetime:
         second = 0
 
     try:
-        usec = int(float(ln[30:43]) % 1 * 1000000)
+        usec = min(round(float(ln[30:43]) % 1 * 1000000), 999999)
     except ValueError:
         usec = 0
 
@@ -578,7 +578,7 @@ def _timeobs(ln: str) -> datetime:
         year += 1900
 
     try:
-        usec = int(float(ln[16:26]) % 1 * 1000000)
+        usec = min(round(float(ln[16:26]) % 1 * 1000000), 999999)
     except ValueError:
         usec = 0
 
diff --git a/src/georinex/obs3.py b/src/georinex/obs3.py
index a68dc21..c76c06a 100644
--- a/src/georinex/obs3.py
+++ b/src/georinex/obs3.py
@@ -179,7 +179,7 @@ def _timeobs(ln: str) -> datetime:
         hour=int(ln[13:15]),
         minute=int(ln[16:18]),
         second=int(ln[19:21]),
-        microsecond=int(float(ln[19:29]) % 1 * 1000000),
+        microsecond=min(round(float(ln[19:29]) % 1 * 1000000), 999999),
     )
 
 
@@ -199,7 +199,7 @@ def obstime3(fn: T.TextIO | Path, verbose: bool = False):
                     logging.debug(f"was not a time:\n{ln}")
                     continue
 
-    times = np.asarray(times, dtype="datetime64[ms]")
+    times = np.asarray(times, dtype="datetime64[us]")
 
     check_unique_times(times)
 
@@ -337,7 +337,7 @@ def obsheader3(
             hour=int(t0s[18:24]),
             minute=int(t0s[24:30]),
             second=int(float(t0s[30:36])),
-            microsecond=int(float(t0s[30:43]) % 1 * 1000000),
+            microsecond=min(round(float(t0s[30:43]) % 1 * 1000000), 999999),
         )
     except (KeyError, ValueError):
         pass
-- 
2.43.0


From cb5682fc4e77f4b38f0da6c8078a9105d0759c39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:03:23 +0000
Subject: [PATCH 03/63] fix: RINEX 2 OBS interval decimation without fast mode
 paired data with wrong times

---
 src/georinex/obs2.py | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/src/georinex/obs2.py b/src/georinex/obs2.py
index b16f2c4..3f2538a 100644
--- a/src/georinex/obs2.py
+++ b/src/georinex/obs2.py
@@ -170,13 +170,13 @@ def rinexsystem2(
             if verbose:
                 print(time_epoch, end="\r")
 
-            if fast:
-                try:
-                    times[j] = time_epoch
-                except IndexError as e:
-                    raise IndexError(
-                        f'may be "fast" mode bug, try fast=False or "-strict" command-line option {e}'
-                    )
+            # in strict mode too, else times do not match data when decimating by interval
+            try:
+                times[j] = time_epoch
+            except IndexError as e:
+                raise IndexError(
+                    f'may be "fast" mode bug, try fast=False or "-strict" command-line option {e}'
+                )
             # %% Does anyone need this?
             #            try:
             #                toffset = ln[68:80]
@@ -253,6 +253,7 @@ def rinexsystem2(
                 else:
                     data[i, j, isv] = darr[:, k]
     # %% output gathering
+    times = times[: j + 1]
     data = data[:, : times.size, :]  # trims down for unneeded preallocated
 
     fields = []
-- 
2.43.0


From a344c061e74f9bebdb0ef0679e8f115762aec26b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:03:23 +0000
Subject: [PATCH 04/63] fix: RINEX 2 OBS with blank satellite system (GPS) lost
 all data

---
 src/georinex/common.py | 2 +-
 src/georinex/obs2.py   | 2 +-
 src/georinex/rio.py    | 3 +++
 3 files changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/georinex/common.py b/src/georinex/common.py
index 97bc0af..36aa245 100644
--- a/src/georinex/common.py
+++ b/src/georinex/common.py
@@ -52,7 +52,7 @@ def determine_time_system(header: dict[T.Hashable, T.Any]) -> str:
     except KeyError:
         file_type = header["systems"]
 
-    if file_type == "G":
+    if file_type in {"G", " "}:  # blank means GPS in RINEX 1, 2
         ts = "GPS"
     elif file_type == "R":
         ts = "GLO"
diff --git a/src/georinex/obs2.py b/src/georinex/obs2.py
index 3f2538a..c7982fc 100644
--- a/src/georinex/obs2.py
+++ b/src/georinex/obs2.py
@@ -393,7 +393,7 @@ def obsheader2(
             hdr[hd] += " " + c
     # %% useful values
     try:
-        hdr["systems"] = hdr["RINEX VERSION / TYPE"][40]
+        hdr["systems"] = hdr["RINEX VERSION / TYPE"][40].strip() or "G"
     except KeyError:
         pass
 
diff --git a/src/georinex/rio.py b/src/georinex/rio.py
index cae2bde..9d68f92 100644
--- a/src/georinex/rio.py
+++ b/src/georinex/rio.py
@@ -180,6 +180,9 @@ def rinexinfo(f: T.TextIO | Path) -> dict[T.Hashable, T.Any]:
         else:
             system = line[40]
 
+        if system == " " and int(version) < 3:
+            system = "G"  # blank means GPS in RINEX 1, 2
+
         if line[20] in ("O", "C"):
             rinex_type = "obs"
         elif line[20] == "N" or "NAV" in line[20:40]:
-- 
2.43.0


From 87aea568f078eb93b90ecaad6eed512d50b37230 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:03:23 +0000
Subject: [PATCH 05/63] fix: OBS files of SBAS payload raised ValueError for
 time system

---
 src/georinex/common.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/georinex/common.py b/src/georinex/common.py
index 36aa245..bafe86a 100644
--- a/src/georinex/common.py
+++ b/src/georinex/common.py
@@ -64,6 +64,8 @@ def determine_time_system(header: dict[T.Hashable, T.Any]) -> str:
         ts = "BDT"
     elif file_type == "I":
         ts = "IRN"
+    elif file_type == "S":  # SBAS payload uses GPS time
+        ts = "GPS"
     elif file_type == "M":
         # Else the type is mixed and the time system must be specified in
         # TIME OF FIRST OBS row.
-- 
2.43.0


From a1acb487fdc3695b731a04461daa14b52b4713d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:05:10 +0000
Subject: [PATCH 06/63] fix: RINEX 3 OBS truncated or without final newline
 raised IndexError, 100 or more satellites lost data

---
 src/georinex/obs3.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/georinex/obs3.py b/src/georinex/obs3.py
index c76c06a..d343d0e 100644
--- a/src/georinex/obs3.py
+++ b/src/georinex/obs3.py
@@ -98,10 +98,12 @@ def rinexobs3(
             sv = []
             raw = ""
             # Number of visible satellites this time %i3  pg. A13
-            for _ in range(int(ln[33:35])):
+            for _ in range(int(ln[32:35])):
                 ln = f.readline()
+                if not ln.strip():  # file truncated in this epoch
+                    break
                 sv.append(ln[:3])
-                raw += ln[3:]
+                raw += ln[3:].rstrip("\n") + "\n"  # maybe no newline at end of file
 
             if tlim is not None:
                 if time < tlim[0]:
-- 
2.43.0


From 9accd3447b48b5aaf0c077b3a0804381c2b11f92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:05:10 +0000
Subject: [PATCH 07/63] fix: RINEX 3 OBS event records ended the read early or
 became epochs and satellites

---
 src/georinex/obs3.py | 32 ++++++++++++++++++++++++++++++--
 1 file changed, 30 insertions(+), 2 deletions(-)

diff --git a/src/georinex/obs3.py b/src/georinex/obs3.py
index d343d0e..1d5cffc 100644
--- a/src/georinex/obs3.py
+++ b/src/georinex/obs3.py
@@ -81,8 +81,11 @@ def rinexobs3(
         # %% process OBS file
         time_offset = []
         for ln in f:
-            if not ln.startswith(">"):  # end of file
-                break
+            if not ln.startswith(">"):  # not an epoch, resume at next epoch
+                continue
+
+            if _skip_event(f, ln):
+                continue
 
             try:
                 time = _timeobs(ln)
@@ -166,6 +169,25 @@ def rinexobs3(
     return data
 
 
+def _skip_event(f: T.TextIO, ln: str) -> bool:
+    """
+    epoch flag 2..5 is an event, followed by special records instead of observations.
+    The event time is optional.   pg. A13
+    """
+    if ln[31:32] not in {"2", "3", "4", "5"}:
+        return False
+
+    try:
+        Nrec = int(ln[32:35])
+    except ValueError:
+        Nrec = 0
+
+    for _ in range(Nrec):
+        f.readline()
+
+    return True
+
+
 def _timeobs(ln: str) -> datetime:
     """
     convert time from RINEX 3 OBS text to datetime
@@ -193,8 +215,14 @@ def obstime3(fn: T.TextIO | Path, verbose: bool = False):
     times = []
 
     with opener(fn) as f:
+        for ln in f:
+            if "END OF HEADER" in ln:
+                break
+
         for ln in f:
             if ln.startswith("> "):
+                if _skip_event(f, ln):
+                    continue
                 try:
                     times.append(_timeobs(ln))
                 except (ValueError, IndexError):
-- 
2.43.0


From ff9d30bbb9e4541ae526493179da6e9a9b870869 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:05:10 +0000
Subject: [PATCH 08/63] fix: RINEX 2 OBS event with special records (epoch flag
 5) took following epochs for satellites

---
 src/georinex/obs2.py | 23 ++++++++++++++++++++++-
 1 file changed, 22 insertions(+), 1 deletion(-)

diff --git a/src/georinex/obs2.py b/src/georinex/obs2.py
index c7982fc..7f5dbed 100644
--- a/src/georinex/obs2.py
+++ b/src/georinex/obs2.py
@@ -145,6 +145,7 @@ def rinexsystem2(
             try:
                 time_epoch = _timeobs(ln)
             except ValueError:
+                _skip_event(f, ln)
                 continue
 
             if tlim is not None:
@@ -513,6 +514,7 @@ def obstime2(fn: T.TextIO | Path, verbose: bool = False):
             try:
                 time_epoch = _timeobs(ln)
             except ValueError:
+                _skip_event(f, ln)
                 continue
 
             times.append(time_epoch)
@@ -538,6 +540,24 @@ def _skip(f: T.TextIO, ln: str, Nl_sv: int, sv: list[str] | None = None):
         f.readline()
 
 
+def _skip_event(f: T.TextIO, ln: str):
+    """
+    skip the special records following an event (epoch flag 2..5), whose time is optional
+    """
+    if ln[28:29] not in {"2", "3", "4", "5"}:
+        return
+
+    try:
+        if ln[:28].strip():
+            _timeobs(ln[:28] + "0")
+        Nrec = int(ln[29:32])
+    except ValueError:  # garbage, not an event
+        return
+
+    for _ in range(Nrec):
+        f.readline()
+
+
 def _timehdr(ln: str) -> datetime:
     """
     handles malformed header dates
@@ -594,7 +614,7 @@ def _timeobs(ln: str) -> datetime:
     )
     # %% check if valid time
     eflag = int(ln[28])
-    if eflag not in {0, 1, 5, 6}:  # EPOCH FLAG
+    if eflag not in {0, 1, 6}:  # EPOCH FLAG, 2..5 are events
         raise ValueError(f"{t}: epoch flag {eflag}")
 
     return t
@@ -628,6 +648,7 @@ def _fast_alloc(fn: T.TextIO | Path, Nl_sv: int) -> int:
             try:
                 t = _timeobs(ln)
             except ValueError:
+                _skip_event(f, ln)
                 continue
 
             if isinstance(t, datetime):
-- 
2.43.0


From a3f0c3ebc69518e2759c6cfe88918e2bbdfc4117 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:05:10 +0000
Subject: [PATCH 09/63] fix: RINEX 2 OBS truncated in satellite list raised
 IndexError

---
 src/georinex/obs2.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/georinex/obs2.py b/src/georinex/obs2.py
index 7f5dbed..c3bb43c 100644
--- a/src/georinex/obs2.py
+++ b/src/georinex/obs2.py
@@ -491,6 +491,9 @@ def _getSVlist(ln: str, N: int, sv: list[str]) -> list[str]:
     """parse a line of text from RINEX2 SV list"""
     sv.extend([ln[32 + i * 3 : 35 + i * 3] for i in range(N)])
 
+    if not all(s.strip() for s in sv):
+        raise ValueError(f"satellite index line truncated:  {ln}")
+
     # compatibility for early rinex where a space
     # in SSI position is assumed to be GPS
     for i, s in enumerate(sv):
@@ -533,7 +536,11 @@ def _skip(f: T.TextIO, ln: str, Nl_sv: int, sv: list[str] | None = None):
     skip ahead to next time step
     """
     if sv is None:
-        sv = _getsvind(f, ln)
+        try:
+            sv = _getsvind(f, ln)
+        except ValueError as e:
+            logging.debug(e)
+            return
 
     # f.seek(len(sv)*Nl_sv*80, 1)  # not for io.TextIOWrapper ?
     for _ in range(len(sv) * Nl_sv):
-- 
2.43.0


From b93092aa5ade545d951c0a13d0d26a0265d5f61b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:05:29 +0000
Subject: [PATCH 10/63] fix: RINEX 2 OBS epoch line cut after the time raised
 IndexError

---
 src/georinex/obs2.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/georinex/obs2.py b/src/georinex/obs2.py
index c3bb43c..dd5a849 100644
--- a/src/georinex/obs2.py
+++ b/src/georinex/obs2.py
@@ -620,7 +620,7 @@ def _timeobs(ln: str) -> datetime:
         microsecond=usec,
     )
     # %% check if valid time
-    eflag = int(ln[28])
+    eflag = int(ln[28:29])
     if eflag not in {0, 1, 6}:  # EPOCH FLAG, 2..5 are events
         raise ValueError(f"{t}: epoch flag {eflag}")
 
-- 
2.43.0


From 0a0ba5b6d94956dfe81427d10274dc7ad3809bd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:08:12 +0000
Subject: [PATCH 11/63] fix: lower case exponent letter d in NAV files raised
 ValueError

---
 src/georinex/common.py | 2 +-
 src/georinex/nav2.py   | 2 +-
 src/georinex/nav3.py   | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/georinex/common.py b/src/georinex/common.py
index bafe86a..a4dd50a 100644
--- a/src/georinex/common.py
+++ b/src/georinex/common.py
@@ -24,7 +24,7 @@ def check_unique_times(times: np.ndarray) -> bool:
 
 
 def rinex_string_to_float(s: str) -> float:
-    return float(s.replace("D", "E"))
+    return float(s.upper().replace("D", "E"))
 
 
 def check_ram(memneed: int, fn: T.TextIO | Path):
diff --git a/src/georinex/nav2.py b/src/georinex/nav2.py
index 3b7219a..d54cb8f 100644
--- a/src/georinex/nav2.py
+++ b/src/georinex/nav2.py
@@ -148,7 +148,7 @@ def rinexnav2(fn: T.TextIO | Path, tlim: tuple[datetime, datetime] | None = None
             # one line per SV
             # Sebastijan also added .replace('  ', ' ').replace(' -', '-') here,
             # I didn't add that yet because I don't know if it's generally needed.
-            raws.append(raw.replace("D", "E").replace("\n", ""))
+            raws.append(raw.upper().replace("D", "E").replace("\n", ""))
 
     # %% parse collected data lines per SV
     svs = [s.replace(" ", "0") for s in svs]
diff --git a/src/georinex/nav3.py b/src/georinex/nav3.py
index 28b8563..c532882 100644
--- a/src/georinex/nav3.py
+++ b/src/georinex/nav3.py
@@ -77,7 +77,7 @@ def rinexnav3(
             for _, ln in zip(range(Nl[sv[0]]), f):
                 raw += ln[STARTCOL3:80]
             # one line per SV
-            raws.append(raw.replace("D", "E").replace("\n", ""))
+            raws.append(raw.upper().replace("D", "E").replace("\n", ""))
 
     # %% parse collected data per SV
     # NOTE: must be 'ns' or .to_netcdf will fail!
-- 
2.43.0


From 3bd06168ae38cf85c629e14b91397ae4f30836d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:08:13 +0000
Subject: [PATCH 12/63] fix: RINEX 3 NAV last fields were lost if the first
 record of a satellite omitted them

---
 src/georinex/nav3.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/georinex/nav3.py b/src/georinex/nav3.py
index c532882..b62e88e 100644
--- a/src/georinex/nav3.py
+++ b/src/georinex/nav3.py
@@ -95,7 +95,7 @@ def rinexnav3(
             duplicate = tu.size != t[svi][check].size
 
             full_fields = fields[sv[0]]
-            compact_fields = _sparefields(full_fields, sys=sv[0], N=_num_fields(raws[svi[0]]))
+            compact_fields = _sparefields(full_fields, sys=sv[0], N=max(_num_fields(raws[i]) for i in svi))
             compact_index = [i for i, c in enumerate(full_fields) if c in compact_fields]
 
             darr = np.empty((svi.size, len(full_fields)))
-- 
2.43.0


From b217d0866b54b335dd769ea27efa9d255f2b9c28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:08:13 +0000
Subject: [PATCH 13/63] fix: RINEX 3 NAV file truncated within a record raised
 ValueError or made up zeros

---
 src/georinex/nav3.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/georinex/nav3.py b/src/georinex/nav3.py
index b62e88e..fea640a 100644
--- a/src/georinex/nav3.py
+++ b/src/georinex/nav3.py
@@ -58,6 +58,11 @@ def rinexnav3(
                 _skip(f, Nl[sv[0]])
                 continue
 
+            lines = [ln for _, ln in zip(range(Nl[sv[0]]), f)]
+            if len(lines) < Nl[sv[0]]:
+                logging.info(f"discarding incomplete record of {sv} at end of file")
+                break
+
             times.append(time)
             # %% SV types
             if len(svtypes) == 0:
@@ -74,7 +79,7 @@ def rinexnav3(
             # %% get the data as one big long string per SV, unknown # of lines per SV
             raw = line[23:80]  # NOTE: 80, files put data in the last column!
 
-            for _, ln in zip(range(Nl[sv[0]]), f):
+            for ln in lines:
                 raw += ln[STARTCOL3:80]
             # one line per SV
             raws.append(raw.upper().replace("D", "E").replace("\n", ""))
-- 
2.43.0


From 82247a5fda184d4c2898d130f01efbe997598846 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:08:13 +0000
Subject: [PATCH 14/63] fix: RINEX 3 NAV satellite and variable order depended
 on the hash seed

---
 src/georinex/nav3.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/georinex/nav3.py b/src/georinex/nav3.py
index fea640a..1127719 100644
--- a/src/georinex/nav3.py
+++ b/src/georinex/nav3.py
@@ -89,7 +89,7 @@ def rinexnav3(
     t = np.array([np.datetime64(t, "ns") for t in times])
     nav = xarray.Dataset({}, coords={"time": [], "sv": []})
 
-    for sv in set(svs):
+    for sv in sorted(set(svs)):
         svi = np.array([i for i, s in enumerate(svs) if s == sv])
 
         check = np.array([True] * t[svi].size)
-- 
2.43.0


From b27e3d50ece77606791287d5d328fe50594131cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:10:39 +0000
Subject: [PATCH 15/63] fix: time limits given as text were compared as text,
 refusing windows written with different precision

---
 src/georinex/base.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/georinex/base.py b/src/georinex/base.py
index 60f079a..4efa0e1 100644
--- a/src/georinex/base.py
+++ b/src/georinex/base.py
@@ -56,6 +56,7 @@ def load(
     if tlim is not None:
         if len(tlim) != 2:
             raise ValueError("time bounds are specified as start stop")
+        tlim = _tlim(tlim)  # compare times, not text
         if tlim[1] < tlim[0]:
             raise ValueError("stop time must be after start time")
 
-- 
2.43.0


From 27abc6ca34c6f5c06fb137fd243b03202aa006eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:10:39 +0000
Subject: [PATCH 16/63] fix: negative timedelta interval was not refused

---
 src/georinex/common.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/georinex/common.py b/src/georinex/common.py
index a4dd50a..1075be0 100644
--- a/src/georinex/common.py
+++ b/src/georinex/common.py
@@ -82,7 +82,8 @@ def check_time_interval(interval: float | int | timedelta | None) -> timedelta |
             raise ValueError("time interval must be non-negative")
         interval = timedelta(seconds=interval)
     elif isinstance(interval, timedelta):
-        pass
+        if interval < timedelta(0):
+            raise ValueError("time interval must be non-negative")
     elif interval is None:
         pass
     else:
-- 
2.43.0


From c67555a38ebc0dbb3387a0ddeb169b405aa03a63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:12:10 +0000
Subject: [PATCH 17/63] fix: SP3 values absent from the file were arbitrary,
 values were assigned by line order instead of satellite

---
 src/georinex/sp3.py | 22 ++++++++++------------
 1 file changed, 10 insertions(+), 12 deletions(-)

diff --git a/src/georinex/sp3.py b/src/georinex/sp3.py
index 6408077..34a7544 100644
--- a/src/georinex/sp3.py
+++ b/src/georinex/sp3.py
@@ -63,10 +63,9 @@ def load_sp3(fn: Path, outfn: Path | None) -> xarray.Dataset:
         ecefs = []
         clocks = []
         vels = []
-        ecef = np.empty((Nsv, 3))
-        clock = np.empty((Nsv, 2))
-        vel = np.empty((Nsv, 3))
-        i = 0
+        ecef = np.full((Nsv, 3), np.nan)
+        clock = np.full((Nsv, 2), np.nan)
+        vel = np.full((Nsv, 3), np.nan)
 
         times = [sp3dt(ln)]
 
@@ -77,22 +76,21 @@ def load_sp3(fn: Path, outfn: Path | None) -> xarray.Dataset:
                 clocks.append(clock)
                 vels.append(vel)
 
-                ecef = np.empty((Nsv, 3))
-                clock = np.empty((Nsv, 2))  # clock and clock rate-of-change
+                ecef = np.full((Nsv, 3), np.nan)
+                clock = np.full((Nsv, 2), np.nan)  # clock and clock rate-of-change
 
-                vel = np.empty((Nsv, 3))
-                vel.fill(np.nan)  # may not always have velocity
+                vel = np.full((Nsv, 3), np.nan)  # may not always have velocity
 
-                i = 0
                 continue
 
             if ln[0] == "P":
+                i = svs.index(ln[1:4].replace(" ", ""))
                 ecef[i, :] = (float(ln[4:18]), float(ln[18:32]), float(ln[32:46]))
                 clock[i, 0] = float(ln[46:60])
-                i += 1
             elif ln[0] == "V":
-                vel[i - 1, :] = (float(ln[4:18]), float(ln[18:32]), float(ln[32:46]))
-                clock[i - 1, 1] = float(ln[46:60])
+                i = svs.index(ln[1:4].replace(" ", ""))
+                vel[i, :] = (float(ln[4:18]), float(ln[18:32]), float(ln[32:46]))
+                clock[i, 1] = float(ln[46:60])
             elif ln.startswith(("EP", "EV")):
                 # let us know if you want these data types
                 pass
-- 
2.43.0


From eedc2cf3343815abe70b62939f1e9b3bc734dea1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:52 +0000
Subject: [PATCH 18/63] fix: RINEX 3 NAV blank fields trimmed at line ends, or
 spare fields differing between records, shifted later values

---
 src/georinex/nav3.py | 32 +++++++++++++++++++++++---------
 1 file changed, 23 insertions(+), 9 deletions(-)

diff --git a/src/georinex/nav3.py b/src/georinex/nav3.py
index 1127719..69c67ca 100644
--- a/src/georinex/nav3.py
+++ b/src/georinex/nav3.py
@@ -13,6 +13,7 @@ from .common import rinex_string_to_float
 # constants
 STARTCOL3 = 4  # column where numerical data starts for RINEX 3
 Nl = {"C": 7, "E": 7, "G": 7, "J": 7, "R": 3, "S": 3, "I": 7}  # number of additional SV lines
+Nmin = {"C": 27, "E": 27, "G": 28, "J": 28, "R": 15, "S": 15, "I": 28}  # fields without spares
 LF = 19  # string length per field
 
 __all__ = ["rinexnav3", "navheader3", "navtime3"]
@@ -77,12 +78,17 @@ def rinexnav3(
             # patch SV names in case of "G 7" => "G07"
 
             # %% get the data as one big long string per SV, unknown # of lines per SV
-            raw = line[23:80]  # NOTE: 80, files put data in the last column!
-
-            for ln in lines:
-                raw += ln[STARTCOL3:80]
+            raw = f"{line[23:80].rstrip():57s}"  # NOTE: 80, files put data in the last column!
+
+            for i, ln in enumerate(lines):
+                ln = ln[STARTCOL3:80].rstrip()
+                # blank fields at the end of a line may be trimmed,
+                # but spare fields of the IDOT line may be left out (see _sparefields)
+                if not (sv[0] in {"C", "E"} and i == 4):
+                    ln = f"{ln:76s}"
+                raw += ln
             # one line per SV
-            raws.append(raw.upper().replace("D", "E").replace("\n", ""))
+            raws.append(raw.upper().replace("D", "E"))
 
     # %% parse collected data per SV
     # NOTE: must be 'ns' or .to_netcdf will fail!
@@ -100,20 +106,28 @@ def rinexnav3(
             duplicate = tu.size != t[svi][check].size
 
             full_fields = fields[sv[0]]
-            compact_fields = _sparefields(full_fields, sys=sv[0], N=max(_num_fields(raws[i]) for i in svi))
-            compact_index = [i for i, c in enumerate(full_fields) if c in compact_fields]
-
             darr = np.empty((svi.size, len(full_fields)))
             darr.fill(np.nan)
 
+            compact_indices = []
+            for i in svi:  # each record may have other spare fields
+                N = max(_num_fields(raws[i]), Nmin[sv[0]])
+                compact_fields = _sparefields(full_fields, sys=sv[0], N=N)
+                compact_indices.append([k for k, c in enumerate(full_fields) if c in compact_fields])
+
             for j, i in enumerate(svi):
+                compact_index = compact_indices[j]
                 try:
-                    darr[j, compact_index] = [
+                    vals = [
                         float(raws[i][LF * k : LF * (k + 1)].strip() or 0)
                         for k in range(len(compact_index))
                     ]
                 except ValueError:
                     logging.info(f"malformed line for {sv}")
+                    continue
+
+                darr[j, sorted(set().union(*compact_indices))] = 0  # not in this record
+                darr[j, compact_index] = vals
 
             # %% discard duplicated times
             darr = darr[check, :][iu, :]
-- 
2.43.0


From 41bb7c16aa9f852ad62cf0707693741dc9693590 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:36 +0000
Subject: [PATCH 19/63] fix: RINEX 2 NAV blank trailing fields written as
 blanks raised ValueError, trimmed ones shifted later values

---
 src/georinex/nav2.py | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/src/georinex/nav2.py b/src/georinex/nav2.py
index d54cb8f..a6931db 100644
--- a/src/georinex/nav2.py
+++ b/src/georinex/nav2.py
@@ -141,14 +141,19 @@ def rinexnav2(fn: T.TextIO | Path, tlim: tuple[datetime, datetime] | None = None
 
             times.append(time)
             # %% read the data as one big long string per SV
-            raw = ln[22:79]
+            raw = f"{ln[22:79].rstrip():57s}"
             # NOTE: MUST be 79, not 80 due to some files that put \n a character early!
-            for _ in range(Nl[header["systems"]]):
-                raw += f.readline()[STARTCOL2:79]
+            for i in range(Nl[header["systems"]]):
+                ln = f.readline()[STARTCOL2:79].rstrip()
+                # blank fields at the end of a line may be trimmed or not,
+                # but Galileo has no spare field in the IDOT line
+                if not (svtype == "E" and i == 4):
+                    ln = f"{ln:76s}"
+                raw += ln
             # one line per SV
             # Sebastijan also added .replace('  ', ' ').replace(' -', '-') here,
             # I didn't add that yet because I don't know if it's generally needed.
-            raws.append(raw.upper().replace("D", "E").replace("\n", ""))
+            raws.append(raw.upper().replace("D", "E").rstrip())
 
     # %% parse collected data lines per SV
     svs = [s.replace(" ", "0") for s in svs]
@@ -174,7 +179,7 @@ def rinexnav2(fn: T.TextIO | Path, tlim: tuple[datetime, datetime] | None = None
             It assumes the blank is always in the last measurement for now.
             """
             dvec = [
-                float(raws[i][k * Lf : (k + 1) * Lf])
+                float(raws[i][k * Lf : (k + 1) * Lf].strip() or np.nan)
                 for k in range(min(len(fields), len(raws[i]) // Lf))
             ]
             data[: len(dvec), it, j] = dvec
-- 
2.43.0


From d671ed3e7f0d5fabee49c5dc4fe23a6284b71415 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:27 +0000
Subject: [PATCH 20/63] fix: header lines longer than 80 characters (trailing
 blanks, carriage return) broke SP3 reading and header of streams

---
 src/georinex/rio.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/georinex/rio.py b/src/georinex/rio.py
index 9d68f92..3e9ff42 100644
--- a/src/georinex/rio.py
+++ b/src/georinex/rio.py
@@ -129,6 +129,8 @@ def first_nonblank_line(f: T.TextIO, max_lines: int = 10) -> str:
 
     for _i in range(max_lines):
         line = f.readline(81)
+        if len(line) == 81 and not line.endswith("\n"):
+            f.readline()  # rest of line, e.g. trailing blanks or carriage return
         if line.strip():
             break
 
-- 
2.43.0


From f23767577c630fcddae013f47137c3fe1bb33a3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:28 +0000
Subject: [PATCH 21/63] fix: non-ASCII bytes or Windows line ends in gzip,
 bzip2 and LZW files raised or changed the header

---
 src/georinex/rio.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/georinex/rio.py b/src/georinex/rio.py
index 3e9ff42..1a8951b 100644
--- a/src/georinex/rio.py
+++ b/src/georinex/rio.py
@@ -50,7 +50,7 @@ def opener(fn: T.TextIO | Path, header: bool = False) -> T.Iterator[T.TextIO]:
         suffix = fn.suffix.lower()
 
         if suffix == ".gz" or magic.startswith(b"\x1f\x8b"):
-            with gzip.open(fn, "rt") as f:
+            with gzip.open(fn, "rt", encoding="ascii", errors="ignore") as f:
                 _, is_crinex = rinex_version(first_nonblank_line(f))
                 f.seek(0)
 
@@ -66,7 +66,7 @@ def opener(fn: T.TextIO | Path, header: bool = False) -> T.Iterator[T.TextIO]:
             """
             plain bzip2 files, NOT tar.bz2, which requires f.seek(512)
             """
-            with bz2.open(fn, "rt") as f:
+            with bz2.open(fn, "rt", encoding="ascii", errors="ignore") as f:
                 _, is_crinex = rinex_version(first_nonblank_line(f))
                 f.seek(0)
 
@@ -90,7 +90,10 @@ def opener(fn: T.TextIO | Path, header: bool = False) -> T.Iterator[T.TextIO]:
                 raise ImportError("ncompress unlzw not available")
 
             with fn.open("rb") as zu:
-                with io.StringIO(unlzw(zu.read()).decode("ascii")) as f:
+                zt = io.TextIOWrapper(
+                    io.BytesIO(unlzw(zu.read())), encoding="ascii", errors="ignore"
+                )
+                with io.StringIO(zt.read()) as f:
                     _, is_crinex = rinex_version(first_nonblank_line(f))
                     f.seek(0)
 
-- 
2.43.0


From da226d972d11052dcb05f5d2ed4f99729b7a6730 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:28 +0000
Subject: [PATCH 22/63] fix: Hatanaka files in zip were not decompressed

---
 src/georinex/rio.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/georinex/rio.py b/src/georinex/rio.py
index 1a8951b..bb5f82f 100644
--- a/src/georinex/rio.py
+++ b/src/georinex/rio.py
@@ -84,6 +84,14 @@ def opener(fn: T.TextIO | Path, header: bool = False) -> T.Iterator[T.TextIO]:
                         f = io.StringIO(
                             io.TextIOWrapper(bf, encoding="ascii", errors="ignore").read()  # type: ignore
                         )
+                        _, is_crinex = rinex_version(first_nonblank_line(f))
+                        f.seek(0)
+
+                        if is_crinex and not header:
+                            """
+                            zip compressed CRINEX
+                            """
+                            f = io.StringIO(crx2rnx(f.read()))
                         yield f
         elif suffix == ".z" or magic.startswith(b"\x1f\x9d"):
             if unlzw is None:
-- 
2.43.0


From 5f9d4e71854a7ef935971fc1871f5b0ed621435e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:28 +0000
Subject: [PATCH 23/63] fix: SP3 satellite numbers padded with blank were not
 named as other satellite numbers

---
 src/georinex/sp3.py | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/src/georinex/sp3.py b/src/georinex/sp3.py
index 34a7544..4f2069e 100644
--- a/src/georinex/sp3.py
+++ b/src/georinex/sp3.py
@@ -84,11 +84,11 @@ def load_sp3(fn: Path, outfn: Path | None) -> xarray.Dataset:
                 continue
 
             if ln[0] == "P":
-                i = svs.index(ln[1:4].replace(" ", ""))
+                i = svs.index(_svname(ln[1:4]))
                 ecef[i, :] = (float(ln[4:18]), float(ln[18:32]), float(ln[32:46]))
                 clock[i, 0] = float(ln[46:60])
             elif ln[0] == "V":
-                i = svs.index(ln[1:4].replace(" ", ""))
+                i = svs.index(_svname(ln[1:4]))
                 vel[i, :] = (float(ln[4:18]), float(ln[18:32]), float(ln[32:46]))
                 clock[i, 1] = float(ln[46:60])
             elif ln.startswith(("EP", "EV")):
@@ -175,6 +175,16 @@ def get_sv(ln: str, Nsv: int) -> list[str]:
     i0 = 9
     svs = []
     for i in range(min(Nsv, 17)):
-        svs.append(ln[i0 + i * 3 : (i0 + 3) + i * 3].replace(" ", ""))
+        svs.append(_svname(ln[i0 + i * 3 : (i0 + 3) + i * 3]))
 
     return svs
+
+
+def _svname(s: str) -> str:
+    """
+    "G 7" => "G07".   SP3-a has only numbers
+    """
+    if s[:1].isalpha():
+        return s.strip().replace(" ", "0")
+
+    return s.replace(" ", "")
-- 
2.43.0


From 4c1cbfd47b6c6dcda5db534718c6178b247ababb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:22 +0000
Subject: [PATCH 24/63] fix: NetCDF file with OBS and NAV groups raised
 AttributeError

---
 src/georinex/base.py |  2 +-
 src/georinex/rio.py  | 11 +++++++----
 2 files changed, 8 insertions(+), 5 deletions(-)

diff --git a/src/georinex/base.py b/src/georinex/base.py
index 4efa0e1..556efab 100644
--- a/src/georinex/base.py
+++ b/src/georinex/base.py
@@ -95,7 +95,7 @@ def load(
             obs = None
 
         if nav is not None and obs is not None:
-            return {"nav": nav, "obs": rinexobs(rinexfn)}
+            return {"nav": nav, "obs": obs}
         elif nav is not None:
             return nav
         elif obs is not None:
diff --git a/src/georinex/rio.py b/src/georinex/rio.py
index bb5f82f..1055c74 100644
--- a/src/georinex/rio.py
+++ b/src/georinex/rio.py
@@ -158,14 +158,17 @@ def rinexinfo(f: T.TextIO | Path) -> dict[T.Hashable, T.Any]:
         fn = Path(f).expanduser()
 
         if fn.suffix == ".nc":
-            attrs: dict[T.Hashable, T.Any] = {"rinextype": []}
+            groups = []
+            attrs: dict[T.Hashable, T.Any] = {"rinextype": groups}
             for g in ("OBS", "NAV"):
                 try:
-                    dat = xarray.open_dataset(fn, group=g)
-                    attrs["rinextype"].append(g.lower())
+                    with xarray.open_dataset(fn, group=g) as dat:
+                        attrs.update(dat.attrs)
                 except OSError:
                     continue
-                attrs.update(dat.attrs)
+                groups.append(g.lower())
+            if len(groups) != 1:
+                attrs["rinextype"] = groups  # not that of the last group
             return attrs
 
         with opener(fn, header=True) as f:
-- 
2.43.0


From 86a5c3f28949bf8e7de91ecd08cbb0ff66d16bbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:22 +0000
Subject: [PATCH 25/63] fix: refused write to existing NetCDF group left the
 file open

---
 src/georinex/base.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/georinex/base.py b/src/georinex/base.py
index 556efab..e0caf0b 100644
--- a/src/georinex/base.py
+++ b/src/georinex/base.py
@@ -259,8 +259,8 @@ def _groupexists(fn: Path, group: str, overwrite: bool) -> str:
 
     # be sure there isn't already NAV in it
     try:
-        xarray.open_dataset(fn, group=group)
-        raise ValueError(f"{group} already in {fn}")
+        with xarray.open_dataset(fn, group=group):
+            raise ValueError(f"{group} already in {fn}")
     except OSError:
         pass
 
-- 
2.43.0


From 048d614cfe302c1757a32f5e4e8a55a204d4c002 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:22 +0000
Subject: [PATCH 26/63] fix: batch conversion was stopped by files raising
 other than ValueError

---
 src/georinex/base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/georinex/base.py b/src/georinex/base.py
index e0caf0b..f667a2b 100644
--- a/src/georinex/base.py
+++ b/src/georinex/base.py
@@ -134,7 +134,7 @@ def batch_convert(
                 verbose=verbose,
                 fast=fast,
             )
-        except ValueError as e:
+        except Exception as e:  # one bad file does not stop the batch
             logging.error(f"{fn.name}: {e}")
 
 
-- 
2.43.0


From 9dd87d8e13e359b2e18af8835e9505c89aff2c89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:14 +0000
Subject: [PATCH 27/63] fix: unsupported RINEX 2 NAV type raised KeyError
 instead of NotImplementedError

---
 src/georinex/nav2.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/georinex/nav2.py b/src/georinex/nav2.py
index a6931db..e04503c 100644
--- a/src/georinex/nav2.py
+++ b/src/georinex/nav2.py
@@ -121,7 +121,7 @@ def rinexnav2(fn: T.TextIO | Path, tlim: tuple[datetime, datetime] | None = None
                 "TransTime",
             ]
         else:
-            raise NotImplementedError(f'I do not yet handle Rinex 2 NAV {header["sys"]}  {fn}')
+            raise NotImplementedError(f'I do not yet handle Rinex 2 NAV {header["systems"]}  {fn}')
         # %% loop over times
         for ln in f:
             # %% read Epoch / ToC (Time of Clock)
-- 
2.43.0


From cc940030c6327ac218c383f332e108dbb0991972 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:42 +0000
Subject: [PATCH 28/63] fix: keplerian2ecef raised TypeError for a selected
 satellite and used the first system of mixed files

---
 src/georinex/keplerian.py | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/src/georinex/keplerian.py b/src/georinex/keplerian.py
index 19f0c13..32f8d84 100644
--- a/src/georinex/keplerian.py
+++ b/src/georinex/keplerian.py
@@ -22,7 +22,13 @@ def keplerian2ecef(
     http://web.cecs.pdx.edu/~ssp/Reports/2006/Monaghan.pdf
     """
 
-    if "sv" in sv and sv["sv"] in {"R", "S"}:
+    # a file may have several systems, take that of the selected satellite
+    if "sv" in sv and sv["sv"].size == 1:
+        svtype = str(sv["sv"].values.item())[0]
+    else:
+        svtype = sv.svtype[0]
+
+    if svtype in {"R", "S"}:
         return sv["X"], sv["Y"], sv["Z"]
 
     # sv = sv.dropna(dim='time', how='all')
@@ -38,13 +44,13 @@ def keplerian2ecef(
     n = n0 + sv["DeltaN"].values  # corrected mean motion
 
     # from GPS Week 0
-    if sv.svtype[0] == "E":
+    if svtype == "E":
         weeks = sv["GALWeek"].values - 1024
         # TODO: need to add N*4096 for year 2058 and beyond
-    elif sv.svtype[0] == "G":
+    elif svtype == "G":
         weeks = sv["GPSWeek"].values
     else:
-        raise ValueError(f"Unknown system type {sv.svtype[0]}")
+        raise ValueError(f"Unknown system type {svtype}")
     # %% shaping
     weeks = np.atleast_1d(weeks).astype(float)
     Toe = np.atleast_1d(sv["Toe"].values).astype(float)
-- 
2.43.0


From e3c6f8895577aea04dbb04fd32962d7b7a6dedfd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:42 +0000
Subject: [PATCH 29/63] fix: keplerian2ecef took Galileo weeks of RINEX files
 1024 weeks too early

---
 src/georinex/keplerian.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/georinex/keplerian.py b/src/georinex/keplerian.py
index 32f8d84..797e5a8 100644
--- a/src/georinex/keplerian.py
+++ b/src/georinex/keplerian.py
@@ -45,7 +45,7 @@ def keplerian2ecef(
 
     # from GPS Week 0
     if svtype == "E":
-        weeks = sv["GALWeek"].values - 1024
+        weeks = sv["GALWeek"].values  # RINEX Galileo weeks are aligned to GPS weeks
         # TODO: need to add N*4096 for year 2058 and beyond
     elif svtype == "G":
         weeks = sv["GPSWeek"].values
-- 
2.43.0


From 927e25c99fc6bcb3fba64474efff0021780be2d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:42 +0000
Subject: [PATCH 30/63] fix: keplerian2ecef did not solve Kepler's equation to
 convergence (kilometers off)

---
 src/georinex/keplerian.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/georinex/keplerian.py b/src/georinex/keplerian.py
index 797e5a8..f66a7c5 100644
--- a/src/georinex/keplerian.py
+++ b/src/georinex/keplerian.py
@@ -67,7 +67,9 @@ def keplerian2ecef(
         tk[i] = (tsv - toe).total_seconds()  # type: ignore
     # %% Kepler's eqn of eccentric anomaly
     Mk = sv["M0"].values + n * tk  # Mean Anomaly
-    Ek = Mk + e * np.sin(Mk)  # Eccentric anomaly
+    Ek = Mk  # Eccentric anomaly
+    for _ in range(30):
+        Ek = Ek - (Ek - e * np.sin(Ek) - Mk) / (1 - e * np.cos(Ek))
     # %% true anomaly
     nuK = np.arctan2(np.sqrt(1 - e**2) * np.sin(Ek), np.cos(Ek) - e)
     # %% latitude
-- 
2.43.0


From 88e55b63259a1cfd9236bc1341a9c308004db10a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:42 +0000
Subject: [PATCH 31/63] fix: keplerian2ecef used the Galileo gravitational
 constant for GPS (meters off)

---
 src/georinex/keplerian.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/georinex/keplerian.py b/src/georinex/keplerian.py
index f66a7c5..d2fcafc 100644
--- a/src/georinex/keplerian.py
+++ b/src/georinex/keplerian.py
@@ -33,7 +33,8 @@ def keplerian2ecef(
 
     # sv = sv.dropna(dim='time', how='all')
 
-    GM = 3.986004418e14  # [m^3 s^-2]   Mean anomaly at tk
+    # [m^3 s^-2]  IS-GPS-200, Galileo OS SIS ICD
+    GM = 3.986005e14 if svtype == "G" else 3.986004418e14
     omega_e = 7.2921151467e-5  # [rad s^-1]  Mean angular velocity of Earth
 
     A = sv["sqrtA"].values ** 2
-- 
2.43.0


From 46502eb281672a1fde78c61e3cfbaafaa982c99d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:42 +0000
Subject: [PATCH 32/63] fix: keplerian2ecef raised ValueError if the file has
 epochs of other satellites only

---
 src/georinex/keplerian.py | 14 +++++---------
 1 file changed, 5 insertions(+), 9 deletions(-)

diff --git a/src/georinex/keplerian.py b/src/georinex/keplerian.py
index d2fcafc..dbac978 100644
--- a/src/georinex/keplerian.py
+++ b/src/georinex/keplerian.py
@@ -4,7 +4,6 @@ Michael Hirsch, Ph.D.
 """
 
 from __future__ import annotations
-from datetime import datetime, timedelta
 import xarray
 import numpy as np
 
@@ -31,6 +30,8 @@ def keplerian2ecef(
     if svtype in {"R", "S"}:
         return sv["X"], sv["Y"], sv["Z"]
 
+    if "sv" in sv.dims:
+        sv = sv.squeeze("sv")  # one satellite at a time
     # sv = sv.dropna(dim='time', how='all')
 
     # [m^3 s^-2]  IS-GPS-200, Galileo OS SIS ICD
@@ -57,15 +58,10 @@ def keplerian2ecef(
     Toe = np.atleast_1d(sv["Toe"].values).astype(float)
     e = sv["Eccentricity"].values
 
-    T0 = [datetime(1980, 1, 6) + timedelta(weeks=week) for week in weeks]
-
-    tk = np.empty(sv["time"].size, dtype=float)
-
     # %% time elapsed since reference epoch
-    for i, (t0, t1, t2) in enumerate(zip(T0, sv["time"], Toe)):
-        tsv = t1.values.astype("datetime64[us]").astype(datetime)
-        toe = timedelta(seconds=t2) + t0  # type: ignore
-        tk[i] = (tsv - toe).total_seconds()  # type: ignore
+    # epochs of other satellites in the file have NaN elements, and give NaN
+    tsv = sv["time"].values.astype("datetime64[us]") - np.datetime64("1980-01-06", "us")
+    tk = tsv.astype(float) / 1e6 - weeks * 604800 - Toe
     # %% Kepler's eqn of eccentric anomaly
     Mk = sv["M0"].values + n * tk  # Mean Anomaly
     Ek = Mk  # Eccentric anomaly
-- 
2.43.0


From 5325eec7095533dd777ede2722d31020d8e4b3da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:09 +0000
Subject: [PATCH 33/63] fix: RINEX 2 OBS interval was derived from an arbitrary
 system, dependent on the hash seed

---
 src/georinex/obs2.py | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/src/georinex/obs2.py b/src/georinex/obs2.py
index dd5a849..9580253 100644
--- a/src/georinex/obs2.py
+++ b/src/georinex/obs2.py
@@ -41,7 +41,7 @@ def rinexobs2(
         {}, coords={"time": np.array([], dtype="datetime64[ns]"), "sv": np.array([], dtype="<U3")}
     )
     attrs: dict[T.Hashable, T.Any] = {}
-    for u in use:
+    for u in sorted(use):  # not dependent on hash seed
         o = rinexsystem2(
             fn,
             system=u,
@@ -59,9 +59,18 @@ def rinexobs2(
 
     obs.attrs = attrs
 
+    if attrs and "interval" not in obsheader2(fn):
+        # of the epochs of all systems
+        obs.attrs["interval"] = _median_interval(obs)
+
     return obs
 
 
+def _median_interval(obs: xarray.Dataset) -> float:
+    # median is robust against gaps
+    return np.median(np.diff(obs.time) / np.timedelta64(1, "s"))
+
+
 def rinexsystem2(
     fn: T.TextIO | Path,
     system: str,
@@ -291,9 +300,8 @@ def rinexsystem2(
     if "interval" in hdr.keys():
         obs.attrs["interval"] = hdr["interval"]
     elif "time" in obs.coords.keys():
-        # median is robust against gaps
         try:
-            obs.attrs["interval"] = np.median(np.diff(obs.time) / np.timedelta64(1, "s"))
+            obs.attrs["interval"] = _median_interval(obs)
         except TypeError:
             pass
     else:
-- 
2.43.0


From ccfce617837a83f8250cfcc5a6a9cc74e1a6b830 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:09 +0000
Subject: [PATCH 34/63] fix: RINEX 3 OBS receiver clock offsets included those
 of epochs not selected

---
 src/georinex/obs3.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/georinex/obs3.py b/src/georinex/obs3.py
index 1d5cffc..96991da 100644
--- a/src/georinex/obs3.py
+++ b/src/georinex/obs3.py
@@ -93,10 +93,7 @@ def rinexobs3(
                 logging.debug(f"garbage detected in {fn}, trying to parse at next time step")
                 continue
 
-            try:
-                time_offset.append(float(ln[41:56]))
-            except ValueError:
-                pass
+            offset = ln[41:56]
             # %% get SV indices
             sv = []
             raw = ""
@@ -123,6 +120,11 @@ def rinexobs3(
                     else:
                         last_epoch += interval
 
+            try:
+                time_offset.append(float(offset))
+            except ValueError:
+                pass
+
             if verbose:
                 print(time, end="\r")
 
-- 
2.43.0


From d947dff98d275bd18b823deb1c1f8e63824f2291 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:09 +0000
Subject: [PATCH 35/63] fix: blank or repeated APPROX POSITION XYZ raised
 TypeError or KeyError

---
 src/georinex/obs2.py | 5 +++--
 src/georinex/obs3.py | 5 +++--
 2 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/georinex/obs2.py b/src/georinex/obs2.py
index 9580253..f17355d 100644
--- a/src/georinex/obs2.py
+++ b/src/georinex/obs2.py
@@ -411,8 +411,9 @@ def obsheader2(
     hdr["Nl_sv"] = ceil(hdr["Nobs"] / 5)
     # %% list with receiver location in x,y,z cartesian ECEF (OPTIONAL)
     try:
-        hdr["position"] = [float(j) for j in hdr["APPROX POSITION XYZ"].split()]
-        if ecef2geodetic is not None:
+        # some files have repeated headers, use the first one.
+        hdr["position"] = [float(j) for j in hdr["APPROX POSITION XYZ"].split()][:3]
+        if ecef2geodetic is not None and len(hdr["position"]) == 3:
             hdr["position_geodetic"] = ecef2geodetic(*hdr["position"])
     except (KeyError, ValueError):
         pass
diff --git a/src/georinex/obs3.py b/src/georinex/obs3.py
index 96991da..b185248 100644
--- a/src/georinex/obs3.py
+++ b/src/georinex/obs3.py
@@ -156,8 +156,9 @@ def rinexobs3(
 
     if "position" in hdr.keys():
         data.attrs["position"] = hdr["position"]
-        if ecef2geodetic is not None:
-            data.attrs["position_geodetic"] = hdr["position_geodetic"]
+
+    if "position_geodetic" in hdr.keys():
+        data.attrs["position_geodetic"] = hdr["position_geodetic"]
 
     if time_offset:
         data.attrs["time_offset"] = time_offset
-- 
2.43.0


From 10f010121a47805d41ed222c658a00a008bcf8b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:55 +0000
Subject: [PATCH 36/63] fix: RINEX clock files were read as empty OBS data

---
 src/georinex/rio.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/georinex/rio.py b/src/georinex/rio.py
index 1055c74..d850052 100644
--- a/src/georinex/rio.py
+++ b/src/georinex/rio.py
@@ -182,7 +182,7 @@ def rinexinfo(f: T.TextIO | Path) -> dict[T.Hashable, T.Any]:
         if line.startswith(("#a", "#c", "#d")):
             return {"version": line[1], "rinextype": "sp3"}
 
-        version = rinex_version(line)[0]
+        version, is_crinex = rinex_version(line)
         file_type = line[20]
         if int(version) == 2:
             if file_type == "N":
@@ -196,10 +196,10 @@ def rinexinfo(f: T.TextIO | Path) -> dict[T.Hashable, T.Any]:
         else:
             system = line[40]
 
-        if system == " " and int(version) < 3:
+        if system == " " and int(version) < 3 and not is_crinex:
             system = "G"  # blank means GPS in RINEX 1, 2
 
-        if line[20] in ("O", "C"):
+        if line[20] == "O" or is_crinex:  # not clock files
             rinex_type = "obs"
         elif line[20] == "N" or "NAV" in line[20:40]:
             rinex_type = "nav"
-- 
2.43.0


From a3029e962af570742e6955f23c525574fd38d1ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:55 +0000
Subject: [PATCH 37/63] fix: RINEX 2 GLONASS or Galileo NAV type letter without
 text was not known as NAV

---
 src/georinex/rio.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/georinex/rio.py b/src/georinex/rio.py
index d850052..3e36da1 100644
--- a/src/georinex/rio.py
+++ b/src/georinex/rio.py
@@ -203,6 +203,8 @@ def rinexinfo(f: T.TextIO | Path) -> dict[T.Hashable, T.Any]:
             rinex_type = "obs"
         elif line[20] == "N" or "NAV" in line[20:40]:
             rinex_type = "nav"
+        elif int(version) == 2 and file_type in ("G", "E"):  # text after type is optional
+            rinex_type = "nav"
         else:
             rinex_type = line[20]
 
-- 
2.43.0


From ea7820fc3da461c4eef468515252c3fb2b9af6e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:55 +0000
Subject: [PATCH 38/63] fix: damaged first line raised IndexError,
 OverflowError or AttributeError instead of ValueError

---
 src/georinex/rio.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/georinex/rio.py b/src/georinex/rio.py
index 3e36da1..1a583ec 100644
--- a/src/georinex/rio.py
+++ b/src/georinex/rio.py
@@ -146,7 +146,7 @@ def first_nonblank_line(f: T.TextIO, max_lines: int = 10) -> str:
             break
 
     if _i is None or _i == max_lines - 1 or not line:
-        raise ValueError(f"could not find first valid header line in {f.name}")
+        raise ValueError(f"could not find first valid header line in {getattr(f, 'name', f)}")
 
     return line
 
@@ -215,7 +215,7 @@ def rinexinfo(f: T.TextIO | Path) -> dict[T.Hashable, T.Any]:
             "systems": system,
         }
 
-    except (TypeError, AttributeError, ValueError) as e:
+    except (TypeError, AttributeError, ValueError, IndexError, OverflowError) as e:
         # keep ValueError for consistent user error handling
         raise ValueError(f"not a known/valid RINEX file.  {e}")
 
-- 
2.43.0


From 812f4b23489ddfb425aafebd56700d8288e871eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:55 +0000
Subject: [PATCH 39/63] fix: missing NetCDF file raised ValueError instead of
 FileNotFoundError

---
 src/georinex/rio.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/georinex/rio.py b/src/georinex/rio.py
index 1a583ec..5c2b68e 100644
--- a/src/georinex/rio.py
+++ b/src/georinex/rio.py
@@ -158,6 +158,8 @@ def rinexinfo(f: T.TextIO | Path) -> dict[T.Hashable, T.Any]:
         fn = Path(f).expanduser()
 
         if fn.suffix == ".nc":
+            if not fn.is_file():
+                raise FileNotFoundError(fn)
             groups = []
             attrs: dict[T.Hashable, T.Any] = {"rinextype": groups}
             for g in ("OBS", "NAV"):
-- 
2.43.0


From 9d6464cdebecf9d760b5dc2e18a75f864b154c72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:55 +0000
Subject: [PATCH 40/63] fix: stream of unsupported type raised AssertionError
 instead of ValueError

---
 src/georinex/base.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/georinex/base.py b/src/georinex/base.py
index f667a2b..58b3e56 100644
--- a/src/georinex/base.py
+++ b/src/georinex/base.py
@@ -78,7 +78,8 @@ def load(
             interval=interval,
         )
 
-    assert isinstance(rinexfn, Path)
+    if not isinstance(rinexfn, Path):
+        raise ValueError(f"What kind of RINEX stream is: {info}")
 
     if info["rinextype"] == "sp3":
         return load_sp3(rinexfn, outfn)
-- 
2.43.0


From d5da40682704423b9a3d6c313d5356de757b3589 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:47 +0000
Subject: [PATCH 41/63] fix: location table: unreadable file, same file names,
 empty list, NetCDF left open

---
 src/georinex/geo.py | 43 +++++++++++++++++++------------------------
 1 file changed, 19 insertions(+), 24 deletions(-)

diff --git a/src/georinex/geo.py b/src/georinex/geo.py
index 4691ab6..1936654 100644
--- a/src/georinex/geo.py
+++ b/src/georinex/geo.py
@@ -1,6 +1,7 @@
 from __future__ import annotations
 import pandas
 import io
+import logging
 import xarray
 import typing as T
 from pathlib import Path
@@ -17,38 +18,32 @@ def get_locations(files: list[Path]) -> pandas.DataFrame:
     if isinstance(files, (Path, io.StringIO)):
         files = [files]
 
-    if isinstance(files[0], io.StringIO):
-        locs = pandas.DataFrame(index=["0"], columns=["lat", "lon", "interval"])
-    elif isinstance(files[0], Path):
-        locs = pandas.DataFrame(
-            index=[file.name for file in files], columns=["lat", "lon", "interval"]
-        )
-    else:
-        raise TypeError("Expecting pathlib.Path")
+    names: list[str] = []
+    rows: list[list] = []
 
     hdr: dict[T.Hashable, T.Any]
     for file in files:
-        if isinstance(file, Path) and file.suffix == ".nc":
-            dat = xarray.open_dataset(file, group="OBS")
-            hdr = dat.attrs
-        else:
-            try:
+        if not isinstance(file, (Path, io.StringIO)):
+            raise TypeError("Expecting pathlib.Path")
+
+        try:
+            if isinstance(file, Path) and file.suffix == ".nc":
+                with xarray.open_dataset(file, group="OBS") as dat:
+                    hdr = dat.attrs
+            else:
                 hdr = rinexheader(file)
-            except ValueError:
-                continue
-
-        if isinstance(file, Path):
-            key = file.name
-        else:
-            key = "0"
+        except Exception as e:  # a file that cannot be read does not stop the others
+            logging.error(f"{getattr(file, 'name', file)}: {e}")
+            continue
 
         if "position_geodetic" not in hdr:
             continue
 
-        locs.loc[key, "lat"] = hdr["position_geodetic"][0]
-        locs.loc[key, "lon"] = hdr["position_geodetic"][1]
-        if "interval" in hdr and hdr["interval"] is not None:
-            locs.loc[key, "interval"] = hdr["interval"]
+        # files of the same name may be in different directories: one row each
+        names.append(file.name if isinstance(file, Path) else "0")
+        rows.append([*hdr["position_geodetic"][:2], hdr.get("interval", float("nan"))])
+
+    locs = pandas.DataFrame(rows, index=names, columns=["lat", "lon", "interval"], dtype=object)
 
     locs = locs.loc[locs.loc[:, ["lat", "lon"]].notna().all(axis=1), :]
 
-- 
2.43.0


From 5f6657601a6f8949e39e598fc4f6102e8d7a0bd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:47 +0000
Subject: [PATCH 42/63] fix: time listing tool failed on a zero INTERVAL

---
 src/georinex/time/__main__.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/georinex/time/__main__.py b/src/georinex/time/__main__.py
index b1b1917..664d0a3 100644
--- a/src/georinex/time/__main__.py
+++ b/src/georinex/time/__main__.py
@@ -27,7 +27,8 @@ def eachfile(fn: Path):
     interval = hdr.get("interval", np.nan)
     if ~np.isnan(interval):
         ostr += f" {interval}"
-        Nexpect = (t1 - t0) // timedelta(seconds=interval) + 1
+        # some files have a zero interval
+        Nexpect = (t1 - t0) // timedelta(seconds=interval) + 1 if interval > 0 else Ntimes
         if Nexpect != Ntimes:
             logging.warning(f"{fn.name}: expected {Nexpect} but got {Ntimes} times")
 
-- 
2.43.0


From 8fb77d0a1298b5b49b90d39228cfa8cf69333bf1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:47 +0000
Subject: [PATCH 43/63] fix: time listing of a directory stopped by a truncated
 compressed file

---
 src/georinex/time/__main__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/georinex/time/__main__.py b/src/georinex/time/__main__.py
index 664d0a3..90c71b6 100644
--- a/src/georinex/time/__main__.py
+++ b/src/georinex/time/__main__.py
@@ -51,7 +51,7 @@ if filename.is_dir():
     for f in flist:
         try:
             eachfile(f)
-        except ValueError as err:
+        except Exception as err:  # one bad file does not stop the listing
             logging.error(f"{f.name}: {err}")
 elif filename.is_file():
     eachfile(filename)
-- 
2.43.0


From a23f9332f3e76a67a52c7d85c3eba6fe821406e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:09:30 +0000
Subject: [PATCH 44/63] fix: RINEX 3 OBS satellites without selected data
 depended on order of system selection

---
 src/georinex/obs3.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/georinex/obs3.py b/src/georinex/obs3.py
index b185248..4f2dcf3 100644
--- a/src/georinex/obs3.py
+++ b/src/georinex/obs3.py
@@ -384,7 +384,8 @@ def obsheader3(
         if not set(fields.keys()).intersection(use):
             raise KeyError(f"system type {use} not found in RINEX file")
 
-        fields = {k: fields[k] for k in use if k in fields}
+        # in header order: the result must not depend on the order of the selection
+        fields = {k: v for k, v in fields.items() if k in use}
 
     # perhaps this could be done more efficiently, but it's probably low impact on overall program.
     # simple set and frozenset operations do NOT preserve order, which would completely mess up reading!
-- 
2.43.0


From 1bc6314481ba3d3649a615b13e74200702085e28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:32:16 +0000
Subject: [PATCH 45/63] fix: RINEX 3 OBS satellite written both G 7 and G07 in
 one file was split into two

---
 src/georinex/obs3.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/georinex/obs3.py b/src/georinex/obs3.py
index 4f2dcf3..91a9cfb 100644
--- a/src/georinex/obs3.py
+++ b/src/georinex/obs3.py
@@ -102,7 +102,7 @@ def rinexobs3(
                 ln = f.readline()
                 if not ln.strip():  # file truncated in this epoch
                     break
-                sv.append(ln[:3])
+                sv.append(ln[:3].replace(" ", "0"))  # patch SV names in case of "G 7" => "G07"
                 raw += ln[3:].rstrip("\n") + "\n"  # maybe no newline at end of file
 
             if tlim is not None:
@@ -131,8 +131,6 @@ def rinexobs3(
             # this time epoch is complete, assemble the data.
             data = _epoch(data, raw, hdr, time, sv, useindicators, verbose)
 
-    # %% patch SV names in case of "G 7" => "G07"
-    data = data.assign_coords(sv=[s.replace(" ", "0") for s in data.sv.values.tolist()])
     # %% other attributes
     data.attrs["version"] = hdr["version"]
 
-- 
2.43.0


From f9cfc448700bf99438fd1eae6b87e3fbae5a8d1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:01 +0000
Subject: [PATCH 46/63] fix: RINEX 3 OBS epoch line with unreadable satellite
 count stopped the whole load

---
 src/georinex/obs3.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/georinex/obs3.py b/src/georinex/obs3.py
index 91a9cfb..7718f9e 100644
--- a/src/georinex/obs3.py
+++ b/src/georinex/obs3.py
@@ -89,6 +89,7 @@ def rinexobs3(
 
             try:
                 time = _timeobs(ln)
+                Nsv = int(ln[32:35])  # Number of visible satellites this time %i3  pg. A13
             except ValueError:  # garbage between header and RINEX data
                 logging.debug(f"garbage detected in {fn}, trying to parse at next time step")
                 continue
@@ -97,8 +98,7 @@ def rinexobs3(
             # %% get SV indices
             sv = []
             raw = ""
-            # Number of visible satellites this time %i3  pg. A13
-            for _ in range(int(ln[32:35])):
+            for _ in range(Nsv):
                 ln = f.readline()
                 if not ln.strip():  # file truncated in this epoch
                     break
-- 
2.43.0


From cc74e9ec7c3d75f1ea591974d517c30e36e18419 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:01 +0000
Subject: [PATCH 47/63] fix: RINEX 2 OBS epoch with unreadable satellite number
 stopped the whole load

---
 src/georinex/obs2.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/georinex/obs2.py b/src/georinex/obs2.py
index f17355d..bbc4f6a 100644
--- a/src/georinex/obs2.py
+++ b/src/georinex/obs2.py
@@ -500,8 +500,8 @@ def _getSVlist(ln: str, N: int, sv: list[str]) -> list[str]:
     """parse a line of text from RINEX2 SV list"""
     sv.extend([ln[32 + i * 3 : 35 + i * 3] for i in range(N)])
 
-    if not all(s.strip() for s in sv):
-        raise ValueError(f"satellite index line truncated:  {ln}")
+    if not all(s[1:].strip(" ").isdigit() for s in sv):
+        raise ValueError(f"satellite index line truncated or damaged:  {ln}")
 
     # compatibility for early rinex where a space
     # in SSI position is assumed to be GPS
-- 
2.43.0


From 9d2a97165953e3593a7f26a051f66fe42f6ba6c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:49 +0000
Subject: [PATCH 48/63] fix: cycle slip records (epoch flag 6) were read as
 observations

---
 src/georinex/obs2.py | 18 +++++++++++-------
 src/georinex/obs3.py |  3 ++-
 2 files changed, 13 insertions(+), 8 deletions(-)

diff --git a/src/georinex/obs2.py b/src/georinex/obs2.py
index bbc4f6a..841d3a1 100644
--- a/src/georinex/obs2.py
+++ b/src/georinex/obs2.py
@@ -154,7 +154,7 @@ def rinexsystem2(
             try:
                 time_epoch = _timeobs(ln)
             except ValueError:
-                _skip_event(f, ln)
+                _skip_event(f, ln, hdr["Nl_sv"])
                 continue
 
             if tlim is not None:
@@ -526,7 +526,7 @@ def obstime2(fn: T.TextIO | Path, verbose: bool = False):
             try:
                 time_epoch = _timeobs(ln)
             except ValueError:
-                _skip_event(f, ln)
+                _skip_event(f, ln, hdr["Nl_sv"])
                 continue
 
             times.append(time_epoch)
@@ -556,16 +556,20 @@ def _skip(f: T.TextIO, ln: str, Nl_sv: int, sv: list[str] | None = None):
         f.readline()
 
 
-def _skip_event(f: T.TextIO, ln: str):
+def _skip_event(f: T.TextIO, ln: str, Nl_sv: int):
     """
-    skip the special records following an event (epoch flag 2..5), whose time is optional
+    skip the special records following an event (epoch flag 2..5), whose time is optional,
+    or the cycle slip records (epoch flag 6), which have the format of observation records
     """
-    if ln[28:29] not in {"2", "3", "4", "5"}:
+    if ln[28:29] not in {"2", "3", "4", "5", "6"}:
         return
 
     try:
         if ln[:28].strip():
             _timeobs(ln[:28] + "0")
+        if ln[28:29] == "6":
+            _skip(f, ln, Nl_sv)
+            return
         Nrec = int(ln[29:32])
     except ValueError:  # garbage, not an event
         return
@@ -630,7 +634,7 @@ def _timeobs(ln: str) -> datetime:
     )
     # %% check if valid time
     eflag = int(ln[28:29])
-    if eflag not in {0, 1, 6}:  # EPOCH FLAG, 2..5 are events
+    if eflag not in {0, 1}:  # EPOCH FLAG, 2..5 are events, 6 is cycle slips
         raise ValueError(f"{t}: epoch flag {eflag}")
 
     return t
@@ -664,7 +668,7 @@ def _fast_alloc(fn: T.TextIO | Path, Nl_sv: int) -> int:
             try:
                 t = _timeobs(ln)
             except ValueError:
-                _skip_event(f, ln)
+                _skip_event(f, ln, Nl_sv)
                 continue
 
             if isinstance(t, datetime):
diff --git a/src/georinex/obs3.py b/src/georinex/obs3.py
index 7718f9e..58a4ed3 100644
--- a/src/georinex/obs3.py
+++ b/src/georinex/obs3.py
@@ -174,8 +174,9 @@ def _skip_event(f: T.TextIO, ln: str) -> bool:
     """
     epoch flag 2..5 is an event, followed by special records instead of observations.
     The event time is optional.   pg. A13
+    epoch flag 6 is followed by cycle slips instead of observations.
     """
-    if ln[31:32] not in {"2", "3", "4", "5"}:
+    if ln[31:32] not in {"2", "3", "4", "5", "6"}:
         return False
 
     try:
-- 
2.43.0


From fcc3636e3f6c82aa5c2904b8aa9de9ce7c93035c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:05 +0000
Subject: [PATCH 49/63] fix: RINEX 3 NAV with some of the trailing spare fields
 of Galileo or NavIC stopped load

---
 src/georinex/nav3.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/georinex/nav3.py b/src/georinex/nav3.py
index 69c67ca..bfb4c35 100644
--- a/src/georinex/nav3.py
+++ b/src/georinex/nav3.py
@@ -242,15 +242,16 @@ def _sparefields(cf: list[str], sys: str, N: int) -> list[str]:
         elif N == 30:
             cf = cf[:30]
     elif sys == "E":
-        if N == 29:  # only one trailing spare fields
+        if N == 30:  # two trailing spare fields
+            cf = cf[:-1]
+        elif N == 29:  # only one trailing spare fields
             cf = cf[:-2]
         elif N == 28:  # zero trailing spare fields
             cf = cf[:-3]
         elif N == 27:  # no middle or trailing spare fields
             cf = cf[:22] + cf[23:-3]
     elif sys == "I":
-        if N == 28:
-            cf = cf[:28]
+        cf = cf[:N]
 
     if N != len(cf):
         raise ValueError(f"System {sys} NAV data is not the same length as the number of fields.")
-- 
2.43.0


From 2ad4173eca9e93112243dcd4997ac893380e3a7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:05 +0000
Subject: [PATCH 50/63] fix: RINEX 3 NAV records behind a blank line were lost

---
 src/georinex/nav3.py | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/src/georinex/nav3.py b/src/georinex/nav3.py
index bfb4c35..c805c55 100644
--- a/src/georinex/nav3.py
+++ b/src/georinex/nav3.py
@@ -40,9 +40,6 @@ def rinexnav3(
         header = navheader3(f)
         # %% read Epoch / ToC (Time of Clock)
         for line in f:
-            if line.startswith("\n"):  # EOF
-                break
-
             try:
                 time = _time(line)
             except ValueError:  # blank or garbage line
-- 
2.43.0


From b2f445b3cf50582f65d5d8716277e3922a5744f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:58 +0000
Subject: [PATCH 51/63] fix: '#' in a RINEX 3 OBS record shifted the values of
 the satellites after it

---
 src/georinex/obs3.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/georinex/obs3.py b/src/georinex/obs3.py
index 58a4ed3..fe7bf1b 100644
--- a/src/georinex/obs3.py
+++ b/src/georinex/obs3.py
@@ -251,7 +251,9 @@ def _epoch(
     block processing of each epoch (time step)
     """
     darr = np.atleast_2d(
-        np.genfromtxt(io.BytesIO(raw.encode("ascii")), delimiter=(14, 1, 1) * hdr["Fmax"])
+        np.genfromtxt(
+            io.BytesIO(raw.encode("ascii")), comments=None, delimiter=(14, 1, 1) * hdr["Fmax"]
+        )
     )
     # %% assign data for each time step
     for sk in hdr["fields"]:  # for each satellite system type (G,R,S, etc.)
-- 
2.43.0


From 07b7010d62d685dd0ef4467d92915e2ff6345b5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:58:18 +0000
Subject: [PATCH 52/63] fix: NAV and receiver location plots raised TypeError
 with cartopy and current Matplotlib

---
 src/georinex/plots_geo.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/georinex/plots_geo.py b/src/georinex/plots_geo.py
index 32f5f6f..57a9f6f 100644
--- a/src/georinex/plots_geo.py
+++ b/src/georinex/plots_geo.py
@@ -25,7 +25,7 @@ def navtimeseries(nav: xarray.Dataset):
     svs = nav.sv.values
 
     if cartopy is not None:
-        ax = figure().gca(projection=cartopy.crs.PlateCarree())
+        ax = figure().add_subplot(projection=cartopy.crs.PlateCarree())
 
         ax.add_feature(cpf.LAND)
         ax.add_feature(cpf.OCEAN)
@@ -91,7 +91,7 @@ def receiver_locations(locs: pandas.DataFrame):
         return
 
     if cartopy is not None:
-        ax = figure().gca(projection=cartopy.crs.PlateCarree())
+        ax = figure().add_subplot(projection=cartopy.crs.PlateCarree())
 
         ax.add_feature(cpf.LAND)
         ax.add_feature(cpf.OCEAN)
-- 
2.43.0


From dc841937ca8b72f292834037c160ef606f37a264 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:58:18 +0000
Subject: [PATCH 53/63] fix: plotting OBS data read from a stream raised
 AttributeError

---
 src/georinex/plots.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/georinex/plots.py b/src/georinex/plots.py
index 3444f6e..22ce297 100644
--- a/src/georinex/plots.py
+++ b/src/georinex/plots.py
@@ -42,7 +42,7 @@ def obstimeseries(obs: xarray.Dataset):
 
         ax.plot(time, dat)
 
-        ax.set_title(obs.filename)
+        ax.set_title(obs.attrs.get("filename", ""))
         ax.set_xlabel("time [UTC]")
         ax.set_ylabel(p)
         ax.grid(True)
-- 
2.43.0


From 50e1686644aa4a022352ba430a7b7aa15d16c85d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:58:18 +0000
Subject: [PATCH 54/63] fix: plotting receivers of 5 to 15 s interval raised
 ValueError for the colour

---
 src/georinex/plots_geo.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/georinex/plots_geo.py b/src/georinex/plots_geo.py
index 57a9f6f..f11fa5a 100644
--- a/src/georinex/plots_geo.py
+++ b/src/georinex/plots_geo.py
@@ -104,7 +104,7 @@ def receiver_locations(locs: pandas.DataFrame):
         if 15 <= loc.interval < 30:
             c = "g"
         elif 5 <= loc.interval < 15:
-            c = "o"
+            c = "orange"
         elif loc.interval < 5:
             c = "r"
         else:  # large or undefined interval
-- 
2.43.0


From d0076e5a55281c32746a1fdfef8b7654b4bf2903 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:58:18 +0000
Subject: [PATCH 55/63] fix: plotting a receiver whose header gives interval 0
 raised ZeroDivisionError

---
 src/georinex/plots_geo.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/georinex/plots_geo.py b/src/georinex/plots_geo.py
index f11fa5a..079110b 100644
--- a/src/georinex/plots_geo.py
+++ b/src/georinex/plots_geo.py
@@ -110,7 +110,7 @@ def receiver_locations(locs: pandas.DataFrame):
         else:  # large or undefined interval
             c = "b"
 
-        if np.isfinite(loc.interval):
+        if np.isfinite(loc.interval) and loc.interval > 0:
             ax.scatter(loc.lon, loc.lat, s=1000 * 1 / loc.interval, c=c, label=name)
         else:
             ax.scatter(loc.lon, loc.lat, c=c, label=name)
-- 
2.43.0


From bf5b1f9faa2a104d6f6af0578e19617fad1486a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:58:18 +0000
Subject: [PATCH 56/63] fix: OBS and NAV data given together were not plotted

---
 src/georinex/plots.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/georinex/plots.py b/src/georinex/plots.py
index 22ce297..8d05f5d 100644
--- a/src/georinex/plots.py
+++ b/src/georinex/plots.py
@@ -9,7 +9,10 @@ except ImportError as e:
 
 
 def timeseries(data):
-    if not isinstance(data, xarray.Dataset):
+    if isinstance(data, dict):  # file with both groups
+        data = data.get("obs"), data.get("nav")
+
+    if not isinstance(data, (xarray.Dataset, tuple)):
         return
 
     if isinstance(data, tuple):
-- 
2.43.0


From 074dea9a4299f5e0840820632d6ad1e03e2a8475 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:59:13 +0000
Subject: [PATCH 57/63] fix: plotting NAV data with a partly blank GLONASS or
 SBAS position raised

---
 src/georinex/plots_geo.py | 14 ++++----------
 1 file changed, 4 insertions(+), 10 deletions(-)

diff --git a/src/georinex/plots_geo.py b/src/georinex/plots_geo.py
index 079110b..42a9a81 100644
--- a/src/georinex/plots_geo.py
+++ b/src/georinex/plots_geo.py
@@ -36,11 +36,8 @@ def navtimeseries(nav: xarray.Dataset):
 
     for sv in svs:
         if sv[0] == "S":
-            lat, lon, alt = pm.ecef2geodetic(
-                nav.sel(sv=sv)["X"].dropna(dim="time", how="all"),
-                nav.sel(sv=sv)["Y"].dropna(dim="time", how="all"),
-                nav.sel(sv=sv)["Z"].dropna(dim="time", how="all"),
-            )
+            ecef = nav.sel(sv=sv)[["X", "Y", "Z"]].dropna(dim="time", how="any")
+            lat, lon, alt = pm.ecef2geodetic(ecef["X"], ecef["Y"], ecef["Z"])
 
             if ((alt < 35.7e6) | (alt > 35.9e6)).any():
                 logging.warning("unrealistic geostationary satellite altitudes")
@@ -49,11 +46,8 @@ def navtimeseries(nav: xarray.Dataset):
                 logging.warning("unrealistic geostationary satellite latitudes")
 
         elif sv[0] == "R":
-            lat, lon, alt = pm.ecef2geodetic(
-                nav.sel(sv=sv)["X"].dropna(dim="time", how="all"),
-                nav.sel(sv=sv)["Y"].dropna(dim="time", how="all"),
-                nav.sel(sv=sv)["Z"].dropna(dim="time", how="all"),
-            )
+            ecef = nav.sel(sv=sv)[["X", "Y", "Z"]].dropna(dim="time", how="any")
+            lat, lon, alt = pm.ecef2geodetic(ecef["X"], ecef["Y"], ecef["Z"])
 
             if ((alt < 19.0e6) | (alt > 19.4e6)).any():
                 logging.warning("unrealistic GLONASS satellite altitudes")
-- 
2.43.0


From 3a1c3d99a3dd93ac9b71a89c19b5dbc8803b1951 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:59:51 +0000
Subject: [PATCH 58/63] fix: the read tool with the plot option raised
 AttributeError for SP3 files

---
 src/georinex/plots.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/georinex/plots.py b/src/georinex/plots.py
index 8d05f5d..cc8d07e 100644
--- a/src/georinex/plots.py
+++ b/src/georinex/plots.py
@@ -20,9 +20,9 @@ def timeseries(data):
         obstimeseries(obs)
         if navtimeseries is not None:
             navtimeseries(nav)
-    elif data.rinextype == "obs":
+    elif data.attrs.get("rinextype") == "obs":
         obstimeseries(data)
-    elif data.rinextype == "nav":
+    elif data.attrs.get("rinextype") == "nav":
         if navtimeseries is not None:
             navtimeseries(data)
 
-- 
2.43.0


From a7bea078c5f4eace4d3f7e1f5211f222a0a9e339 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:24:49 +0000
Subject: [PATCH 59/63] fix: rinexobs2 of a file name given as text raised
 TypeError in fast mode

---
 src/georinex/obs2.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/georinex/obs2.py b/src/georinex/obs2.py
index 841d3a1..5144a76 100644
--- a/src/georinex/obs2.py
+++ b/src/georinex/obs2.py
@@ -31,6 +31,9 @@ def rinexobs2(
     fast: bool = True,
     interval: float | int | timedelta | None = None,
 ):
+    if isinstance(fn, (str, Path)):
+        fn = Path(fn).expanduser()
+
     if isinstance(use, str):
         use = {use}
 
-- 
2.43.0


From af18ccba4dfb0488e71e6aa263f18800ae02e945 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:51 +0000
Subject: [PATCH 60/63] fix: RINEX 2 NAV dropped every record of a satellite
 that has a repeated record

---
 src/georinex/nav2.py | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/src/georinex/nav2.py b/src/georinex/nav2.py
index e04503c..7ced0e0 100644
--- a/src/georinex/nav2.py
+++ b/src/georinex/nav2.py
@@ -4,7 +4,6 @@ from pathlib import Path
 from datetime import datetime
 import xarray
 import numpy as np
-import logging
 
 from .rio import opener, rinexinfo
 from .common import rinex_string_to_float
@@ -157,6 +156,13 @@ def rinexnav2(fn: T.TextIO | Path, tlim: tuple[datetime, datetime] | None = None
 
     # %% parse collected data lines per SV
     svs = [s.replace(" ", "0") for s in svs]
+    # repeated records of a satellite and time are kept as numbered copies, like RINEX 3
+    copies: dict[tuple[str, datetime], int] = {}
+    for i, key in enumerate(zip(svs, times)):
+        if key in copies:
+            svs[i] = f"{key[0]}_{copies[key]}"
+        copies[key] = copies.get(key, 0) + 1
+
     svu = sorted(set(svs))
 
     atimes = np.asarray(times)
@@ -167,11 +173,6 @@ def rinexnav2(fn: T.TextIO | Path, tlim: tuple[datetime, datetime] | None = None
     for j, sv in enumerate(svu):  # for each SV, across all values and times...
         svi = [i for i, s in enumerate(svs) if s == sv]  # these rows are for this SV
 
-        tu = np.unique(atimes[svi])  # this SV was seen at these times
-        if tu.size != atimes[svi].size:
-            logging.warning(f"duplicate times detected, skipping SV {sv}")
-            continue
-
         for i in svi:
             it = np.nonzero(timesu == times[i])[0][0]  # int by defn
             """
-- 
2.43.0


From 9815cefe635f0743d9eb03fb2809802a38e1a14f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:42 +0000
Subject: [PATCH 61/63] fix: gettime and the time readers did not expand ~ in a
 Path

---
 src/georinex/rio.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/georinex/rio.py b/src/georinex/rio.py
index 5c2b68e..0c50696 100644
--- a/src/georinex/rio.py
+++ b/src/georinex/rio.py
@@ -27,7 +27,7 @@ except ImportError:
 def opener(fn: T.TextIO | Path, header: bool = False) -> T.Iterator[T.TextIO]:
     """provides file handle for regular ASCII or gzip files transparently"""
 
-    if isinstance(fn, str):
+    if isinstance(fn, (str, Path)):
         fn = Path(fn).expanduser()
 
     if isinstance(fn, io.StringIO):
-- 
2.43.0


From c550000858c89433eb4856716a4702938bf95f3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:42 +0000
Subject: [PATCH 62/63] fix: rinexobs3 left out the filename attribute for a
 path given as text

---
 src/georinex/obs3.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/georinex/obs3.py b/src/georinex/obs3.py
index fe7bf1b..14b3dae 100644
--- a/src/georinex/obs3.py
+++ b/src/georinex/obs3.py
@@ -57,6 +57,9 @@ def rinexobs3(
                 Useful to speed up reading of very large RINEX files
     """
 
+    if isinstance(fn, (str, Path)):
+        fn = Path(fn).expanduser()
+
     interval = check_time_interval(interval)
 
     if isinstance(use, str):
-- 
2.43.0


From a959734d7eb6f79f7a52d6f541749d7ab50eeade Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:02 +0000
Subject: [PATCH 63/63] fix: a wrong number of observation types in a RINEX 2
 header given as a stream raised AttributeError

---
 src/georinex/obs2.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/georinex/obs2.py b/src/georinex/obs2.py
index 5144a76..70d28d4 100644
--- a/src/georinex/obs2.py
+++ b/src/georinex/obs2.py
@@ -425,7 +425,7 @@ def obsheader2(
         hdr["fields"] = hdr["# / TYPES OF OBSERV"]
         if hdr["Nobs"] != len(hdr["fields"]):
             logging.error(
-                f"{f.name} number of observations declared in header does not match fields"
+                f"{getattr(f, 'name', f)} number of observations declared in header does not match fields"
             )
             hdr["Nobs"] = len(hdr["fields"])
 
-- 
2.43.0

