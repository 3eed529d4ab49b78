#!/usr/bin/env python3
"""Source of /verif/properties.jsonl (one place to edit the statements)."""
import json, pathlib
S = "src/georinex/"
P = []
def p(id, title, statement, over, text, why, files, mech, observe, state=None, hook=None):
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
              "anchors": {"files": [S + f for f in files],
                          "state": [dict(zip(("name", "meaning", "where"), s)) for s in (state or [])],
                          "mechanism": [dict(zip(("name", "where"), (n, S + w))) for n, w in mech],
                          "observe_at": observe, "hook_needed": hook}})

p("C01", "RINEX 2 OBS: every recorded observation is read exactly, nothing invented",
  "Loading a well-formed RINEX 2.x observation file, or a RINEX 1 one of GPS satellites (any satellite systems, satellite and observation-type counts, missing-value pattern and header layout the format allows) returns, for every epoch, satellite and observation type, exactly the number written in the file to full double precision. Observations that are blank in the file are missing (NaN) in the result, and no value, satellite, epoch or type that the file does not contain appears in it.",
  ["inputs"], "all well-formed RINEX 2.x OBS files: 1-30 types, 1-60 satellites per epoch, GPS/GLONASS/Galileo/SBAS/BeiDou/QZSS, blank fields and lines anywhere, blank system letters, trimmed lines",
  "The tests compare two small reference datasets and spot values; continuation lines of the satellite list and of the types, lines of 5 values, blank patterns and system mixes are a product space they sample at a handful of points.",
  ["obs2.py", "base.py", "rio.py"],
  [("rinexsystem2: fixed-column slicing into a (type,time,sv) array", "obs2.py"), ("_getsvind/_getSVlist: satellite-list continuation", "obs2.py"), ("obsheader2: type list continuation", "obs2.py"), ("rinexobs2: merge of the per-system datasets", "obs2.py")],
  ["return value of georinex.load / rinexobs on generated files vs the model that generated them"],
  [("data", "(type,time,sv) array indexed by j and PRN-1", "obs2.rinexsystem2")])
p("C02", "RINEX 3 OBS: every recorded observation is read exactly, nothing invented",
  "Loading a well-formed RINEX 3.x observation file (any mix of systems, each with its own observation-type list, any satellite counts, missing-value pattern and record trimming the format allows) returns, for every epoch, satellite and observation type of that satellite's system, exactly the number written in the file to full double precision. Blank observations are missing in the result, and no value, satellite, epoch or type that the file does not contain appears in it.",
  ["inputs"], "all well-formed RINEX 3.x OBS files: 1-7 systems with 1-30 types each (continuation header lines), 1-60 satellites per epoch in any order, blank fields anywhere, trimmed or padded records",
  "Tests compare three reference datasets made from one two-epoch file; per-system type lists of different length, satellites appearing and disappearing, and blank patterns are not enumerated.",
  ["obs3.py", "base.py", "rio.py"],
  [("rinexobs3: epoch loop", "obs3.py"), ("_epoch: fixed-width parse, per-system column selection, concat/merge", "obs3.py"), ("obsheader3: SYS / # / OBS TYPES", "obs3.py")],
  ["return value of georinex.load / rinexobs vs the generating model"])
p("C03", "Loss-of-lock and signal-strength indicators are attached to their observation",
  "With indicators requested, the signal-strength digit of each observation other than those of signal strength itself (and the loss-of-lock digit of each carrier-phase observation on the first two frequency bands) is returned under that observation's name with suffix ssi (lli) at the same epoch and satellite, blank indicators being missing, in RINEX 2 and RINEX 3, with or without measurement or system selection. Requesting indicators never changes any observation value, and not requesting them returns no indicator variables.",
  ["inputs", "configurations"], "all well-formed OBS 2/3 files with arbitrary indicator digits x useindicators x meas x use",
  "Two reference files with fixed indicators; the index arithmetic (3 columns per type, filtered types, signal-strength types without indicators) is a function of the type list and selection.",
  ["obs2.py", "obs3.py"],
  [("useindicators branches of rinexsystem2 and fields naming", "obs2.py"), ("_indicators and *3 column stride", "obs3.py")],
  ["return value of georinex.load(useindicators=True/False)"])
p("C04", "RINEX 2 NAV: every broadcast record is read exactly",
  "Loading a well-formed RINEX 2 navigation file (GPS, GLONASS or Galileo) returns each broadcast parameter of each record under its documented name at the record's satellite and clock epoch, equal to the written number to double precision, GLONASS positions, velocities and accelerations being converted from kilometres to metres. Parameters a record omits at its end are missing, repeated records of one satellite and epoch are kept under numbered copies of the satellite, and nothing is returned that the file does not contain.",
  ["inputs"], "all well-formed RINEX 2 NAV files of the three kinds: any satellites and epochs in any order, D/E/d/e exponents, omitted trailing parameters, adjacent signed fields",
  "One reference dataset and single-satellite spot values for three files; the record/field/satellite index mapping is not exercised for other orders, exponents and sparsity.",
  ["nav2.py", "base.py", "common.py"],
  [("rinexnav2: field lists, slicing, sv/time indices, km to m", "nav2.py"), ("_timenav", "nav2.py")],
  ["return value of georinex.load / rinexnav"])
p("C05", "RINEX 3 NAV: every broadcast record is read exactly, repeats included",
  "Loading a well-formed RINEX 3 navigation file with any mix of GPS, Galileo, GLONASS, BeiDou, QZSS, SBAS and NavIC records returns each broadcast parameter of each record under its documented name at the record's satellite and epoch, equal to the written number to double precision, with GLONASS and SBAS state vectors converted from kilometres to metres and blank parameters read as zero. Repeated records of one satellite and epoch are all kept, the later ones under numbered copies of the satellite (suffix _1, _2, ...), and no record is lost because spare fields are written or left out.",
  ["inputs"], "all well-formed RINEX 3 NAV files: systems interleaved in any order, any epochs, spare-field layouts written by receivers, repeated epochs, exponent letters",
  "Reference datasets for four one- or two-satellite files plus counts on two large ones; field mapping per system, spare layouts per record and multi-repeat bookkeeping are not settled by counts.",
  ["nav3.py", "base.py", "common.py"],
  [("rinexnav3: record loop, duplicate-copy loop, merge", "nav3.py"), ("_fields/_sparefields/_num_fields", "nav3.py")],
  ["return value of georinex.load / rinexnav"])
p("C06", "SP3 orbits: every position, velocity and clock is read under its satellite",
  "Loading an SP3-a, -c or -d file returns for every epoch and satellite exactly the position, clock and, when recorded, velocity and clock-rate values written on that satellite's lines (also a velocity without a position), whatever the number and order of satellites listed. Anything an epoch does not record for a listed satellite is missing (NaN), never leftover or arbitrary numbers, and the header's epoch count, coordinate system, orbit type and agency are reported.",
  ["inputs"], "all well-formed SP3 a/c/d files: 1-120 satellites over any number of header lines, with/without velocity, correlation and comment lines, epochs lacking some satellites or velocities",
  "Six fixed files, spot-checked on one satellite; arrays are allocated uninitialised so absent values only look right by chance.",
  ["sp3.py", "base.py"],
  [("load_sp3: per-epoch arrays and line dispatch", "sp3.py"), ("get_sv", "sp3.py")],
  ["return value of georinex.load / load_sp3"])
p("C07", "Epoch timestamps are exact",
  "Every epoch returned by loading, or by listing the times of, any supported file equals the calendar date and time written in the file to the microsecond, including fractional seconds, century resolution of two-digit years (80-99 are 19xx, 00-79 are 20xx), leap days and day, month and year boundaries. Times of first and last observation reported from the header are equally exact.",
  ["inputs"], "all epochs 1980-2079 (2-digit years) or 1980-2099 (4-digit), all microsecond fractions",
  "Tests use a dozen whole-second epochs; decimal-to-binary conversion of fractional seconds goes wrong for particular fractions only.",
  ["obs2.py", "obs3.py", "nav2.py", "nav3.py", "sp3.py"],
  [("_timeobs/_timehdr", "obs2.py"), ("_timeobs", "obs3.py"), ("_timenav", "nav2.py"), ("_time", "nav3.py"), ("sp3dt", "sp3.py")],
  ["time coordinate of load(), gettime(), header t0/t1"])
p("C08", "Time window returns exactly the in-window part of a full load",
  "Loading any RINEX 2 or 3 OBS or NAV file with a time window returns exactly the epochs and values of a full load whose time lies between start and stop, both inclusive, whether the bounds are given as datetimes or as ISO strings and whatever other options or record order are used. Windows before, after or between epochs give a result without data, and a stop before start is refused with ValueError.",
  ["inputs", "configurations"], "all OBS/NAV 2/3 files incl. satellite-ordered (non-chronological) NAV files x all windows (boundaries on/off epochs, empty, one-sided) x option combinations",
  "Four windows on four files; interaction of skipping with record lengths, early stop and record order is not covered.",
  ["base.py", "obs2.py", "obs3.py", "nav2.py", "nav3.py", "utils.py"],
  [("tlim skip/break logic", "obs2.py"), ("tlim skip/break logic", "obs3.py"), ("tlim skip logic", "nav2.py"), ("tlim skip logic", "nav3.py"), ("_tlim", "utils.py")],
  ["load(tlim=...) vs full load filtered by the monitor"])
p("C09", "System selection returns exactly the selected part of a full load",
  "Loading a RINEX 2 or 3 OBS file or a RINEX 3 NAV file for a chosen system or collection of systems returns exactly the values, epochs and satellites that a full load returns for satellites of those systems, however the selection is written (string, list, tuple, set, any order). Selecting a system the file does not contain never yields data of other systems.",
  ["inputs", "configurations"], "all files x all subsets of systems x all spellings and orders of the selection",
  "Three selections on two files; column selection per system and merge order depend on the system list and on set iteration order.",
  ["obs2.py", "obs3.py", "nav3.py", "base.py"],
  [("use loop", "obs2.py"), ("obsheader3 fields selection", "obs3.py"), ("use skip", "nav3.py")],
  ["load(use=...) vs full load filtered by the monitor"])
p("C10", "Measurement selection returns exactly the selected types of a full load",
  "Loading a RINEX 2 or 3 OBS file for chosen measurements returns exactly the observation types whose names start with one of the requested names, with exactly the values a full load gives them, whatever the order, number and position of the requested types in the file and whether a single name or a list is given. Requests matching nothing return no variables.",
  ["inputs", "configurations"], "all OBS 2/3 files x all subsets, orders and prefixes of measurement names x indicators",
  "A few selections on two files with one type layout; column index selection depends on the layout of each system's type list.",
  ["obs2.py", "obs3.py"],
  [("fields_ind", "obs2.py"), ("sysind boolean column mask", "obs3.py")],
  ["load(meas=...) vs full load filtered by the monitor"])
p("C11", "Decimation keeps the right epochs with their own data",
  "Loading an OBS file with a decimation interval keeps the first epoch and then each epoch that lies at least one interval after the running mark (which starts at the first epoch and advances one interval per kept epoch), in RINEX 2 and RINEX 3, fast or strict, alone or inside a time window, with the interval given as seconds or timedelta. Each kept epoch carries its own time and exactly the values of a full load at that time; negative intervals are refused with ValueError.",
  ["inputs", "configurations"], "all OBS 2/3 files, regular and irregular epoch spacing x all intervals x fast/strict x windows",
  "Only the number of kept epochs is asserted for a few intervals on two files; whether times and values stay paired is not asserted at all.",
  ["obs2.py", "obs3.py", "common.py"],
  [("interval skip and j index", "obs2.py"), ("interval skip", "obs3.py"), ("check_time_interval", "common.py")],
  ["load(interval=...) vs full load filtered by the reference rule"],
  [("last_epoch", "decimation mark", "obs2.rinexsystem2, obs3.rinexobs3")])
p("C12", "Fast and strict RINEX 2 reading agree",
  "For every RINEX 2 OBS file and option set, reading with speculative preallocation returns the same dataset (times, satellites, types, values, metadata other than the fast flag) as strict reading. Speculative reading may instead fail with an error that tells the user to use strict mode, but only for files that average fewer than six satellites per epoch or have mostly empty records, and it never silently drops or shifts an epoch.",
  ["inputs", "configurations"], "all OBS 2 files (few/many satellites, short lines, odd formatting, many epochs) x options",
  "One one-epoch file is compared; the estimate depends on file size, line lengths of the first epoch and satellite counts.",
  ["obs2.py"],
  [("_fast_alloc, _num_times", "obs2.py"), ("times[j] bookkeeping", "obs2.py")],
  ["load(fast=True) vs load(fast=False)"])
p("C13", "Compression, container and path form do not change what is read",
  "Loading, reading the header of and listing the times of the same RINEX or SP3 text gives identical results whether it is a plain file, gzip, bzip2, single-member zip or LZW (.Z) file (with the usual suffix in any case, or recognised by content), and for RINEX a text stream; path given as string or Path, absolute, relative, starting with ~ or through a symbolic link makes no difference. Non-ASCII bytes in comments and Windows line endings are equally harmless in every container, and so is a wrong count of observation types in the header.",
  ["inputs", "configurations"], "all supported file kinds x containers x suffix spellings x str/Path/StringIO x load/rinexheader/rinexinfo/gettime",
  "One file per container, none compared against its plain form for all entry points.",
  ["rio.py", "utils.py", "base.py"],
  [("opener: magic numbers and suffixes", "rio.py"), ("rinexinfo", "rio.py"), ("rinexheader/gettime", "utils.py")],
  ["results of load/rinexheader/rinexinfo/gettime per container vs plain"])
p("C14", "Hatanaka-compressed files read the same as the original",
  "For every RINEX 2 or 3 observation file, its Hatanaka compact form (plain or inside gzip, bzip2, zip or LZW) loads to the same times, satellites, types, values and receiver metadata as the original under every option, and lists the same epochs.",
  ["inputs", "configurations"], "all OBS 2/3 files compressible by rnx2crx x outer containers x options",
  "Three fixed compressed files are spot-checked on satellites and times; none is compared to its uncompressed original.",
  ["rio.py", "obs2.py", "obs3.py"],
  [("is_crinex branches of opener", "rio.py"), ("rinex_version", "rio.py")],
  ["load/gettime of compact form vs original"])
p("C15", "NetCDF conversion loses nothing",
  "Converting any OBS, NAV or SP3 input to NetCDF4 with any read options and reading the file back returns the same variables, coordinates, values (missing values included) and metadata as the in-memory result, and the in-memory result of a converting load equals that of a plain load. A file holding both OBS and NAV groups gives both back unchanged, whichever was written first; a conversion that replaces an earlier one leaves nothing of it behind.",
  ["inputs", "configurations", "histories"], "all inputs x options x output path forms (file, directory) x order of writing groups",
  "Two dozen files are round-tripped with default options and only values, not metadata or sub-second times, are compared.",
  ["base.py", "sp3.py", "rio.py"],
  [("to_netcdf with ENC; group mode", "base.py"), ("load(.nc)", "base.py"), ("load_sp3 outfn", "sp3.py")],
  ["load(out=...) then load(.nc) vs in-memory"])
p("C16", "Converted data is never overwritten or damaged unless asked",
  "Writing an OBS or NAV group into an existing NetCDF file that already has that group, without the overwrite option, fails with ValueError and leaves every group of the file unchanged; if the file lacks the group it is added and the other group is unchanged. With overwrite the group afterwards holds the new data, and no load, listing or conversion ever modifies, renames or deletes its input file or writes anywhere but the requested output.",
  ["histories", "inputs"], "all sequences of conversions of OBS/NAV files into shared output files with and without overwrite, failed conversions included",
  "No test writes twice to one file.",
  ["base.py"],
  [("_groupexists", "base.py"), ("outfn handling", "base.py")],
  ["contents of output files after each step; file-open events"])
p("C17", "Batch conversion equals converting each file alone and survives bad files",
  "Batch conversion of a directory produces, for every matching file that loads on its own, an output file named after it with the same contents as converting it alone with the same options. Files that cannot be read, are unsupported or lack the requested data are reported and skipped without stopping the batch or affecting other outputs, and nothing is written for files that do not match the pattern. An output is named after the file as it is listed in the directory, symbolic links included.",
  ["inputs", "fault_sequences", "configurations"], "all directories mixing good OBS/NAV files, compressed files and every kind of bad file, in any order x options",
  "Batches in the tests hold one file at a time; the only bad files are blank headers.",
  ["base.py"],
  [("batch_convert loop and exception filter", "base.py")],
  ["set and contents of output files, log records"])
p("C18", "Listed times and loaded times agree",
  "For every OBS file the listed times are exactly the epochs written in the file in file order, and for every NAV file the sorted distinct record epochs, each to the microsecond. Every time in a loaded dataset is a listed time, and every listed time that carries data is in the loaded dataset.",
  ["inputs"], "all OBS/NAV 2/3 files incl. event records and satellite-ordered NAV",
  "Counts of times for ten files; listing and loading are separate parsers that can drift apart.",
  ["obs2.py", "obs3.py", "nav2.py", "nav3.py", "utils.py"],
  [("obstime2", "obs2.py"), ("obstime3", "obs3.py"), ("navtime2", "nav2.py"), ("navtime3", "nav3.py"), ("gettime", "utils.py")],
  ["gettime() vs model and vs load().time"])
p("C19", "Header facts are reported faithfully",
  "The version, kind (OBS/NAV/SP3) and satellite system of a file are identified from its first line for every RINEX 2/3 and SP3 variant, and the header query returns the written label contents, observation types, position, interval, first/last epoch, ionospheric and time-system correction coefficients. A loaded dataset's metadata (version, type, file name, time system, interval from the header or else the median epoch spacing, position, receiver clock offsets, ionospheric coefficients) states the same facts.",
  ["inputs"], "all well-formed headers: optional labels present/absent in any order, any coefficients, continuation lines, mixed/pure systems",
  "Spot checks on six headers.",
  ["rio.py", "obs2.py", "obs3.py", "nav2.py", "nav3.py", "common.py", "utils.py"],
  [("rinexinfo/rinex_version", "rio.py"), ("obsheader2", "obs2.py"), ("obsheader3", "obs3.py"), ("navheader2 and ION ALPHA/BETA", "nav2.py"), ("navheader3", "nav3.py"), ("determine_time_system", "common.py")],
  ["rinexinfo, rinexheader, dataset attrs vs model"])
p("C20", "What is not supported RINEX is refused, not misread",
  "A file or stream whose first non-blank line is not a RINEX 1-3 OBS/NAV, compact RINEX or SP3 a/c/d header (empty, blank, binary, truncated or damaged first line) is refused with ValueError by load, header and time listing, and a missing file with FileNotFoundError; unsupported versions and file types are refused with an exception as well. Nothing is written to the requested output in that case, and no such input is reported as an OBS or NAV dataset.",
  ["inputs"], "all non-RINEX contents and all corruptions of the version/type line, in every container",
  "A handful of blank or missing files.",
  ["rio.py", "base.py", "utils.py"],
  [("first_nonblank_line, rinex_version, rinexinfo", "rio.py"), ("dispatch in load", "base.py")],
  ["exception type and outputs of load/rinexheader/gettime/rinexinfo"])
p("C21", "A truncated file never yields wrong data",
  "If a data file is cut off at the end of any line after its header, loading it either fails with ordinary errors or returns a dataset in which every epoch or record complete before the cut is present with its exact values and every other value is either the one written in the original file for that epoch, satellite and type or missing. For OBS files, and SP3 files cut after their first epoch line, loading such a truncated file succeeds.",
  ["crash_points", "inputs"], "every line boundary after the header of generated OBS 2/3, NAV 2/3 and SP3 files",
  "No test truncates a data file at all points; one truncated SP3 test is commented out in the repository.",
  ["obs2.py", "obs3.py", "nav2.py", "nav3.py", "sp3.py"],
  [("readline past EOF in the epoch loops", "obs2.py"), ("same", "obs3.py"), ("record assembly", "nav3.py"), ("record assembly", "nav2.py"), ("last-epoch assembly", "sp3.py")],
  ["load() of every line prefix vs the full model"])
p("C22", "Event records and inserted comments do not disturb observations",
  "Event records in the body of an OBS file (antenna moved, new site occupation, header information, external event, with their declared number of special records, with or without a time) and cycle-slip records (epoch flag 6, slips in the format of observations) are not reported as epochs with data or as satellites and do not change any observation before or after them; power-failure-flagged epochs are kept as ordinary observations. Unparseable epoch lines between epochs cost at most the records that belong to them, and so does an epoch line of which one field (date, count, satellite, flag or clock offset) is damaged.",
  ["inputs"], "all placements, flags 1-6, record counts and contents of event records in OBS 2/3 files",
  "One junk-line file; event flags are not exercised.",
  ["obs2.py", "obs3.py"],
  [("epoch-flag filter in _timeobs", "obs2.py"), ("epoch loop", "obs3.py")],
  ["load()/gettime() with events inserted vs without"])
p("C23", "Insignificant layout does not matter",
  "Line-ending style, trailing blanks or their removal, blanks after the last field, a missing newline at the end of the file, blank lines before the header (within the documented allowance), between epochs or records or at the end of the file, order of optional header labels and comments, and satellite numbers padded with a blank instead of zero never change the loaded data.",
  ["inputs", "configurations"], "all layout rewrites of generated and of real files of every kind",
  "The fixed test files have one layout each.",
  ["rio.py", "obs2.py", "obs3.py", "nav2.py", "nav3.py", "sp3.py"],
  [("first_nonblank_line", "rio.py"), ("slicing to 80 columns, padding", "obs2.py"), ("genfromtxt fixed widths", "obs3.py"), ("newline removal and field count", "nav3.py"), ("newline removal", "nav2.py")],
  ["load() of rewritten layout vs original"])
p("C24", "Broadcast orbits convert to the correct Earth-fixed position",
  "For GPS and Galileo ephemerides loaded from a file (from single-system or mixed files, one satellite selected, any number of epochs) the Keplerian-to-ECEF conversion returns the position given by the interface-specification algorithm, with Kepler's equation solved to convergence, within one metre at every epoch. For GLONASS and SBAS it returns the broadcast position unchanged.",
  ["inputs"], "all physically meaningful elements: eccentricity 0-0.2, any anomalies, node and perigee angles, harmonic corrections, weeks and times of ephemeris, epochs within the fit interval",
  "One GPS element set at a relative tolerance of 1e-4 (2.6 km).",
  ["keplerian.py"],
  [("keplerian2ecef", "keplerian.py")],
  ["keplerian2ecef() output vs independent solution"])
p("C25", "Reads are independent of history and free of side effects",
  "The result of every read depends only on the current contents of its input and its arguments: any sequence of earlier loads, header queries, time listings and failed reads, on the same or other files, with any options, leaves later results unchanged, including after the file is replaced by another one of the same name. Reads do not change the caller's arguments, streams' contents or results returned earlier, and do not leave files open or temporary files behind; they leave no process-wide setting (working directory, environment, NumPy error state and print options, warning filters, logging level, locale, random state) changed.",
  ["histories"], "all histories of API calls over a pool of files that are rewritten between calls",
  "Each test makes one or two calls in isolation.",
  ["base.py", "rio.py", "utils.py", "obs2.py", "obs3.py", "nav2.py", "nav3.py"],
  [("no module state; opener context manager", "rio.py"), ("StringIO seek", "rio.py")],
  ["results after histories vs fresh model; open file descriptors; argument snapshots"])
p("C26", "Results are deterministic",
  "The same input and arguments give the same variables, coordinates, values and metadata in every run: results do not depend on the interpreter's hash seed or optimisation mode, on the time zone, locale or working directory, on the order in which a selection is written, or on the previous contents of memory used for result arrays.",
  ["schedules", "inputs", "configurations"], "all files and options x hash seeds x memory contents",
  "Tests run once per interpreter with a fixed hash seed and fresh (mostly zero) memory.",
  ["obs2.py", "obs3.py", "nav2.py", "nav3.py", "sp3.py"],
  [("iteration over sets of systems and satellites", "nav3.py"), ("np.empty buffers", "sp3.py"), ("np.empty masks", "obs3.py")],
  ["outputs under memory-poisoned allocation and different PYTHONHASHSEED"])
p("C27", "Concurrent reads do not interfere",
  "Any number of threads of one process loading, querying headers of or listing times of the same or different RINEX and SP3 files at the same time, with different options, each get exactly the result of a lone call.",
  ["schedules"], "all interleavings of concurrent text reads",
  "No test uses threads.",
  ["base.py", "rio.py", "obs2.py", "obs3.py", "nav2.py", "nav3.py", "sp3.py"],
  [("all parser state is local to the call", "base.py")],
  ["per-call results recorded at the client boundary under forced thread switching"])
p("C28", "Receiver location table reports every receiver once, correctly",
  "For any set of OBS files (plain, compressed or converted) the location table has one row, named after the file, for exactly those files whose header gives a receiver position, with the geodetic latitude and longitude of that position (the first, should the header repeat it) and the header's sampling interval when given. Files without a position or that cannot be read do not disturb the other rows.",
  ["inputs", "configurations"], "all sets of files and positions on and near the Earth",
  "One directory with one asserted row.",
  ["geo.py", "obs2.py", "obs3.py", "utils.py"],
  [("get_locations", "geo.py")],
  ["returned table vs model"])
p("C29", "Command-line tools do what the API does",
  "The read, time and batch-convert command-line modules, given options for output, systems, measurements, time limits, indicators, strict mode and interval, succeed on valid files and write the same data as, or print the times reported by, the corresponding API call with the same options.",
  ["configurations", "inputs"], "all files x option combinations of the three commands",
  "Three invocations whose output contents are not examined.",
  ["read/__main__.py", "time/__main__.py", "rinex2hdf5/__main__.py"],
  [("argument parsing and forwarding", "read/__main__.py"), ("same", "rinex2hdf5/__main__.py"), ("eachfile", "time/__main__.py")],
  ["exit status, stdout and written files of subprocesses"])
p("C30", "Damage inside a record stays in that record",
  "If characters of one OBS, NAV or SP3 record (not its epoch, satellite and count columns) are overwritten, cut off or appended by any other characters, including control and non-ASCII ones but not line breaks, load either fails with an ordinary error or returns every value of every other record exactly, with the same metadata and no invented epoch or satellite, and listed times are unchanged. A line of a record lost, doubled, split or joined costs at most that OBS epoch or NAV record and the next one. Any content whatever makes a read end in bounded time with a result or an ordinary exception, the file unchanged.",
  ["inputs", "faults"], "all single-record damages of all files",
  "Tests have a handful of specially prepared bad files.",
  ["obs2.py", "obs3.py", "nav2.py", "nav3.py", "sp3.py"],
  [("record to number conversion", "obs2.py"), ("_epoch", "obs3.py"), ("record reading", "nav3.py"), ("record reading", "nav2.py"), ("record reading", "sp3.py")],
  ["load of the damaged file vs. load of the intact one, cell by cell"])
p("C31", "Plots show exactly the loaded data",
  "Plotting any dataset read (from file, stream or converted file, under any options) or any receiver location table succeeds and leaves the data unchanged. OBS: one figure per L1 and L1C that has values, with one labelled curve per satellite holding exactly its values at their epochs and interrupted where one is missing. NAV: one labelled track per GPS, Galileo, GLONASS and SBAS satellite through the geodetic positions of its records. Locations: one labelled marker per receiver at its longitude and latitude. The read tool's plot option and the location map tool draw the same from files; the plotting example draws the requested measurements of the requested GPS satellites in the requested time.",
  ["inputs", "configurations"], "all datasets and location tables",
  "No test draws anything.",
  ["plots.py", "plots_geo.py", "read/__main__.py", "loc/__main__.py", "plot/__main__.py"],
  [("obstimeseries", "plots.py"), ("navtimeseries, receiver_locations", "plots_geo.py"), ("plot option", "read/__main__.py")],
  ["artists of the figures (curves, tracks, markers, legends) read back on an off-screen canvas"])
p("C32", "Every public entry point gives the same data",
  "For every file and options, given as path, text, stream or compressed: rinexobs / rinexnav and the version-specific readers (rinexobs2, rinexobs3, rinexnav2, rinexnav3, load_sp3) return what load returns, whether verbose or not, and write it to the output file when given one; obstime2/3 and navtime2/3 list what gettime lists, the times written in the file; obsheader2/3 and navheader2/3 give what rinexheader gives. A dataset the user stores with to_netcdf under the group name is read back by load. to_datetime gives each time exactly. globber lists exactly the regular files that match any pattern, or the file itself.",
  ["inputs", "configurations"], "all files x options x forms of the source",
  "Tests compare two entry points for one file.",
  ["__init__.py", "base.py", "obs2.py", "obs3.py", "nav2.py", "nav3.py", "sp3.py", "utils.py", "rio.py"],
  [("public names", "__init__.py"), ("dispatch", "base.py"), ("globber, to_datetime", "utils.py")],
  ["return values of the entry points compared with each other"])
pathlib.Path(__file__).resolve().parents[1].joinpath("properties.jsonl").write_text(
    "".join(json.dumps(x) + "\n" for x in P))
print(len(P), [x["id"] for x in P if len(x["title"]) > 80])
