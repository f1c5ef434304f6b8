"""Writes properties.jsonl (single source of the property texts)."""
import json, pathlib
P = []
def prop(id, title, statement, over, text, why, files, mech, state=(), observe=()):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=["src/georinex/"+f for f in files],
            mechanism=[dict(name=n, where="src/georinex/"+w) for n, w in mech],
            state=[dict(name=n, meaning=m, where="src/georinex/"+w) for n, m, w in state],
            observe_at=list(observe), hook_needed=None)))

prop("C01", "Epoch timestamps equal the written date and time, to the microsecond",
 "The timestamp reported for a RINEX 2/3 observation or navigation record, for a TIME OF FIRST/LAST OBS header line, or for an SP3 epoch line is exactly the calendar date and time in that record's fixed columns, with fractional seconds truncated to whole microseconds and never off by one. Two-digit years 80-99 mean 1980-1999 and 00-79 mean 2000-2079; SP3 values of 60 s, 60 min or 24 h carry into the next unit. A line whose date columns do not form a valid date yields no timestamp, and RINEX 2 observation epochs are accepted only for epoch flags 0, 1, 5 and 6.",
 ["inputs"], "every text line whose seconds field is written with at most the decimals its format allows (F11.7 OBS, F5.1 NAV 2, F11.8 SP3)",
 "The tests only contain whole-second epochs of a few files; the quantifier is over all dates, all sub-second values and both century windows.",
 ["obs2.py","obs3.py","nav2.py","nav3.py","sp3.py","common.py"],
 [("OBS 2 epoch decoder","obs2.py:_timeobs"),("OBS 2 header time decoder","obs2.py:_timehdr"),("OBS 3 epoch decoder","obs3.py:_timeobs"),("NAV 2 epoch decoder","nav2.py:_timenav"),("NAV 3 epoch decoder","nav3.py:_time"),("SP3 epoch decoder","sp3.py:sp3dt"),("OBS 3 header time","obs3.py:obsheader3")],
 observe=["dataset time coordinate","gettime()","rinexheader()['t0'/'t1']"])

prop("C02", "RINEX 2 observations land at their own epoch, satellite and observable",
 "In the dataset read from a well-formed RINEX 2 observation file (any number of observables and of satellites per epoch, any satellite number 01-99), the cell of an epoch, satellite and observable is the number written in that satellite's own record at that observable's 14-column field, and every cell whose field is blank, or whose satellite was not observed at that epoch, is NaN. With indicators requested, each observable's loss-of-lock and signal-strength cells come from the two columns following that same field. No record is lost, duplicated or attributed to another epoch or satellite, including where the satellite list or the observables continue over several lines.",
 ["inputs","configurations"], "every well-formed RINEX 2 OBS text, every selected system, with and without indicators",
 "Tests compare a handful of sample files with stored NetCDF files; the number of observables, satellites, continuation lines and their mixture is unbounded.",
 ["obs2.py"], [("record reader","obs2.py:rinexsystem2"),("satellite list reader","obs2.py:_getsvind"),("satellite list line","obs2.py:_getSVlist"),("record skipping","obs2.py:_skip"),("observable list","obs2.py:obsheader2"),("system merge","obs2.py:rinexobs2")],
 [("data","page x time x satellite table being filled","obs2.py:rinexsystem2"),("f","shared line cursor of the text","obs2.py:rinexsystem2")],
 ["gr.load(...) dataset cells"])

prop("C03", "RINEX 3 observations land at their own epoch, satellite and observable",
 "In the dataset read from a well-formed RINEX 3 observation file (any number of satellites per epoch up to 999, any per-system list of observables), the cell of an epoch, satellite and observable is the number written in that satellite's own line at the 14-column field its own system's header list gives that observable, and is NaN when the field is blank or absent, including when the line is cut short or holds nothing but the satellite name. With indicators requested, loss-of-lock and signal-strength cells come from the two columns following that same field. No record is lost, duplicated or attributed to another epoch, satellite or observable.",
 ["inputs","configurations"], "every well-formed RINEX 3 OBS text (epoch flags 0 and 1), every system and measurement selection, with and without indicators",
 "Tests compare two epochs of a sample file with stored NetCDF files; systems with different observable lists, large satellite counts and empty lines are not sampled.",
 ["obs3.py"], [("record reader","obs3.py:rinexobs3"),("epoch assembly","obs3.py:_epoch"),("indicators","obs3.py:_indicators"),("observable lists","obs3.py:obsheader3")],
 [("data","dataset accumulated over epochs","obs3.py:rinexobs3")], ["gr.load(...) dataset cells"])

prop("C04", "RINEX 2 navigation parameters land in their own variable, satellite and epoch",
 "In the dataset read from a well-formed RINEX 2 navigation file (GPS, GLONASS or Galileo), the cell of a parameter, satellite and epoch is the number written in that record at that parameter's position in the broadcast orbit layout of its system, with Fortran D exponents understood. GLONASS position, velocity and acceleration are in metres, the file's kilometres times 1000, and everything else is as written. Cells for which the file has no record, or whose record ends early, are NaN, and the reader stays on record boundaries so that no record is lost or mixed with a neighbour.",
 ["inputs"], "every well-formed RINEX 2 NAV text of the three systems, in any record order",
 "Tests check a few numbers of a few files; the layout has 15 to 29 parameters per system and any number of records.",
 ["nav2.py","common.py"], [("record reader","nav2.py:rinexnav2"),("epoch decoder","nav2.py:_timenav"),("record skipping","nav2.py:_skip")],
 [("raws","concatenated record texts","nav2.py:rinexnav2")], ["gr.load(...) dataset cells"])

prop("C05", "RINEX 3 navigation parameters land in their own variable, satellite and epoch",
 "In the dataset read from a well-formed RINEX 3 navigation file, the cell of a parameter, satellite and epoch is the number written in that record at that parameter's position in the broadcast orbit layout of its constellation, with Fortran D exponents understood, blank fields inside a record read as zero, and optional spare or fit-interval fields that are absent left out (an absent QZSS fit interval reads as zero) without shifting the others. GLONASS and SBAS position, velocity and acceleration are in metres, the file's kilometres times 1000. Records that repeat a satellite and epoch are all kept, the later ones under suffixed satellite names, and no record is lost or mixed with a neighbour.",
 ["inputs"], "every well-formed RINEX 3 NAV text over the constellations G R E C J S I, in any record order and with any number of repeats, all records of one satellite giving the same number of fields and blanks at the end of an orbit line written out (except the Galileo and BeiDou spares the reader knows to be left out)",
 "Tests check a few numbers of a few files; layouts, absent-field patterns, interleavings and repeats are not enumerated.",
 ["nav3.py"], [("record reader","nav3.py:rinexnav3"),("layout tables","nav3.py:_fields"),("absent fields","nav3.py:_sparefields"),("field count","nav3.py:_num_fields"),("epoch decoder","nav3.py:_time"),("record skipping","nav3.py:_skip")],
 [("raws","concatenated record texts","nav3.py:rinexnav3")], ["gr.load(...) dataset cells"])

prop("C06", "SP3 positions, clocks and velocities land at their own satellite and epoch",
 "In the dataset read from a well-formed SP3-a/c/d file, the position, clock, velocity and clock-rate of a satellite at an epoch are the numbers written in that satellite's P and V records of that epoch, and the satellite list is the one declared in the header over as many lines as it takes. Whatever an epoch does not give (velocity, clock-rate, a missing satellite record) is NaN, never leftover memory. Every epoch of the file appears once with its own time.",
 ["inputs"], "every well-formed SP3 text, records of an epoch in any order and for any subset of the declared satellites, with or without velocity records",
 "Tests read one epoch of five files; uninitialised cells and multi-line satellite lists depend on inputs never sampled.",
 ["sp3.py"], [("record reader","sp3.py:load_sp3"),("satellite list","sp3.py:get_sv"),("epoch decoder","sp3.py:sp3dt")],
 [("ecef/clock/vel","per-epoch tables","sp3.py:load_sp3")], ["gr.load(...) dataset cells"])

prop("C07", "Time limits keep exactly the records inside the window",
 "Reading a RINEX 2/3 observation or navigation file with a start and a stop returns exactly those records of the unrestricted read whose epoch lies in the closed interval, with unchanged values, wherever the limits fall relative to the file's epochs. Observation files and RINEX 2 navigation files are read in file order up to the first epoch past the stop; records of a RINEX 3 navigation file may come in any order. Records outside the window are skipped whole, so no part of them is ever read as another record.",
 ["inputs","configurations"], "every well-formed file, every pair start <= stop; epochs in time order except for RINEX 3 NAV",
 "Tests use one window per file type; boundary equality, windows before/after the file and unordered records are unsampled.",
 ["obs2.py","obs3.py","nav2.py","nav3.py","utils.py"], [("OBS 2 window","obs2.py:rinexsystem2"),("OBS 3 window","obs3.py:rinexobs3"),("NAV 2 window","nav2.py:rinexnav2"),("NAV 3 window","nav3.py:rinexnav3"),("limit parsing","utils.py:_tlim")],
 [], ["dataset time coordinate and cells"])

prop("C08", "Selecting systems or measurements only restricts the full read",
 "Reading an observation file with a set of satellite systems and/or a list of measurement prefixes returns exactly the satellites of those systems and exactly the observables whose name starts with one of the prefixes, each cell equal to the unrestricted read. Reading a RINEX 3 navigation file with a set of systems returns exactly the records of those systems with unchanged values. Records that are filtered out are skipped whole.",
 ["inputs","configurations"], "every well-formed file and every system set and prefix list",
 "Tests compare single selections on one file; the selection lattice times file structure is unbounded.",
 ["obs2.py","obs3.py","nav3.py"], [("OBS 2 observable index","obs2.py:obsheader2"),("OBS 2 satellite filter","obs2.py:rinexsystem2"),("OBS 3 selection","obs3.py:obsheader3"),("OBS 3 epoch","obs3.py:_epoch"),("NAV 3 filter","nav3.py:rinexnav3")],
 [], ["dataset variables, sv coordinate and cells"])

prop("C09", "Decimation keeps one epoch per interval step, with its own values",
 "Reading an observation file with a positive interval keeps the first epoch read, T0, and afterwards keeps an epoch exactly when it is at or past T0 + k*interval, where k is the number of epochs kept so far (so steps missed in a data gap are made up for by the epochs that follow it). Kept epochs carry exactly the values of the undecimated read at that time, in both fast and strict mode; an interval of zero or none keeps everything and a negative number of seconds is refused.",
 ["inputs","configurations","histories"], "every well-formed RINEX 2/3 observation file with increasing epochs and every interval",
 "Tests only count epochs of two regularly sampled files; gaps, jitter, and strict mode with an interval are unsampled.",
 ["obs2.py","obs3.py","common.py"], [("OBS 2 decimation","obs2.py:rinexsystem2"),("OBS 3 decimation","obs3.py:rinexobs3"),("interval check","common.py:check_time_interval")],
 [("last_epoch","start of the current step","obs2.py:rinexsystem2")], ["dataset time coordinate and cells"])

prop("C10", "Fast and strict reading of RINEX 2 observations give identical data",
 "Whenever the default fast reading of a RINEX 2 observation file succeeds, reading the same file with fast=False and the same options gives the same dataset cells at the same times, whatever the time limits, interval, indicators and selection. The speculative preallocation is only ever an upper bound on the number of epochs: it never truncates data silently.",
 ["inputs","configurations"], "every well-formed RINEX 2 OBS text and every combination of options",
 "One test compares the two modes on a single-epoch file without options.",
 ["obs2.py"], [("time preallocation","obs2.py:_num_times"),("prescan","obs2.py:_fast_alloc"),("reader","obs2.py:rinexsystem2"),("strict time list","obs2.py:obstime2")],
 [("times","time table","obs2.py:rinexsystem2")], ["gr.load(fast=True) vs gr.load(fast=False)"])

prop("C11", "The list of times is exactly the list of epochs in the file",
 "Asking for the times of a RINEX 2/3 observation or navigation file returns, to the microsecond, one entry per epoch record of a well-formed observation file in file order, and the sorted distinct record epochs of a well-formed navigation file. No data, continuation or orbit line is ever taken for an epoch and no record is skipped over.",
 ["inputs"], "every well-formed RINEX 2/3 OBS/NAV text",
 "Tests check first/last entries or counts of a few files.",
 ["obs2.py","obs3.py","nav2.py","nav3.py","utils.py"], [("OBS 2 times","obs2.py:obstime2"),("OBS 3 times","obs3.py:obstime3"),("NAV 2 times","nav2.py:navtime2"),("NAV 3 times","nav3.py:navtime3"),("dispatch","utils.py:gettime")],
 [], ["gettime()"])

prop("C12", "File kind and version come from the first line and select the matching reader",
 "The version, file type, satellite system and observation/navigation/SP3 kind reported for a text are those encoded in the fixed columns of its first non-blank line; a first line that is not a RINEX, CRINEX or supported SP3 label line is refused with ValueError. Loading, header reading and time listing use the reader of exactly that version and kind with the caller's options, and refuse every other version or kind with an error.",
 ["inputs","configurations"], "every first line, and every combination of kind, version and options",
 "Tests cover the sample files' first lines only.",
 ["rio.py","base.py","utils.py"], [("version","rio.py:rinex_version"),("kind","rio.py:rinexinfo"),("first line","rio.py:first_nonblank_line"),("load dispatch","base.py:load"),("nav dispatch","base.py:rinexnav"),("obs dispatch","base.py:rinexobs"),("time dispatch","utils.py:gettime"),("header dispatch","utils.py:rinexheader")],
 [], ["rinexinfo(), load(), gettime(), rinexheader()"])

prop("C13", "Compressed, Hatanaka and in-memory inputs read as the plain text they contain",
 "For the same RINEX text, a plain file, a .gz, .bz2, .Z or single-member .zip file (recognised by suffix or by content), the Hatanaka-compressed form inside any of these, and an in-memory text stream all give the same dataset cells and times, and the same header records (a Hatanaka file's header mapping also shows its own CRINEX lines and version). Reading always starts at the beginning of the text, whatever the position of a stream passed in. Exactly one text is read per input, and a missing file raises FileNotFoundError.",
 ["inputs","configurations","histories"], "every container kind x Hatanaka or not x header-only or full read x stream position",
 "Tests read one sample per container; combinations such as Hatanaka inside zip are unsampled.",
 ["rio.py"], [("container dispatch","rio.py:opener"),("label check","rio.py:rinex_version"),("first line","rio.py:first_nonblank_line")],
 [], ["load() of the same text in two containers"])

prop("C14", "Writing NetCDF never destroys stored data unless overwriting was asked for",
 "When a RINEX reading is saved to a NetCDF file that already exists, and overwriting was not requested, the groups already in that file stay intact: a new group is added next to them, and saving a group that is already there raises ValueError with the file unchanged. What is written is the dataset that is returned, under the group of its kind (or the caller's), at the requested .nc path or at <input name>.nc in the requested directory, and any other output path is refused.",
 ["inputs","configurations","histories"], "every sequence of saves of observation and navigation data into new or existing files with every group and overwrite flag",
 "Tests write single files into empty directories.",
 ["base.py"], [("write mode","base.py:_groupexists"),("nav save","base.py:rinexnav"),("obs save","base.py:rinexobs"),("target path","base.py:load")],
 [], ["the .nc file before and after"])

prop("C15", "Batch conversion attempts every matching file and one bad file stops nothing",
 "Batch conversion attempts each regular file matching the pattern exactly once, with the caller's options and output location, and a file that is not valid RINEX (ValueError) is reported and skipped without affecting any other file. File lookup by patterns returns exactly the regular files matching, and the path itself when it is a file.",
 ["inputs","configurations","fault_sequences"], "every directory content, pattern and option set, and every position of failing files",
 "Tests convert one file at a time.",
 ["base.py","utils.py"], [("batch loop","base.py:batch_convert"),("lookup","utils.py:globber")], [], ["files written by batch_convert(); globber()"])

prop("C16", "Header reading returns every record under its label with decoded values exact",
 "The header mapping of a RINEX file gives, for each label, the text of that label's lines, and for well-known labels the decoded value: the complete list of observables per file or per system over any number of continuation lines, the first approximate position and its geodetic equivalent (also when the label is repeated), the interval, first/last times, and the ionospheric and time-system coefficients. Reading stops at END OF HEADER, and optional or malformed optional records never make it fail.",
 ["inputs"], "every header with any sequence of labels, repeated or not",
 "Tests look at a few labels of a few files.",
 ["obs2.py","obs3.py","nav2.py","nav3.py","utils.py","common.py"], [("OBS 2","obs2.py:obsheader2"),("OBS 3","obs3.py:obsheader3"),("NAV 2","nav2.py:navheader2"),("NAV 3","nav3.py:navheader3"),("D exponent","common.py:rinex_string_to_float")],
 [], ["rinexheader()"])

prop("C17", "Keplerian elements convert to the broadcast-orbit ECEF position",
 "Converting GPS or Galileo ephemeris records to ECEF gives, for every epoch, the position of the broadcast user algorithm: mean motion from the semi-major axis, time from the week and time of ephemeris (weeks counted from 1980-01-06 for both systems), first-order eccentric anomaly M + e sin M, second-harmonic corrections of latitude, radius and inclination, and rotation by the node longitude corrected for Earth rotation. Glonass and SBAS satellites return their own X, Y, Z unchanged, and any other system is refused.",
 ["inputs"], "every value of every orbital element, any number of epochs",
 "One test checks one GPS point to 1e-4.",
 ["keplerian.py"], [("conversion","keplerian.py:keplerian2ecef")], [], ["keplerian2ecef()"])

prop("C18", "The time system and sampling interval attached to observations are right",
 "The time system attached to an observation dataset is the one implied by the file's satellite system (GPS, GLO, GAL, QZS, BDT, IRN), or for a mixed file the three-letter code of its TIME OF FIRST OBS record, and an unknown system is refused. The interval attribute is the header INTERVAL when present, else the median spacing of the epochs read. The receiver position attached is the first approximate position of the header.",
 ["inputs","configurations"], "every header and every system letter",
 "Tests cover two files.",
 ["common.py","obs2.py","obs3.py"], [("time system","common.py:determine_time_system"),("OBS 2 attributes","obs2.py:rinexsystem2"),("OBS 3 attributes","obs3.py:rinexobs3")], [], ["dataset attributes"])

out = pathlib.Path(__file__).resolve().parent.parent / "properties.jsonl"
out.write_text("".join(json.dumps(p) + "\n" for p in P))
print(len(P))
