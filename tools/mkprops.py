#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as code so that lines stay readable)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, observe, state=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech], "observe_at": observe}
    if state: a["state"] = state
    a["hook_needed"] = None
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a})

prop("P01", "Satellite and channel identities agree in every direction",
 "Every satellite and channel identifier keeps one identity across all the code tables: satellite number to name and back, satellite number to broadcast code and back, channel number to name, unit, level, central wavelength and central wave number and back all return the starting identifier. Identifiers outside the tables always give the documented neutral answer or a reported error, and never the data of another satellite or channel.",
 ["inputs"], "all satellite numbers and broadcast codes (known, retired, unknown, negative), all channel numbers 0..12 and others, all wavelengths within the rounding the coarsest stored format causes",
 "The tests check a handful of constants; agreement of the tables is a statement over every pair of entries and every out-of-table number.",
 ["msat/facts.cpp", "msat/hrit/MSG_spacecraft.cpp", "msat/hrit/MSG_channel.cpp"],
 [("pairs of switch tables, one per direction", "msat/facts.cpp spacecraftIDFromHRIT/ToHRIT, spacecraftName/ID, channel_*"), ("HRIT name tables", "msat/hrit/MSG_spacecraft.cpp, MSG_channel.cpp")],
 ["return values of the lookup functions"])

prop("P02", "Scan geometry conversions are mutually inverse and consistent",
 "Converting between pixel size, column/line scaling factor and apparent Earth diameter in pixels and back returns the starting value to within one part in 100000, for both axes, both signs and both the standard and the high-resolution grid. The nominal resolutions always map to the exact nominal pixel size and scaling factor, horizontal and vertical conversions agree, and a finer grid always gives a smaller pixel and a larger diameter.",
 ["inputs"], "all scaling factors, pixel sizes and diameters from a fraction of the high-resolution grid to several times the standard one, near and at the nominal constants",
 "Tests sample one or two nominal values; the inverse law and monotonicity quantify over the whole range, including values next to the special-cased constants.",
 ["msat/facts.cpp", "msat/facts.h"],
 [("closed-form conversions with exact cases for the nominal grids", "msat/facts.cpp pixelHSizeFromCFAC .. pixelVSizeFromSeviriDY")],
 ["return values of the conversion functions"])

prop("P03", "Sun and satellite angles are right everywhere and at all times",
 "For every date, time, latitude and longitude the cosine of the solar zenith angle lies in [-1, 1], equals the documented solar position series, stays within 0.02 of an independently computed sun position and is the same through every form of the call. The satellite zenith angle at every point agrees with the angle computed from the three-dimensional positions of the observer and a geostationary satellite, and the day of the year is the calendar one for every date, leap years and century years included.",
 ["inputs"], "all Gregorian dates 1980-2060 and century years, all minutes of the day, all latitudes and longitudes including poles, date line and sub-satellite point",
 "Tests compare a few sampled places and dates; errors in one branch (leap century, poles, limb, date line) are reached only by quantifying over the whole domain.",
 ["msat/facts.cpp", "gdal/reflectance/reflectance.cpp"],
 [("solar series and spherical geometry", "msat/facts.cpp cos_sol_za, sat_za, jday")],
 ["return values"])

prop("P04", "Image file names identify the image, and discovery finds exactly its files",
 "Every well-formed segment file name and every colon-separated image name is decoded into the resolution, satellite, product type, channel and time it spells, so that formatting it back gives an equivalent name, and malformed names are refused with a reported error. Looking for the prologue, the epilogue and the segments of an image in a directory gives exactly the files of that resolution, satellite, product, channel and time which exist there, in segment order and for every order of creation, and never a file of another image.",
 ["inputs", "histories"], "all combinations of name fields, underscore padding and directories (trailing slashes, dots, relative and absolute), malformed variants, directories holding any mix of files of several images",
 "Tests parse a few fixed names in one directory layout; the statement quantifies over all names and all directory contents.",
 ["msat/xrit/fileaccess.cpp", "msat/xrit/fileaccess.h", "gdal/xrit/xrit.cpp"],
 [("fixed-offset parser and glob patterns", "msat/xrit/fileaccess.cpp FileAccess::parse, segmentFiles"), ("file identification", "msat/xrit/fileaccess.cpp isValid")],
 ["parsed fields, returned file lists, exceptions"])

prop("P05", "Header records of transmission files decode to the values the bytes encode",
 "For every well-formed sequence of transmission header records, in any order and with any optional records present, each decoded field equals the value the bytes encode, signed, scaled and floating values included, and records that are absent are reported absent. The order of the records never changes their decoding, a line-quality record gives one entry per line of the image, and reading leaves the stream exactly at the start of the data field; records of an unknown type or of a length their type cannot have are refused with a reported error.",
 ["inputs"], "all record sets and orders, all field values including boundary and negative ones, headers with repeated, unknown and wrongly sized records",
 "The test data contain one header layout from one ground station; the law quantifies over all field values and record orders.",
 ["msat/hrit/MSG_header.cpp", "msat/hrit/MSG_header_image_navig.cpp", "msat/hrit/MSG_header_segment_id.cpp", "msat/hrit/MSG_machine.cpp"],
 [("record dispatch by type and length", "msat/hrit/MSG_header.cpp read_from"), ("big-endian field readers", "msat/hrit/MSG_machine.cpp")],
 ["fields of the decoded header, stream position"])

prop("P06", "Prologue and epilogue fields decode to the values at their specified places",
 "For every content of the level 1.5 prologue (with its configuration record) and epilogue, each decoded value of the satellite status, acquisition, celestial event, image description, radiometric and geometric processing and quality records equals the value which the bytes at its place in the published layout encode. Changing the bytes of one field changes that field alone.",
 ["inputs"], "all byte contents of prologue and epilogue records that a valid file may carry, including boundary values, NaN-free floats, every enumeration code",
 "Tests open four real images, in which most fields are zero or constant; only generated contents can tell a field read at the wrong place or with the wrong width.",
 ["msat/hrit/MSG_data.cpp", "msat/hrit/MSG_data_RadiometricProc.cpp", "msat/hrit/MSG_data_ImageDescription.cpp", "msat/hrit/MSG_data_SatelliteStatus.cpp", "msat/hrit/MSG_data_ImageProdStats.cpp"],
 [("sequential decoders with explicit offsets", "msat/hrit/MSG_data_*.cpp read_from")],
 ["public fields and the printed form of each record"])

prop("P07", "No transmission file content crashes the reader or corrupts memory",
 "Whatever bytes a prologue, epilogue or segment file holds - cut short, extended, with any bytes changed or with any length, count or size field altered - reading it either succeeds or ends with an error the caller can catch. It never accesses memory out of bounds, never terminates the process, and always ends.",
 ["inputs", "fault_sequences"], "all truncations, byte and field mutations of generated valid files of every file type, and random contents",
 "Tests only read intact files; the statement is about every damaged input.",
 ["msat/hrit/MSG_header.cpp", "msat/hrit/MSG_data.cpp", "msat/xrit/dataaccess.cpp"],
 [("length checks and exceptions", "msat/hrit/MSG_header.cpp, msat/hrit/MSG_data.cpp read_from")],
 ["process outcome under a memory sanitizer, exceptions"])

prop("P08", "Image lines are assembled from the right segment, whatever is missing",
 "For every set of segment files, column order, segment height and position of the high-resolution window, the pixels read for a line are exactly the samples stored for that line in the segment that holds it, turned to west-left order, and placed at the column where the window lies. Lines of missing segments read as zeros without disturbing other lines, and the result of reading a line never depends on which lines were read before.",
 ["inputs", "histories"], "standard and high-resolution images, any subset of segments present, any segment height, both column orders, any positions of the lower and upper windows, any order of line reads",
 "Tests read a few pixels of complete images; the law is over all subsets of segments, window positions and read orders.",
 ["msat/xrit/dataaccess.cpp", "msat/xrit/dataaccess.h"],
 [("line to segment mapping", "msat/xrit/dataaccess.cpp line_read, line_start, segment")],
 ["line contents and start columns returned by the reader"],
 [{"name": "segment cache", "meaning": "most recently decoded segments", "where": "msat/xrit/dataaccess.h"}])

prop("P09", "A transmission image opens as a correctly described raster",
 "Opening an image through the raster library gives, for every satellite, channel, sub-satellite longitude, time and calibration in the files, a raster of the full-disc size with that projection longitude, the pixel size of its grid, the image time, the channel and satellite identity and unit of the band, and the calibration slope and offset. Each pixel of each block equals the sample of the image line (or its calibrated value for non-linear calibration), and pixels outside the data read as the declared no-data value.",
 ["inputs", "configurations"], "all channels and satellites, sub-satellite longitudes, times, calibration coefficients, sets of segments, and block read orders",
 "The tests open four real images at longitude zero with their fixed calibration; the law is over all header values.",
 ["gdal/xrit/dataset.cpp", "gdal/xrit/rasterband.cpp", "gdal/xrit/xrit.cpp"],
 [("metadata and georeferencing set-up", "gdal/xrit/dataset.cpp init"), ("block reader", "gdal/xrit/rasterband.cpp IReadBlock")],
 ["dataset metadata, projection, geotransform, block contents"])

prop("P10", "Writing GRIB and reading it back returns the same image",
 "For every satellite image and area, an image written as GRIB with any of the supported templates and read back has the same size, satellite, channel, time, projection longitude and pixel geometry, and every pixel equals the original physical value within the stored precision, with missing pixels staying missing. The same area written with different templates describes the same place on Earth.",
 ["inputs", "configurations"], "all satellites, channels, times, sub-satellite longitudes, areas and value ranges (constant, negative, with missing pixels), and all templates",
 "One fixed GRIB and a fixed crop are tested; the round trip quantifies over all images, areas and templates.",
 ["gdal/grib/grib.cpp", "gdal/grib/utils.h"],
 [("template writers", "gdal/grib/grib.cpp GRIBCreateCopy"), ("reader", "gdal/grib/grib.cpp GRIBDataset::init")],
 ["metadata and pixels of the re-read dataset"])

prop("P11", "Cropping and converting keep every pixel on its place on Earth",
 "For every window of every image, the cropped image has exactly the pixels of that window, the place of each pixel on Earth, its calibration, no-data value, time and identity are those of the source, and windows that leave the image are refused or clamped without reading outside it. Converting to another file format, choosing bands and resizing keep the pixels chosen, their metadata and the area covered, every other option of a translator (sample type, rescaling, no-data value, bounds, projection, control points, palette expansion) has its stated effect on every pixel and no other, creation options of the output format are obeyed in any place and number, a translator used again works as a new one, and cropping twice equals cropping once by the combined window.",
 ["inputs", "histories"], "all windows (full, single pixel, touching edges, empty, outside), given in pixels or in projected coordinates, sequences of crops, sizes, pixel types and selections of bands",
 "Tests crop one or two windows of one image; the law quantifies over all windows and their composition.",
 ["msat/gdal/gdaltranslate.cpp", "msat/gdal/dataset.cpp", "tools/msat.cpp"],
 [("window arithmetic and copies", "msat/gdal/gdaltranslate.cpp translate")],
 ["pixels, geotransform and metadata of the result"])

prop("P12", "Pixel and geographic coordinates convert consistently",
 "For every georeferenced image and window, the latitude and longitude computed for a pixel are those of that pixel's place under the published geostationary projection, for windows of any origin and size, and points off the Earth's disc are never given a valid position. Converting a visible place to a pixel and back returns the same pixel.",
 ["inputs"], "all sub-satellite longitudes, pixel sizes, origins, windows and pixels, on the disc, at its limb and off it",
 "Tests look at a few pixels of an image at longitude zero; the law is over all geometries and pixels.",
 ["gdal/reflectance/pixeltolatlon.cpp", "msat/gdal/dataset.cpp", "gdal/utils.cpp"],
 [("projection set-up and transforms", "gdal/reflectance/pixeltolatlon.cpp, msat/gdal/dataset.cpp")],
 ["computed coordinates"])

prop("P13", "Computed products equal their formula at every pixel of every window",
 "For every image time, area and value, each computed product - reflectance with sun angle correction, reflectance of the 3.9 micron channel, solar zenith angle cosine, satellite zenith angle, day of the year - holds at each pixel the value of its published formula for that pixel's place and the image's time, within its stated limits (the satellite angle in radians and relative to the longitude the satellite is at, at most 1, with 0 for missing; seconds of the image time ignored). The result does not depend on which window or order of blocks is read, and pixels missing in an input are missing in the output.",
 ["inputs", "configurations"], "all times of day and year, areas, channels, input values and missing pixels, window splits and block read orders",
 "Tests check a few pixels of one noon image; the formula must hold at night, dawn, all seasons and for every window.",
 ["gdal/reflectance/base.cpp", "gdal/reflectance/reflectance.cpp", "gdal/reflectance/cos_sol_za.cpp", "gdal/reflectance/sat_za.cpp", "gdal/reflectance/jday.cpp", "gdal/utils.cpp"],
 [("per-block computation on top of the source bands", "gdal/reflectance/*.cpp IReadBlock")],
 ["pixels of the computed bands"])

prop("P14", "Stored counts convert to the documented physical values",
 "For every channel, count and calibration coefficients, the calibration gives slope times count plus offset as radiance, and for the thermal channels the equivalent brightness temperature of the published inverse Planck formula with the channel's constants. Missing counts stay missing, the calibrated view of any integer band equals count times scale plus offset at every other pixel, the reflectances of the solar channels are the published multiple of the radiance, and brighter counts never give colder temperatures when the slope is positive.",
 ["inputs"], "all channels, bit depths, counts and plausible slopes and offsets",
 "Tests use the coefficients of four images; the formula must hold for all coefficients and counts of every channel.",
 ["msat/hrit/MSG_data_RadiometricProc.cpp", "msat/gdal/dataset.cpp", "gdal/utils.cpp"],
 [("calibration tables", "msat/hrit/MSG_data_RadiometricProc.cpp get_calibration"), ("calibrated band", "gdal/utils.cpp")],
 ["calibration arrays and calibrated pixels"])

prop("P15", "Native-format images decode exactly and damaged ones are reported",
 "For every native-format file, the decoded main header values, the numbers of lines and columns, and each ten-bit sample of each selected channel equal what the file stores, for any selection of channels and areas, including the three lines of the high-resolution channel per standard line; the images the tools extract hold these samples. Damaged or truncated files end in a reported error without out-of-bounds accesses, and objects holding decoded data can be copied, reused and destroyed in any order.",
 ["inputs", "fault_sequences"], "all channel selections, area sizes (the numbers of samples that do and do not fill the last bytes of a line included) and sample values, truncations and mutated length fields",
 "There are no tests of this format at all.",
 ["msat/msg-native/MSG_native.cpp", "msat/msg-native/MSG_native_line.cpp", "msat/msg-native/MSG_native_header.cpp", "msat/msg-native/MSG_native_packetheader.cpp"],
 [("record walk", "msat/msg-native/MSG_native.cpp"), ("ten-bit unpacking", "msat/msg-native/MSG_native_line.cpp to_sample")],
 ["decoded samples, headers, process outcome"])

prop("P16", "OpenMTP-IDS images survive reading, writing and slicing",
 "Reading an OpenMTP-IDS file and writing it gives back the same bytes, and every header and sample value read equals what the big-endian file encodes. Selecting a range of scan lines keeps exactly those lines with consistent counts in the header, the sector tool keeps exactly the columns and lines of its window, the image tool writes exactly the samples, and truncated or inconsistent files and failed writes end in a reported error (exit status of the tools included) without out-of-bounds accesses.",
 ["inputs", "histories", "fault_sequences"], "all record lengths, line counts, sample sizes and values, sequences of slices, truncations and mutated counts",
 "There are no tests of this format at all.",
 ["msat/omtp-ids/FileHeader.cc", "msat/omtp-ids/Record.cc", "msat/omtp-ids/ScanLine.cc", "msat/omtp-ids/OpenMTP-IDS.cc", "msat/omtp-ids/ByteSex.cc"],
 [("stream readers and writers", "msat/omtp-ids/*.cc read/write"), ("byte order conversion", "msat/omtp-ids/ByteSex.cc")],
 ["bytes written, decoded fields, exceptions"])

prop("P17", "HRI images decode to the lines, labels and calibration they carry",
 "For every HRI file, the identification, label and interpretation records decode to the values their bytes encode and each image line holds exactly the samples transmitted for it, whatever the image format (the second half of visible lines starts two columns before the middle, and Tecnavia station keys are undone). Calibrated values follow the published formulas of the channel, and damaged files end in a reported error without out-of-bounds accesses.",
 ["inputs", "fault_sequences"], "all image formats, satellites, dates, record contents and sample values, truncations and mutated fields",
 "There are no tests of this format at all.",
 ["msat/hri/HRI.cpp", "msat/hri/HRI_image.cpp", "msat/hri/HRI_machine.cpp", "msat/hri/HRI_subframe_label.cpp", "msat/hri/HRI_subframe_identification.cpp", "msat/hri/HRI_subframe_interpretation.cpp"],
 [("subframe decoders", "msat/hri/HRI_subframe_*.cpp"), ("line assembly", "msat/hri/HRI_image.cpp put_halfline")],
 ["decoded records and samples, process outcome"])

prop("P18", "On-board time codes convert to and from calendar time exactly",
 "For every on-board time code - short, full and expanded day-segmented codes, unsegmented codes and generalized calendar times - the decoded days, milliseconds, micro- and nanoseconds (or seconds and fraction) are those encoded in the bytes, and conversion to calendar time and to text gives the exact UTC date and time in any time zone, for all years of the mission across leap years. The code of a calendar time decodes to that time, later codes never give earlier calendar times, and decoding into an object already used, or a copy of it, gives what a new object would.",
 ["inputs", "histories"], "all day counts and times of day, boundary values (midnight, end of day, leap days), time zones of the process, sequences of decodings into reused and copied objects",
 "Tests see the four times of the sample images; the law is over all days, carries and orderings.",
 ["msat/hrit/MSG_time_cds.cpp", "msat/hrit/MSG_time_cds.h"],
 [("epoch arithmetic", "msat/hrit/MSG_time_cds.cpp")],
 ["decoded fields, converted calendar fields, printed times"])

prop("P19", "The conversion tool treats each input and output independently and correctly",
 "Running the conversion tool on any list of images gives for each the same output file as running it on that image alone, under the documented name, never changes an input, and stops at a failing input and reports it in the exit status. The grey image of a band maps its minimum (or the limits asked for) to black, its maximum to white and the values between them linearly and in order, whatever the value type, with missing pixels left out of the scaling.",
 ["inputs", "histories", "configurations"], "all lists and orders of input images of different sizes, channels and times, with areas in pixels, or the bounding box of a box or circle in degrees, and all band types and value ranges",
 "No test runs the tool; the law is about sequences of inputs and all value distributions.",
 ["tools/msat.cpp", "tools/image.cpp", "msat/gdal/gdaltranslate.cpp"],
 [("per-file option handling", "tools/msat.cpp, msat/gdal/gdaltranslate.cpp"), ("grey scaling", "tools/image.cpp")],
 ["output files, exit status"])

prop("P20", "Text and path helpers obey their algebra for all strings",
 "For every string, encoding and decoding (base64, URL, C string escapes, which decode up to the closing quote) are mutually inverse, splitting and joining give back the original (the empty string splits to nothing), trimming, prefix and suffix tests match their definition, and normalised paths are equivalent to and never longer than the original (except the empty one, which is '.') and stable under repeated normalisation. None of them reads outside its arguments, for empty, very long, binary and malformed input.",
 ["inputs"], "all byte strings, path strings and malformed encodings",
 "The helpers are not covered by any test.",
 ["msat/utils/string.cc", "msat/utils/string.h"],
 [("hand-written coders and parsers", "msat/utils/string.cc")],
 ["returned strings"])

prop("P21", "Configuration dictionaries behave as a map and survive being written out",
 "For every sequence of sets, unsets and lookups, a configuration dictionary answers as a map from section and key to the last value set, with typed lookups converting numbers and booleans as documented and giving the default for absent keys. Dumping a dictionary as an INI file and loading it gives the same entries (those with a value, a name the syntax can spell and fitting a line of 1023 characters), and loading any text, however malformed or long, neither crashes nor reads outside its buffers.",
 ["inputs", "histories", "fault_sequences"], "all operation sequences, key and value strings, and INI texts",
 "The parser is not covered by any test.",
 ["msat/iniparser.c", "msat/iniparser.h"],
 [("open-addressed dictionary that grows on demand", "msat/iniparser.c dictionary_set"), ("line parser", "msat/iniparser.c iniparser_load")],
 ["lookups and re-loaded files"])

prop("P22", "File helpers leave the file system in the state they promise",
 "For every directory tree, content and sequence of operations, the file helpers do what their contract says: writing a file and reading it gives the same bytes, an atomic write leaves either the old or the complete new content, making directories is idempotent, and recursive removal removes exactly the given tree (not itself a link) and never follows links out of it. Reported sizes, times, kinds and directory listings match the real file system, and every failure is a reported error carrying the system's reason, which leaves no temporary files and no descriptors open.",
 ["histories", "fault_sequences"], "all sequences of operations over random trees with links, missing and unreadable entries, and failures injected by the file system",
 "The helpers are used by the test suite but not tested by it.",
 ["msat/utils/sys.cc", "msat/utils/sys.h"],
 [("checked wrappers of system calls", "msat/utils/sys.cc")],
 ["file system state, exceptions"])

prop("P23", "NetCDF output reads back as the image that was written",
 "Every geostationary image written as NetCDF (from any source, by gdal_translate or the library) and opened again has the same size, satellite, channel, time to the second, projection, area, sample values, sample type, no-data value, scale and offset, and unit; the time coordinate counts the seconds since 2000-01-01 in UTC in every time zone. An image in latitude and longitude is written with the coordinates of its lines and columns. The second format (NetCDF24) keeps the same for the images it can hold. Images that cannot be represented (no projection, unsupported sample types or pixel sizes, a file that cannot be written to the end) are refused with an error, and files that are damaged, or that another program wrote, are refused or read with errors, never with a crash. XRIT2NetCDF and HRI2NetCDF write the samples, calibration, time, geometry and names of the image they are given (of the requested area, whose first line and column are recorded counting from 1), and report what they cannot convert with a failing exit status.",
 ["inputs", "fault_sequences"], "all images: sizes, bands, sample types, values, areas, satellites, times, time zones; damaged files; transmission images with missing or damaged segments; HRI files",
 "Tests of this driver are not built here, and cover one image.",
 ["gdal/netcdf/netcdf.cpp", "gdal/netcdf/netcdf24.cpp", "gdal/netcdf/utils.cpp", "tools/hrit/XRIT2NetCDF.cpp", "tools/hri/HRI2NetCDF.cpp"],
 [("driver", "gdal/netcdf/netcdf.cpp"), ("driver of the second format", "gdal/netcdf/netcdf24.cpp"), ("NetCDFProduct", "tools/hrit/XRIT2NetCDF.cpp, tools/hri/HRI2NetCDF.cpp")], ["re-read dataset", "variables and attributes of the file", "exit status and messages of the tools"])

prop("P24", "Received messages are delivered intact, each file on its own",
 "Reading a transmission file that carries a message - a meteorological bulletin, text, encryption keys, a binary message, data collection platform data or the prologue of a foreign satellite - gives exactly that message, with all of its bytes: bulletins and binary messages are written to a file of the current directory named after their annotation, and replace a file of that name that is there; texts and keys are printed as they are; foreign prologues give the header fields their bytes encode. A message that is cut, has no usable name (which must never lead out of the current directory) or cannot be written completely is refused with an error and leaves no files. A reader that has read other files before, complete or damaged, reads each file as a new one would.",
 ["inputs", "histories", "fault_sequences"], "all message types, contents of any size (past buffer limits) and bytes, names, files already there, unwritable destinations, sequences of files read with the same reader",
 "Tests read image files and two headers; the law is over all message types, sizes and histories.",
 ["msat/hrit/MSG_data.cpp", "msat/hrit/MSG_data_gts.cpp", "msat/hrit/MSG_data_text.cpp", "msat/hrit/MSG_data_key.cpp", "msat/hrit/MSG_data_SGS_header.cpp", "msat/hrit/MSG_HRIT.cpp", "msat/hrit/MSG_header.cpp"],
 [("reading by file type", "msat/hrit/MSG_data.cpp read_from"), ("reuse of the reader", "msat/hrit/MSG_HRIT.cpp, MSG_header.cpp clear")],
 ["message objects, files written, printed text, exceptions"])

prop("P25", "The transmission image tools show every segment at its place",
 "For every transmission image, complete or with missing or cut segments, xritdump describes its size, segments, orientation and high-resolution coverage as the files give them, with the least and greatest sample of each segment, and draws pictures in which a greater sample is never darker than a smaller one and the least and greatest of the picture have the first and last shade, with linear shades between them. XRIT2Image writes an image of the whole size under the documented name, turned upside down, in which each sample is at its place and the order of samples is kept, missing segments are black, an overlay picture adds to the image from its corner on (except to the high-resolution channel), and options are obeyed in any order. Damaged files never crash the tools, and what cannot be shown is reported with a message and a failing exit status.",
 ["inputs", "fault_sequences", "configurations"], "all image and segment sizes, sets of segments, sample ranges (uniform, narrow, extreme), orientations, option orders and damaged files",
 "No test runs these tools.",
 ["tools/hrit/xritdump.cpp", "tools/hrit/XRIT2Image.cpp", "msat/xrit/dataaccess.cpp"],
 [("description and pictures", "tools/hrit/xritdump.cpp"), ("conversion", "tools/hrit/XRIT2Image.cpp")],
 ["printed description, written image, exit status"])

prop("P26", "Child processes get exactly what was asked for, and their end is reported",
 "A child process started with the subprocess helpers sees exactly what was asked for: each of its three standard descriptors is the inherited one, the pipe, the null device, the given descriptor (also one of the standard ones, or the same one twice) or, for the error output, the standard output; with close_fds no other descriptor of the parent is open except those to pass; working directory, session, arguments, environment and program (with its search path) are as given. The exit status and its description in words are those of the child. In every history of poll, wait, wait with a timeout, signals and terminations, also when other signals interrupt the wait, the answers say the child has ended exactly when it has, waits with a timeout last no longer, signals reach only the child and are refused before it has started. What cannot be done (missing directory or program, no descriptors or processes left) is reported and leaves no descriptors open.",
 ["inputs", "schedules", "fault_sequences"], "all combinations of redirections, descriptors, options, environments, statuses, histories of operations and interruptions, and limits of the system",
 "Tests start a few commands and wait for them; no test mixes redirections, repeats waits, interrupts them or exhausts descriptors.",
 ["msat/utils/subprocess.h", "msat/utils/subprocess.cc"],
 [("redirections and start", "msat/utils/subprocess.cc Child::post_fork_child"), ("waits", "msat/utils/subprocess.cc Child::wait"), ("environment", "msat/utils/subprocess.cc Popen::setenv")],
 ["what the child sees and prints, results, exceptions, open descriptors"])

prop("P27", "OpenMTP images are read field by field as the format lays them out",
 "Every OpenMTP image of the Meteosat archive, of any channel, processing, size and area, is read exactly: every field of the three binary header sections (also when the second is not used because the image is rectified, and with the longer third section of visible composites) has the value at its place in the file, with its whole length; samples, line headers, satellite, time, channel, unit, position and kind of area (A format, B format, part) are those of the file; calibration follows the formulas. OpenMTP_info prints them all, and OpenMTP_to_NetCDF writes a file of the documented name with the samples, calibration, time (in any time zone), place and attributes of images in the A and B formats and refuses others. One reader can read any history of files. Missing, cut and damaged files and impossible sizes are reported, and never crash or write outside memory.",
 ["inputs", "histories", "fault_sequences"], "all header values, channels, processings, sizes (A, B, parts), histories of files with one reader, time zones, cut and damaged files",
 "No test reads this format and the build leaves its reader out.",
 ["msat/openmtp/OpenMTP_binary_header.cpp", "msat/openmtp/OpenMTP_binary_header.h", "msat/openmtp/OpenMTP.cpp", "msat/openmtp/OpenMTP_image.cpp", "msat/openmtp/OpenMTP_machine.cpp", "tools/openmtp/OpenMTP_info.cc", "tools/openmtp/OpenMTP_to_NetCDF.cpp"],
 [("header fields", "msat/openmtp/OpenMTP_binary_header.cpp"), ("samples and calibration", "msat/openmtp/OpenMTP_image.cpp OpenMTP_image::read"), ("conversion", "tools/openmtp/OpenMTP_to_NetCDF.cpp")],
 ["values returned, printed text, written NetCDF file, exceptions, exit status"])

prop("P28", "DB1 sources are read entry by entry, and one channel at a time",
 "Every source in the Thorn SDS DB1 format (a directory with AoI, INFO.DBI and, for each channel, NAME.RAW and NAME.Calibration) is read exactly: every entry has the value of the texts however they are spelled (case, spaces, quotes, comments), or its default; samples, their number and the calibrated value of every count (0 where the table has none and outside the range of counts) are those of the channel in use. After any history of opening, closing, asking for channels and choosing them, also channels that are missing or cannot be read, there is either no data or all the data of the channel last chosen. db1_to_netcdf and db1_to_image write a file of the documented name with the samples, calibration, entries and time (in any time zone), and a picture with north at the top, in increasing shades, of the requested scale, with the requested overlay. Missing, short and damaged files and impossible sizes are reported with a failure, and never crash or read outside memory.",
 ["inputs", "histories", "fault_sequences"], "all entries, channel names and numbers, numbers of bits, texts of all spellings, histories of one reader with two sources, time zones, overlays, short and damaged files",
 "No test reads this format and the build leaves its reader out.",
 ["msat/thornsds_db1/thornsds_db1.cpp", "msat/thornsds_db1/thornsds_db1.h", "tools/thornsds_db1/db1_to_netcdf.cpp", "tools/thornsds_db1/db1_to_image.cpp"],
 [("choice of a channel", "msat/thornsds_db1/thornsds_db1.cpp MSG_db1_data::set_channel"), ("entries", "msat/thornsds_db1/thornsds_db1.cpp"), ("conversions", "tools/thornsds_db1/db1_to_netcdf.cpp, tools/thornsds_db1/db1_to_image.cpp")],
 ["values returned, printed text, written NetCDF file and picture, exit status"])

prop("P29", "Every operation gives back what it took",
 "A long-running process can use every reader, writer, driver, translator, helper and text interface of the library without end: repeating any history of operations - opening, reading, converting, copying, printing, searching, writing and closing, also on unsuitable, damaged, missing or incomplete inputs, full disks and refused requests, where the operation ends with an error or an exception - does not grow the memory, the open descriptors, or the mapped files of the process with every repetition, once all objects that the history created are destroyed.",
 ["histories", "fault_sequences", "inputs"], "the histories and inputs of P04-P18, P20-P24 and P26-P28, each repeated in one process",
 "Tests run every operation once in a process that ends; nothing is lost that they could notice, least of all on the paths taken by errors.",
 ["msat/hrit/MSG_header.cpp", "msat/hrit/MSG_HRIT.cpp", "msat/xrit/fileaccess.cpp", "msat/xrit/dataaccess.cpp", "msat/facts.h", "gdal/xrit/dataset.cpp", "gdal/grib/grib.cpp", "gdal/netcdf/netcdf.cpp", "gdal/netcdf/netcdf24.cpp", "msat/gdal/gdaltranslate.cpp", "msat/hri", "msat/msg-native", "msat/omtp-ids", "msat/iniparser.c", "msat/utils/sys.cc", "msat/utils/subprocess.cc", "msat/thornsds_db1/thornsds_db1.cpp", "msat/openmtp"],
 [("records of a header", "msat/hrit/MSG_header.cpp"), ("searches that fail", "msat/xrit/fileaccess.cpp FileAccess::scan"), ("segments kept open", "msat/xrit/dataaccess.cpp"), ("descriptors", "msat/utils/sys.cc, msat/utils/subprocess.cc")],
 ["bytes allocated, open descriptors and mapped files after each repetition"])

prop("P30", "Drivers registered in any way open their own data only, and data sets do not disturb each other",
 "The GDAL drivers of the library can be registered one by one, through the plugin entry point (GDALRegister_Meteosatlib), or through the preloaded GDALAllRegister, in any order, any number of times, before, after and among other drivers, also while data sets are open: there is exactly one driver of each name afterwards, with its long name and what it can do. When everything is registered through GDALAllRegister, the library's drivers come before GDAL's own ones for GRIB and NetCDF. Each driver opens exactly its own data: transmission images by name or file, GRIB and the two kinds of NetCDF files it writes, whatever the files are called; data of the other drivers, other formats, and what is no image (missing, empty, cut, foreign, directories, names of images that are not there) are declined without an error that leaves the driver as an exception. Any number of data sets of any of these formats can be open at the same time, read in turns and closed in any order: each has the size, metadata and samples that it has when it is opened alone with its driver alone, and reading changes no file.",
 ["histories", "inputs"], "images of the four formats and GeoTIFF under any name, files that are no images, histories of registering, opening, reading and closing",
 "Tests register all drivers once and open one image of one format at a time.",
 ["gdal/msatgdalplugin.cpp", "gdal/msat2gdal.cpp", "gdal/xrit/xrit.cpp", "gdal/xrit/dataset.cpp", "gdal/grib/grib.cpp", "gdal/netcdf/netcdf.cpp", "gdal/netcdf/netcdf24.cpp", "msat/xrit/fileaccess.cpp"],
 [("registration", "gdal/msatgdalplugin.cpp GDALRegister_Meteosatlib, gdal/msat2gdal.cpp GDALAllRegister"), ("recognition", "gdal/xrit/xrit.cpp XRITOpen, gdal/grib/grib.cpp GRIBOpen, gdal/netcdf/netcdf.cpp NetCDFOpen, gdal/netcdf/netcdf24.cpp NetCDF24Open")],
 ["drivers registered, which driver opens what, metadata and samples read, exceptions, files"])

with open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl"), "w") as f:
    for p in P: f.write(json.dumps(p) + "\n")
