#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as source so that the statements stay reviewable)."""
import json, os
E='src/gempakio/encode/gempak.py'; D='src/gempakio/decode/gempak.py'
EV='src/gempakio/encode/vgf.py'; DV='src/gempakio/decode/vgf.py'
C='src/gempakio/common.py'; T='src/gempakio/tools.py'; G='src/gempakio/gemcalc.py'
P=[]
def p(id,title,statement,over,qtext,why,files,state,mech,observe):
    P.append(dict(id=id,title=title,statement=statement,
      quantifier=dict(over=over,text=qtext),why_tests_cant=why,
      anchors=dict(files=files,state=[dict(name=a,meaning=b,where=c) for a,b,c in state],
        mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=observe,hook_needed=None)))

p('G01','Grid files read back what was added',
  'Every grid added to a grid file and written is returned when the file is read: same parameter name (upper-cased), vertical coordinate, level(s), grid type and valid time(s), no other grid appears, and a grid is found where its keys say. Every finite value comes back within range/(2^bits - 1.5) of the original plus float32 rounding (range = max - min of the non-missing values of that grid, bits = the file precision), a constant grid exactly, and every NaN/missing point comes back masked while no valid point does.',
  ['inputs','histories'],'all sequences of grids added (any number, any order, any shape from 2x2, any mix of levels, layer pairs, times, analysis/forecast/guess/initial types), all precisions 1..31 (values on the float32 range), any pattern of missing points including none and all',
  'Tests write one or two hand-made grids at the default precision with no missing values; the space of bit widths, shapes, missing patterns and key combinations is untouched.',
  [E,D,C],[('data','key tuple -> grid','GridFile'),('column_headers','sorted keys written to the file','GridFile')],
  [('add_grid',E),('pack_grib',E),('_unpack_grib',D),('GempakGrid.gdxarray',D)],['GridFile.to_gempak','GempakGrid.gdinfo','GempakGrid.gdxarray'])
p('G02','Sounding files read back what was added',
  'Every sounding added to a sounding file and written is returned when the file is read, exactly once, under its time, station id, number, latitude, longitude (to the nearest 0.01 degree), elevation, state and country, and no other sounding appears. Each parameter comes back level for level with its float32 value, missing/NaN values masked, ordered by the vertical coordinate (pressure descending, or height ascending when there is no pressure).',
  ['inputs','histories'],'all sets of soundings over several stations and times (sparse station x time matrices included), any parameter list containing PRES or HGHT with distinct vertical coordinate values, any number of levels >= 1, any missing pattern outside the vertical coordinate, optional station info',
  'Tests write one or two soundings; sparse matrices, several rows and columns together, default station info and coordinate rounding are not sampled.',
  [E,D],[('data','(row,column) -> parameter arrays','SoundingFile')],[('add_sounding',E),('_write_data',E),('GempakSounding.snxarray',D)],['SoundingFile.to_gempak','GempakSounding.sninfo','GempakSounding.snxarray'])
p('G03','Surface files read back what was added',
  'Every station report added to a surface file and written is returned when the file is read, exactly once, under its time, station id (up to 8 characters), number, latitude, longitude (to the nearest 0.01 degree), elevation, state, country and priority, and no other report appears. Each parameter value comes back as its float32 value, with NaN stored as the missing value -9999.',
  ['inputs','histories'],'all sets of reports over several stations and times (sparse station x time matrices included), any parameter list, optional station info, times given as datetime or as YYYYmmddHHMM string',
  'Tests write a single station once with a datetime; string times, sparse matrices, several stations and coordinate rounding are not sampled.',
  [E,D],[('data','(row,column) -> values','SurfaceFile')],[('add_station',E),('_write_data',E),('GempakSurface.sfjson',D)],['SurfaceFile.to_gempak','GempakSurface.sfinfo','GempakSurface.sfjson'])
p('G04','File contents depend only on the last value added per key',
  'What a written grid, sounding or surface file contains is determined by the set of keys added and the last data added for each key: a later add with the same key replaces the earlier one (a key is what the file can hold: times to the minute, coordinates to hundredths of a degree), and the order in which different keys are added is irrelevant (the bytes are identical). Writing never changes the in-memory file: writing again, before or after further adds, gives the same bytes as a fresh file holding the same contents.',
  ['histories'],'all histories of add / re-add / write operations on one file object of each of the three kinds',
  'Needs multi-step histories; every test performs one add sequence and one write.',
  [E],[('next_free_word','allocation cursor reset on each write','DataManagementFile'),('_column_set/_row_set','accumulated keys','DataManagementFile')],
  [('_set_pointers',E),('sorted headers',E),('data dict overwrite',E)],['to_gempak bytes'])
p('G05','Written files are well-formed GEMPAK data management files',
  'Every file written is a structurally valid GEMPAK DM file: label fields and pointers describe the actual contents, row header, part, data-pointer and data areas start on 128-word block boundaries, no two areas or data records overlap, every header slot in use is flagged 9999, every data record starts with its true length, all records lie inside the file, and the file length is a whole number of 128-word blocks. The free-space record\'s next free word lies after every data record and no further than one word past the end of the file.',
  ['inputs','histories'],'all numbers of rows, columns, parameters and record sizes, dense or sparse, for all three kinds of files',
  'Tests read files back with the same library, whose reader follows the pointers and would not notice overlapping slack, missing padding, wrong flags or wrong lengths; and block-boundary coincidences need particular sizes.',
  [E,C],[('row_headers_ptr, column_headers_ptr, parts_ptr, data_block_ptr','area start words','DataManagementFile')],[('_set_pointers',E),('_write_data',E),('_write_label',E)],['bytes of the written file'])
p('G06','Reading depends on logical contents, not on physical layout',
  'A valid GEMPAK DM file yields the same listing and the same data wherever its areas and data records are placed, with gaps between them, with deleted (unused) row or column header slots anywhere, and with any number of data parts per cell, some of them absent, whichever they are. Unused slots and cells without data contribute nothing and never shift data to another station, time or grid.',
  ['inputs'],'all valid layouts of grid, merged sounding and standard, ship and climate surface files: header slots in any order with holes, 1..n parts, data records in any order',
  'All sample files were written by GEMPAK in one pass: slots are dense and records sequential. Files from which data was deleted (which is how operational GEMPAK files look) are never read.',
  [D],[('row_headers/column_headers','used header slots','GempakFile subclasses')],[('header loops',D),('data pointer arithmetic',D)],['gdinfo/sninfo/sfinfo','gdxarray/snxarray/sfjson'])
p('G07','Byte order of the file is irrelevant',
  'A GEMPAK file and its byte-swapped twin (every integer and float word swapped, text words not) produce identical listings, identical values for every packing and data type, identical coordinates and identical text.',
  ['inputs'],'all grid (all packings), sounding (merged, unmerged; real, packed and text parts) and surface files',
  'One pair of grid files is tested; soundings, surface files, packed reals, text and DEC/DIFF grids are only ever read in one byte order.',
  [D],[('prefmt/endian','detected byte order','GempakFile')],[('_swap_bytes',D)],['GempakGrid','GempakSounding','GempakSurface'])
p('G08','Stored grids unpack to the values their packing defines',
  'For uncompressed, GRIB, DEC and DIFF packed grids of any bit width 1..31, any shape and any scale/reference, each point reads as defined by GEMPAK: the i-th field of the most-significant-bit-first stream scaled from the reference (for DIFF: accumulated along the row, the first point of each later row from the first non-missing point of the previous such row), and the all-ones field is missing exactly when the missing flag is set.',
  ['inputs'],'all bit widths, grid shapes, field values (all-ones, all-zeros, sign-bit patterns crossing word boundaries), missing flags and missing patterns',
  'Each packing is tested with one sample file of one bit width and no missing points.',
  [D],[('grid_meta_int/grid_meta_real','per record packing metadata','GempakGrid')],[('_unpack_grid',D),('_unpack_grib',D)],['GempakGrid.gdxarray'])
p('G09','Packed grids are stored in the GRIB bit layout',
  'A written grid record declares its true shape, precision and word count, and holds exactly nx*ny unsigned fields of that many bits, most significant bit first, without gaps; field k encodes point k (row-major from the lower left) as the nearest integer to (value - reference)/scale (up to float32 rounding of the value) with scale a power of two, only missing points carry the all-ones code, and the reference is the minimum of the non-missing values.',
  ['inputs'],'all precisions 1..31, grid shapes, value ranges and missing patterns',
  'Round trips through the library hide errors that packer and unpacker share; no test decodes the bits independently, and only precision 16 (word-aligned halves) is used.',
  [E],[('precision','bits per field','GridFile')],[('pack_grib',E),('GridFile._write_data',E)],['bytes of the written file'])
p('G10','Integer-packed sounding and surface data unpack exactly',
  'In a part whose floats are packed as integers, parameter j of every level or report reads as (field + offset) * 10^scale where field is its declared number of bits, fields being laid out least-significant-bit first and continuing across word boundaries, each level starting on a word boundary; an all-ones field reads as missing.',
  ['inputs'],'all lists of bit widths 1..31 (fields straddling words included), offsets, scales, level counts and field values',
  'Sample files exercise only a few GEMPAK default bit tables.',
  [D],[('parameters','name, scale, offset, bits per parameter','GempakFile')],[('_unpack_real',D)],['GempakSounding.snxarray','GempakSurface.sfjson'])
p('G11','Queries return exactly the matching records, in file order',
  'A query with any combination of filters returns exactly the records whose keys satisfy every given filter, in file order; each filter accepts a single value or any array-like (list or tuple) of values, text compares case-insensitively (with stored text in upper case, as GEMPAK stores it), times may be datetimes or YYYYmmddHHMM strings, and first/last (either case) mean the oldest and latest time in the file. A query matching nothing raises KeyError.',
  ['inputs'],'all combinations of filters and filter forms on grid, sounding and surface files',
  'Tests use single filters in scalar form on a few files; list/tuple forms, case, combinations and secondary time/level filters are unsampled.',
  [D],[('_gdinfo/_sninfo/_sfinfo','record listing','Gempak*')],[('gdxarray',D),('snxarray',D),('sfjson',D)],['gdxarray','snxarray','sfjson'])
p('G12','Queries are pure',
  'Reading is free of side effects: repeating a query gives equal results whatever other queries ran in between, arguments passed in are not modified, modifying a returned result does not affect later results, and listing methods return the same list at any time.',
  ['histories'],'all interleavings of queries and result/argument mutations on one open file of each kind (including surface files with text reports and unmerged soundings)',
  'Every test opens a file and queries it once.',
  [D],[('_buffer','shared read cursor and bookmark list','GempakFile')],[('deepcopy of reports',D),('jump_to before each read',D)],['gdxarray','snxarray','sfjson','gdinfo','sninfo','sfinfo'])
p('G13','Unmerged soundings merge into one consistent profile',
  'Merging the mandatory, significant, tropopause and wind parts of a sounding terminates without error and yields one profile, listed by decreasing pressure (levels without pressure last), that follows the GEMPAK merge: the surface comes from TTAA unless it is unusable (missing, above 1060 hPa, or above the first complete mandatory level), then from TTBB and PPBB; complete mandatory levels above it are taken as reported, PPAA/PPCC winds fill mandatory levels without wind; tropopause levels and significant temperatures add levels, or the values a level lacks, in order of decreasing pressure and never below the surface; significant and maximum winds on pressures likewise; winds on heights are placed by height (within 1 m of a level: into it) below the last known height; mandatory levels below ground are kept; heights, pressures and missing values are then computed as in G22 and G14. No level appears that was neither reported nor at a reported wind height, and station_pressure is the surface pressure.',
  ['inputs'],'all combinations of present/absent TTAA, TTBB, TTCC, TTDD, PPAA, PPBB, PPCC, PPDD, TRPA, TRPC, MXWA, MXWC parts, winds on heights or pressures, below-ground levels, duplicated, disordered and missing levels, missing values, unusable surfaces',
  'Five sample soundings are compared with GEMPAK output; the merge has several hundred lines of case analysis.',
  [D,G],[('merged','accumulating profile','_merge_sounding')],[('_merge_sounding',D),('interp_*',G)],['GempakSounding.snxarray'])
p('G14','Missing-data interpolation only fills interior gaps',
  'Interpolation of missing profile values fills a missing temperature or wind direction above the surface level exactly when a valid one exists below and above it, with the log-pressure interpolation between the nearest such levels (direction along the shorter arc, modulo 360), and its dewpoint or speed with it (a level without temperature or direction counts as having no dewpoint or speed either); a dewpoint missing alone is filled the same way unless the gap crosses 100 hPa. It never changes a value that was present, never fills beyond the first or last valid level, and a level without pressure is neither filled nor interpolated to or from.',
  ['inputs'],'all profiles with strictly decreasing pressure and all patterns of missing values for each of temperature, dewpoint, wind direction and speed',
  'No unit test exercises it directly; sample soundings contain few gap patterns.',
  [G],[('data','profile dict','interp_missing_data')],[('interp_missing_data',G),('interp_parameters',G)],['gempakio.gemcalc.interp_missing_data','gempakio.gemcalc.interp_parameters'])
p('G15','Surface text yields every report once, correctly timed',
  'For a surface cell holding METAR and/or SPECI text, every individual report in the text is returned exactly once with its own text, in order, METAR first; the decoded values are attached to METAR reports (or to SPECI reports only when there is no METAR text), METAR reports keep the file time, and a SPECI takes the day, hour and minute from its own time group in the month nearest the file time, falling back to the file time when it has none or an invalid one. A cell with blank text keeps its decoded values. SPECI reports are returned only when special reports are requested.',
  ['inputs'],'all texts made of one or more reports for a station, with or without station id and time group, valid or invalid times, all file dates including month and year ends',
  'Two sample files contain text; multiple reports per cell, bad times and month ends are not covered.',
  [D],[],[('_process_report_text',D),('sfjson',D)],['GempakSurface.sfjson'])
p('G16','Nearest-time selection returns the closest report per station',
  'With exactly one selection filter, nearest-time selection returns one report for each selected station that has a report, and no other report of that station in the file (special reports counted only when requested) is closer in time; no filter or more than one filter is an error.',
  ['inputs'],'all sets of reports, target times, and station id / number / state / country / bounding box filters in scalar and list form',
  'Tests check one station in one file.',
  [D],[],[('nearest_time',D)],['GempakSurface.nearest_time'])
p('G17','Added data is a snapshot and caller data is never modified',
  'Creating a file object and adding data to it never modify arrays, dicts or lists passed in (coordinates, data, parameter lists, station information), and modifying them afterwards does not change what is written.',
  ['histories'],'all histories in which the caller mutates or reuses its arrays, dicts and parameter lists between add and write, for grid, sounding and surface files, with and without NaN in the data',
  'Tests never look at the input after the call nor mutate it.',
  [E],[('data','stored arrays','DataManagementFile')],[('_replace_nan',E)],['add_grid','add_sounding','add_station','to_gempak'])
p('G18','A rejected add leaves the file object unchanged',
  'If an add operation raises, the file object still writes exactly what it would have written without that call, and later valid adds succeed.',
  ['histories'],'all interleavings of valid adds with adds rejected for bad types, shapes, names, levels, times, mismatched time types, unknown vertical coordinates, wrong parameters or lengths, or too many entries',
  'Tests check that an exception is raised, never what the object holds afterwards.',
  [E],[('_column_set, _row_set, data','accumulated state','DataManagementFile')],[('validation before mutation',E)],['add_grid','add_sounding','add_station','to_gempak'])
p('G19','A failed write never damages an existing file',
  'If writing a GEMPAK or VGF file raises because the contents cannot be encoded, a file already at the destination keeps its previous contents, byte for byte, and no partial file appears where none existed.',
  ['fault_sequences'],'encoding failures at any element, header or data record of the output, for all four writers, with and without an existing destination',
  'No test makes encoding fail.',
  [E,EV],[],[('encode in memory, then write',E),('VGFile.to_vgf',EV)],['to_gempak','to_vgf'])
p('G20','Grid times and levels are interpreted from their stored keys',
  'A stored analysis date yymmdd with time hhmm, a stored forecast date mmddyyhhmm with type and forecast hours/minutes (any of forecast, guess, initial), stored levels (negative meaning none), and stored vertical coordinates (codes 0..8 or a 4-character name) are reported as the type, valid time, level and coordinate name they denote, for the primary and the secondary key, in both the listing and the returned data.',
  ['inputs'],'all dates 1969..2068 incl. leap days and month/year rollover by the forecast time, forecast times up to 999 h 59 min, all types, coordinate codes and names, absent secondary keys',
  'Sample files contain a handful of analysis times.',
  [D,E],[],[('_convert_dattim',D),('_convert_ftime',D),('_convert_vertical_coord',D)],['GempakGrid.gdinfo','GempakGrid.gdxarray'])
p('G21','Grid geometry survives writing and reading',
  'A written grid file stores its grid size, projection kind, projection angles and corner coordinates as the caller gave them, with an analysis block of type 2 that repeats the corners for its areas, extends no side and gives as spacing twice the root mean square of the latitude and longitude (the short way round) across the middle cell, and every grid point is located within 0.003 degrees of where the caller put it (or, in any file, of where its navigation block says: points equally spaced in the projection between the corners, going east), with row and column order preserved; the coordinates of returned data are those of the file, and projecting a point gives its projected coordinates.',
  ['inputs','configurations'],'all supported projections on a sphere (on an ellipsoid: what is stored), unrotated for locations, grid sizes, coordinate input forms (geographic in any turn, or projected), regions up to whole hemispheres and whole turns, across the antimeridian and the poles',
  'Tests compare sample files with stored results; writer navigation fields are not decoded independently.',
  [E,D],[('navigation_block','stored navigation','GempakFile')],[('_set_projection_params',E),('_set_bbox',E),('_set_coordinates',D),('_get_crs',D)],['GempakGrid.lat/lon/x/y','GempakGrid.gdxarray'])
p('G22','Profile interpolation formulas are exact and bounded',
  'Interpolating a level between two bounding levels is exact at the bounds, linear in log pressure for temperature, dewpoint and speed, takes the shorter arc for wind direction with result in [0, 360], and gives missing when either bound is missing; levels outside the bounds or pressures that are not positive raise ValueError. Missing heights of a profile are found between known ones (from layer thicknesses scaled to fit, or linearly in log pressure) and above the last from temperatures, missing pressures linearly between heights; only missing values are filled, levels lacking what is needed are passed over and stay missing, and every function ends, with any missing flag.',
  ['inputs'],'all pairs of levels on a log-spaced pressure grid, values incl. missing, all wind direction pairs incl. the 180-degree case; all profiles of strictly decreasing pressure and increasing height with any values missing; any missing flag',
  'No direct tests exist; merged sounding comparisons use tolerances.',
  [G],[],[('interp_parameters',G),('interp_logp_pressure/interp_logp_height/interp_moist_height',G)],['gempakio.gemcalc'])
p('G23','What a file says about itself is reported as stored',
  'A reader reports the management part of a file as stored, in files of either byte order and with its areas in any place: label fields, file keys, the navigation block and the analysis block by type (1, 2 or neither), data-management record, row and column keys in their order, parts with their header length, type and parameters with scale, offset and bits, whatever further file headers follow. An unknown data source is reported as unknown. A file without the DM marker, with another size of navigation or analysis block, or cut short before the end of what these fields describe is refused with an exception.',
  ['inputs'],'all contents of every field, numbers of keys, parts and parameters, all placements of the areas, both byte orders, files cut at every kind of place',
  'Tests read a few sample files of one layout and look at few of these fields.',
  [D,C,T],[('dm_label, file_keys, navigation_block, analysis_block, prod_desc, row_keys, column_keys, parts, parameters','what was read','GempakFile')],[('GempakFile.__init__',D),('_set_coordinates',D)],['GempakFile attributes'])
p('G24','Thermodynamic functions compute their formulas',
  'Vapor pressure is 6.112 exp(17.67 Td / (Td + 243.5)) hPa; mixing ratio (in g/kg) 621.97 e / (p - e) of the vapor pressure e corrected for pressure (times 1.001 + 0.0034 (p - 100) / 900), missing when e exceeds p / 2; virtual temperature (K) T (1 + w / 0.62197) / (1 + w), or T when the moisture is unknown or impossible; scale height Rd / g times the mean virtual temperature of the two levels; moist hydrostatic height z + H ln(p1 / p2). A missing temperature, pressure, height or scale height, or a pressure that is not positive where its logarithm is taken, gives the missing flag, whatever flag the caller chose.',
  ['inputs'],'temperatures and dewpoints from -120 to 45 degrees, pressures from 10 to 1060 hPa and not positive ones, any of the values missing, any missing flag',
  'No direct tests exist; merged soundings see these only through tolerances, with one missing flag.',
  [G],[],[('vapor_pressure, mixing_ratio, virtual_temperature, scale_height, moist_hydrostatic_height',G)],['gempakio.gemcalc'])
p('G25','Readers return objects of a fixed form',
  'Whatever a file holds, listings name their fields (grid number, type, times, parameter, levels, coordinate; row or column numbers, time, station); a grid comes as one float32 array over time, its vertical coordinate, y and x, with latitude and longitude over y and x, its type and its coordinate reference system; a sounding as one time and its levels (pressure where it is stored, else height), every other parameter as a float32 variable over both, and as attributes exactly the station, the pressure of its first level where on pressures, and each coded report (TXTA, TXTB, TXTC, TXPB) stored for it, word for word; a surface report as plain data (strings, numbers, datetime), its properties complete and its values exactly the parameters it has, under lower-case names.',
  ['inputs'],'all grids, soundings (merged or in parts, any parts with text, in any order) and surface files (standard, ship, climate, with reports as text) in any layout and byte order',
  'Tests read a few sample files and compare a few arrays; attributes and text reports are hardly looked at.',
  [D],[],[('gdxarray, snxarray, sfjson',D),('_merge_sounding',D),('_unpack_unmerged',D)],['gdinfo','sninfo','sfinfo','gdxarray','snxarray','sfjson'])
p('G26','Input that cannot be represented or interpreted is refused',
  'A writer accepts exactly the arguments its documentation describes: a constructor or add call with a value of a wrong type, a date not written in a documented format or that does not exist, two times of different types, an array of a wrong shape, a parameter name, identifier, state or country that does not fit its words when encoded, an unknown vertical coordinate, a projection or packing the file cannot express, too many parameters or levels, more entries than a file can hold, or data that does not cover exactly the parameters of the file raises and leaves the file as it was; every documented form (string or datetime, with or without second level, second time and station information, short or long) is accepted. A reader refuses a record whose data type, packing or projection it does not support, and keeps reading the others.',
  ['inputs'],'every argument of every add and constructor call, each valid form with one to three arguments replaced by edge or wrong values; every data type, packing and projection code in files',
  'No test passes a wrong argument.',
  [E,D],[],[('GridFile/SoundingFile/SurfaceFile constructors',E),('add_grid/add_sounding/add_station',E),('gdxarray/snxarray/sfjson',D)],['add_grid','add_sounding','add_station','gdxarray','snxarray','sfjson'])
p('V01','VGF files read back the elements that were written',
  'Every sequence of elements written to a VGF file reads back as a file header followed by the same number of elements in the same order, each of its own kind with its attributes and text equal to what was set, coordinates equal to the nearest 0.01 degree and fractional sizes and rotations to the nearest 0.1, including delete, class/type codes, closed/filled/smooth flags, colours, grouping and bounds; a closed element repeats its first point at the end, and an element with negative direction lists its points reversed.',
  ['inputs','histories'],'all sequences of encodable element kinds with any valid attribute values, 1..500 points, any text (including non-ASCII), with attributes set at construction or later',
  'Tests round-trip a few fixed examples per kind.',
  [EV,DV],[('elements','element list','VGFile/VectorGraphicFile')],[('encode',EV),('_decode_*',DV)],['VGFile.to_vgf','VectorGraphicFile.elements'])
p('V02','VGF record framing is followed exactly',
  'Reading a VGF file yields exactly one element per record of a known kind, located by the record sizes in the headers: unknown, deleted or unsupported records never shift, duplicate or drop their neighbours, a truncated or invalid trailing header ends the file cleanly, and reading always terminates.',
  ['inputs'],'all sequences of records of all classes and types, known and unknown, deleted or not, with slack at the end of records, trailing zero bytes and truncated tails',
  'Sample files contain only well-formed records of a few kinds.',
  [DV],[('_buffer','read cursor','VectorGraphicFile')],[('_decode_elements',DV)],['VectorGraphicFile.elements'])
p('V03','Every VGF element kind decodes by its published layout',
  'For every supported element kind and record version, every field of a record appears under its attribute with the value stored at its position: field k of the record determines attribute k and nothing else, variable-length lists have their stored count, fixed-size tables are consumed completely, text ends at its terminator without the bytes that are no text, and a code is reported by the name of its meaning.',
  ['inputs'],'all kinds (fronts, lines, special lines, symbols, text, winds, tracks v0-2, lists, watch boxes v0-6, sigmets v0/v1, CCF, volcano, ash, jet, GFA, tropical cyclone kinds, significant weather, circles) with distinct values in every field and all list lengths',
  'Sample files contain only some kinds, and their assertions look at few fields.',
  [DV],[],[('_decode_* field tables',DV)],['VectorGraphicFile.elements'])
p('V04','VGF element attributes are validated and stay consistent',
  'An element under construction or modification accepts exactly the documented attribute values; a rejected value raises and leaves the element unchanged, and an accepted value is what reads back and is written. Coupled attributes stay consistent: a front\'s width and code agree, flipping twice restores the element, and changing a text type drops an inapplicable turbulence symbol.',
  ['histories','inputs'],'all sequences of attribute assignments (valid and invalid) on each encodable element kind, and all constructor arguments at and beyond the documented limits',
  'Tests assign single values; sequences and constructor limits are not explored.',
  [EV],[('private attribute values','element state','Element subclasses')],[('property setters',EV)],['Line, Front, SpecialLine, SpecialText, SpecialSymbol, Marker'])
p('V05','VGF queries agree with the element list',
  'has_X is true exactly when get_X returns something, and get_X returns exactly the elements of that class/type in file order; filtering by class and/or type (and/or; any other operation raises ValueError), group listing and group lookup partition the elements by their group type and number; the bounds of the file enclose every located element.',
  ['inputs'],'all multisets of element kinds and group assignments, all filter arguments in enum, name and numeric form',
  'Tests query files of one kind each.',
  [DV],[('_elements, _groups','decoded elements','VectorGraphicFile')],[('has_*/get_*',DV),('filter_elements',DV),('get_group',DV),('bounds',DV)],['VectorGraphicFile'])
p('V06','VGF JSON export is complete',
  'JSON export of a readable VGF file succeeds for every element kind, parses as JSON, and lists every element with all its attributes and values, including nested attributes and caller-supplied formatting options.',
  ['inputs'],'all element kinds and formatting options',
  'One test calls it on one file.',
  [DV],[],[('to_json',DV),('NumpyEncoder',DV)],['VectorGraphicFile.to_json'])
p('V07','VGF groups are homogeneous',
  'A group of elements takes the group type and number of its first element; adding an element of another type or number raises ValueError and leaves the group as it was, and otherwise the group holds exactly the elements added, in the order added, its size being their number, however it is looked at (elements, iteration, size, type, number).',
  ['histories'],'all sequences of additions of fitting and non-fitting elements of several types and numbers to several groups',
  'The groups of sample files are only read.',
  [DV],[('elements, group_type, group_number','the group','Group')],[('Group.add_element',DV)],['gempakio.decode.vgf.Group'])
p('T01','Buffer cursor and struct helpers behave as a bounded byte tape',
  'Every sequence of reads, skips, marks, jumps, splices, truncations and queries on a byte buffer behaves as on an abstract (bytes, position, marks) tape: reads return exactly the bytes at the position and advance by what they consumed, a read that raises does not advance, results are copies of the data, jumping returns to where the mark was set, and named structs pack and unpack inversely with unnamed padding skipped.',
  ['histories'],'all operation sequences over small buffers and all struct layouts with padding, names and converters',
  'The helpers have no tests of their own.',
  [T],[('_data, _offset, _bookmarks','tape','IOBuffer')],[('IOBuffer',T),('NamedStruct',T)],['gempakio.tools.IOBuffer','gempakio.tools.NamedStruct'])
p('T02','Ordered sets keep first-insertion order',
  'After any sequence of additions and removals an ordered set holds exactly the elements added and not since removed, in the order in which they were (last) first added; equality with another ordered set is order-sensitive and with any other collection is set equality; set operators and comparisons follow set algebra and leave their operands alone, in-place ones keep the order of what stays and append what is new in order.',
  ['histories'],'all operation sequences over a small element universe',
  'The helper has no tests of its own.',
  [T],[('_dict','insertion-ordered elements','OrderedSet')],[('OrderedSet',T)],['gempakio.tools.OrderedSet'])
out=os.path.join(os.path.dirname(__file__),'..','properties.jsonl')
with open(out,'w') as f:
    for x in P: f.write(json.dumps(x)+'\n')
print(len(P))
