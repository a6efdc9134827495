#!/usr/bin/env python3
# Writes /verif/properties.jsonl (kept as code only so that long strings stay readable).
import json, os
P=[]
def p(id,title,statement,over,text,why,files,mech,observe=None,state=None):
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in mech],observe_at=observe or [],state=state or [],hook_needed=None)))

p("C01","HRIT prologue/epilogue records decode every field as the MSG ground segment ICD",
 "Decoding a level 1.5 prologue or epilogue record yields, for every field of the record (satellite status, image acquisition, celestial events, image description, radiometric processing, geometric processing, IMPF configuration, product statistics, navigation extraction, radiometric and geometric quality, timeliness), exactly the big-endian integer, IEEE float, time code or byte string stored at that field's documented offset, and no two fields share storage. Consecutive records are taken from consecutive documented record lengths. No byte outside the record is read and nothing outside the decoded record is written.",
 ["inputs"],"every content of the record's bytes (2^8 per byte, up to 326058 bytes per record), every array element",
 "The tests that decode a prologue need the missing wavelet library, and even then look at a handful of fields of two sample files; a swapped offset, a wrong element size or a missing index is only seen if that field is non-zero and printed.",
 ["msat/hrit/MSG_data_*.cpp","msat/hrit/MSG_data.cpp","msat/hrit/MSG_machine.cpp","msat/hrit/MSG_time_cds.cpp"],
 [("record read_from chains","msat/hrit/MSG_data_*.cpp read_from"),("big-endian accessors","msat/hrit/MSG_machine.cpp")],["fields of the decoded record objects"])

p("C02","xRIT header records decode every field and are dispatched by type",
 "Each header record of an xRIT file (primary, image structure, image navigation, image data function, annotation, time stamp, ancillary text, key, segment identification, segment line quality) decodes to exactly the values stored big-endian at the documented offsets of that record type, and a record is attributed to the object of its own type code. Per-line quality entries are decoded one per image line from consecutive fixed-size entries. Projection name, longitude of the sub-satellite point and scaling factors/offsets of the navigation record are those of the file.",
 ["inputs"],"every byte content of each header record, every legal header type code, every number of lines",
 "Tests only parse the headers of the sample segments shipped with the repository; they all share one geometry and one order of header records.",
 ["msat/hrit/MSG_header*.cpp"],[("sub-header dispatch","MSG_header::read_from"),("record decoders","MSG_header_*::read_from")],["fields of MSG_header and its sub-records"])

p("C03","Parsing an arbitrary byte string as an xRIT header terminates inside the buffer",
 "For every byte string presented as an xRIT file header, header parsing terminates, reads no byte outside the header bytes it was given, and ends either with all complete header records decoded or with an error the caller can catch. It never loops forever on a record of declared length zero, never trusts a declared length beyond the end of the header, and never terminates the process.",
 ["inputs"],"all header byte strings: all declared total lengths, record lengths and type codes, truncated files included",
 "The tests only feed well-formed files; malformed lengths are a 2^32-sized space with the interesting values at 0, 1, 2 and around the remaining length.",
 ["msat/hrit/MSG_header.cpp","msat/hrit/MSG_header_ancillary_text.cpp","msat/hrit/MSG_header_image_datafunc.cpp","msat/hrit/MSG_header_segment_quality.cpp"],
 [("header walk","MSG_header::read_from")],["catchable exception, or decoded header"])

p("C04","MSG native header, trailer, packet and line headers decode at their documented offsets",
 "Decoding an MSG native file takes the U-MARF main/secondary product header text fields, the level 1.5 header and trailer records and each packet and line header field from its documented position, with every integer big-endian and every record boundary at the documented length. The channel, line number and version of each line record are those of the file.",
 ["inputs"],"every byte content of header, trailer, packet header and line header",
 "No test in the repository reads a native file.",
 ["msat/msg-native/MSG_native_header.cpp","msat/msg-native/MSG_native_trailer.cpp","msat/msg-native/MSG_native_packetheader.cpp","msat/msg-native/MSG_native_line.cpp"],
 [("decoders","MSG_native_*::read_from")],["fields of the decoded objects"])

p("C05","Unpacking 10-bit native samples yields exactly the packed counts",
 "Unpacking a native image line of packed 10-bit samples returns, for each sample index, the 10-bit big-endian bit field at bit position 10*index of the line data, with value range 0..1023, for every line length. No byte beyond the line data is read and no sample beyond the returned buffer is written.",
 ["inputs"],"every line length and content, every sample index",
 "No test covers the native reader; packing errors show only for particular bit patterns and indices modulo 4.",
 ["msat/msg-native/MSG_native_line.cpp"],[("bit unpacking","MSG_native_linedata::to_sample / sample access")],["returned sample array"])

p("C06","CDS, CUC and compact time codes convert to the right UTC instant",
 "A CDS time (days since 1958-01-01 and milliseconds of day, optionally micro- and nanoseconds) converts to the Unix time day*86400+floor(ms/1000)-378691200 with the sub-second remainder kept, and its calendar rendering shows that same UTC year, month, day, hour, minute and second (and millisecond where shown). Every valid input decodes from consecutive big-endian fields of the documented width.",
 ["inputs"],"every day count and millisecond of day representable",
 "Tests see one or two acquisition times; day/leap-year boundaries and sub-second remainders are not sampled.",
 ["msat/hrit/MSG_time_cds.cpp","msat/hrit/MSG_time_cds.h"],[("conversions","MSG_time_cds*::unixtime, get_timestruct, get_timestr, read_from")],["returned time values"])

p("C07","Counts calibrate to radiance and brightness temperature by the published formulas",
 "For every channel and every count, the calibrated value of a solar channel is slope*count+offset with the slope and offset stored in the file for that channel, and that of a thermal channel is the brightness temperature (c2*nu/ln(1+c1*nu^3/L)-B)/A of the radiance L=slope*count+offset, with the central wave number nu and the coefficients A, B published for that channel. The table has one entry per count representable with the given number of bits, and slope, offset and linearity reported for a channel are those of that channel.",
 ["inputs"],"every channel, every count 0..1023, every calibration coefficient pair",
 "Tests compare three or four pixel values of one scene; a wrong coefficient for another satellite or channel, or a boundary count, is not sampled.",
 ["msat/hrit/MSG_data_RadiometricProc.cpp"],[("calibration tables","get_calibration, get_slope_offset")],["calibration table per channel"])

p("C08","Satellite, sensor and channel fact tables are total and mutually consistent",
 "Spacecraft id to name, HRIT id to WMO id, and channel to central wavelength/wave-number mappings are inverses of each other on every known spacecraft and channel; names, units, levels, number of significant digits and missing values follow the channel for every known spacecraft. Unknown ids or names give the documented 'unknown' answer, never another satellite's data.",
 ["inputs"],"every integer spacecraft/channel id, every known name and every other string",
 "The unit tests check some ids; the guarantee is over all pairs of satellites and channels and over all unknown values.",
 ["msat/facts.cpp","msat/facts.h"],[("tables","spacecraftIDFromHRIT/ToHRIT, spacecraftName/ID, channelName, channel_from_*")],["returned values"])

p("C09","Grid scaling factors, angular steps, pixel sizes and apparent diameters are inverse conversions",
 "Converting a CFAC/LFAC scaling factor to a pixel size or apparent Earth diameter (SEVIRI dx/dy) and back returns the original value up to floating-point rounding (exactly, for the integer dx/dy), in both axes and for both resolutions. Conversions that go through an intermediate representation agree with the direct ones.",
 ["inputs"],"all non-zero finite scaling factors, all dx/dy in the GRIB range",
 "The unit test checks the two factors of SEVIRI; a broken inverse shows only at other values.",
 ["msat/facts.cpp"],[("conversions","pixelHSizeFromCFAC … LFACFromSeviriDY")],["returned values"])

p("C10","Day-of-year and zenith-angle facts are right for every date, time and place",
 "The ordinal day is the number of the given Gregorian date in its year, for every valid date including century leap years. The cosine of the solar zenith angle computed from calendar date and time equals the one computed from ordinal day and fractional hour, is given by the documented declination/hour-angle formula and is periodic in longitude; the satellite zenith angle follows the documented formula.",
 ["inputs"],"every valid calendar date, hour, minute, latitude and longitude",
 "Tests sample a few dates and points.",
 ["msat/facts.cpp"],[("formulas","jday, cos_sol_za, sat_za")],["returned values"])

p("C11","Scanlines are assembled from the right segment, line and column order",
 "Reading image line L delivers exactly the samples of the segment line that the scan geometry assigns to it (north-up line order, columns mirrored when the file scans in the opposite direction, HRV lines counted from the actual coverage), for every segment size, number of segments, width and line. Lines of segments that are not available are all zero, no sample outside the line buffer is written, and the column where an HRV line starts follows the actual coverage window the line belongs to.",
 ["inputs","configurations"],"every line index, width, segment height, segment availability, scan direction and HRV coverage window",
 "Needs decoded segments, which the test environment cannot produce; tests look at a few pixels of one acquisition.",
 ["msat/xrit/dataaccess.cpp","msat/xrit/dataaccess.h"],[("placement","DataAccess::line_read, line_start, scanSegment")],["line buffer contents"])

p("C12","The segment cache always returns the requested segment and stays bounded",
 "After any sequence of segment requests, a request returns the data of the requested segment number, or nothing when that segment does not exist, whatever was requested before and whichever loads failed. At most two segments stay loaded; each loaded segment is released exactly once, and a returned segment is never one already released.",
 ["histories"],"all finite sequences of segment requests, including ones whose load fails",
 "Tests read lines in one ascending order; eviction followed by reuse, or a failing load, needs particular histories.",
 ["msat/xrit/dataaccess.cpp"],[("LRU cache","DataAccess::segment, ~DataAccess")],["returned segment"],
 [dict(name="segcache",meaning="most recently used first, at most 2 entries, distinct segment numbers",where="msat/xrit/dataaccess.h")])

p("C13","xRIT file names parse to the components they are made of, in both forms",
 "For every directory, resolution, product ids and time made of characters legal in such names, parsing the short form directory/resolution:product1:product2:time or the corresponding segment file name gives back exactly those components (trailing padding underscores removed), '.' when no directory is given. The prologue, epilogue and segment files searched for are those named from these components with the documented padding, and selecting another channel changes only the second product id; a name lacking components is refused with an error.",
 ["inputs"],"all component strings of any length over their legal alphabets",
 "Tests parse a few literal names.",
 ["msat/xrit/fileaccess.cpp"],[("parsing","FileAccess::parse, isValid"),("patterns","prologueFile, epilogueFile, segmentFiles")],["FileAccess members, glob patterns"])

p("C14","OpenMTP-IDS records survive writing and reading back, byte for byte",
 "For every value (of the 16 bits a field has in the file; texts of any content) of every OpenMTP-IDS file header, record header, line header and scan line field, writing it and reading it back yields the same value, both use the documented field order, width and byte order, and reading consumes exactly the bytes that writing produced. The byte-order primitives are exact inverses for each width and both byte orders.",
 ["inputs"],"every field value, every number of bytes per primitive",
 "There are no tests for this reader.",
 ["msat/omtp-ids/ByteSex.cc","msat/omtp-ids/FileHeader.cc","msat/omtp-ids/RecordHeader.cc","msat/omtp-ids/LineHeader.cc","msat/omtp-ids/ScanLine.cc","msat/omtp-ids/Record.cc"],
 [("codecs","read/write pairs")],["stream bytes, object fields"])

p("C15","OpenMTP-IDS selects exactly the requested scan lines",
 "Asking an OpenMTP-IDS product for one scan line, a half-open range of scan lines or all of them returns exactly those lines in order, for every product size and every range; the product's line count and record count agree with what is returned.",
 ["inputs"],"every product size and every requested range",
 "There are no tests for this reader.",
 ["msat/omtp-ids/OpenMTP-IDS.cc"],[("selection","OpenMTP_IDS::scanline")],["returned lines"])

p("C16","HRI numeric fields decode to the values their encoding defines",
 "A fixed-point ASCII field of an HRI subframe decodes to the decimal number it spells (blanks count as zero), two- and four-byte integers decode big-endian, and four- and eight-byte reals decode to the value of the IBM hexadecimal floating-point number stored (truncated to the precision of the result; out-of-range values become the largest number or zero). Each field of the label, identification, interpretation and key subframes is decoded so from its documented position, an unknown satellite is refused with an error, and no byte beyond a field is read.",
 ["inputs"],"every byte content of each field",
 "There are no tests for this reader; the byte-exact cases (negative exponents, unnormalised fractions) need specific patterns.",
 ["msat/hri/HRI_machine.cpp","msat/hri/HRI_subframe_label.cpp","msat/hri/HRI_subframe_identification.cpp","msat/hri/HRI_subframe_interpretation.cpp","msat/hri/HRI_subframe_keyslot.cpp"],[("primitives","HRI_machine::*_from_*")],["returned values"])

p("C17","HRI images return the pixels stored and calibrate every count",
 "For every satellite/format/band combination defined, a line (or half line) stored in an HRI image is returned unchanged by line and by pixel, other pixels are unaffected, and lines or pixels outside the image and lines of another size are refused with an error; the image has the documented size, sampling and units of its format and band. The calibration table gives, for each of the 256 counts, the documented physical value of that satellite and band.",
 ["inputs","configurations"],"every line, pixel and content, every satellite, format and band, every calibration coefficient",
 "There are no tests for this reader.",
 ["msat/hri/HRI_image.cpp"],[("store","put_line, get_line, get_pixel"),("tables","get_calibration")],["pixels, calibration table"])

p("C18","The GDAL xRIT band serves the scanline pixels, calibrated and placed, block by block",
 "For every block of an xRIT raster band, each output pixel is the (calibrated, for the channels that need it) count of the image column and line it stands for, or zero when the column lies outside the acquired line; negative or undefined calibrated values become zero. Nothing outside the block buffer is written, and band offset, scale, no-data and unit agree with that mapping.",
 ["inputs"],"every block index, line start, line content and calibration",
 "The tests that read compressed xRIT need a missing library; even then a few pixels are compared.",
 ["gdal/xrit/rasterband.cpp","gdal/xrit/dataset.cpp"],[("block mapping","IReadBlock implementations")],["block buffer"])

p("C19","Derived rasters (reflectance, zenith angles) stay in range and follow their formulas pixelwise",
 "Each pixel of a reflectance, cosine-of-solar-zenith, satellite-zenith or day-of-year raster is the documented function of that pixel's location, time and source counts, never NaN, clamped to its range (reflectance 0 to 100 percent, cosine 0 to 1, angles not below 0). Source bands are matched to channels by their channel id, and inputs that differ in size, projection, geotransform or time are refused.",
 ["inputs"],"every pixel location and source value, every set of source bands",
 "The tests compare a few pixels of one image with a tolerance.",
 ["gdal/reflectance/reflectance.cpp","gdal/reflectance/cos_sol_za.cpp","gdal/reflectance/sat_za.cpp","gdal/reflectance/jday.cpp","gdal/reflectance/base.cpp","gdal/reflectance/pixeltolatlon.cpp"],
 [("pixel functions","IReadBlock implementations"),("consistency","ProxyDataset::add_info, ReflectanceDataset::add_source")],["block buffers"])

p("C20","Calibrated views of raster bands are exact pixelwise transformations",
 "A calibrated view of a raster band delivers scale*count+offset for each pixel (missing values stay missing), in the block layout of the source band, for every count, scale and offset.",
 ["inputs"],"every count, scale, offset and block",
 "Not unit tested; errors appear only with non-trivial scale/offset combinations.",
 ["msat/gdal/dataset.cpp","msat/gdal/dataset.h"],[("view","CalibratedDataset / CalibratedRasterBand")],["block buffer"])

p("C21","Pixel/projected conversions are inverse and the crop window is the requested area",
 "For every invertible geotransform, converting pixel to projected coordinates and back (and inverting the geotransform itself) is the identity up to rounding, a singular geotransform is reported, and bounding boxes contain every pixel corner they were built from. A cropped or translated product's geotransform maps each of its pixels to the same projected point as the source pixel it was taken from.",
 ["inputs"],"all invertible geotransforms, all pixel coordinates, all crop windows inside the image",
 "Tests check a few points of unrotated sample geotransforms.",
 ["msat/gdal/dataset.cpp","msat/gdal/points.h","msat/gdal/gdaltranslate.cpp","gdal/xrit/dataset.cpp"],[("inversion","invertGeoTransform, GeoReferencer"),("window","GDALTranslate::translate")],["coordinates"])

p("C22","GRIB geometry, time and channel written by the driver are the ones read back",
 "For every grid geometry, reference time, spacecraft and channel representable in the GRIB space-view template, the keys the writer sets are decoded by the reader to the same projection, geotransform (up to the template's rounding), time, spacecraft and channel. Values are written north-to-south west-to-east with missing values flagged.",
 ["inputs"],"all sub-satellite longitudes, pixel sizes, offsets, times, spacecraft and channels",
 "Tests export one scene.",
 ["gdal/grib/grib.cpp","gdal/grib/utils.h"],[("writer","GRIB CreateCopy / templates"),("reader","GRIBDataset::init")],["GRIB keys, dataset metadata"])

p("C23","Text encodings used for options and messages decode back to the original text",
 "For every byte string, decoding its base64, URL or C-string encoding returns the original string, the encoding is the documented one (and so uses only the characters allowed in it), decoding any other text reads nothing outside it and ends, and the prefix, suffix and trim helpers agree with their definitions.",
 ["inputs"],"all byte strings of all lengths",
 "Tests cover a handful of literals.",
 ["msat/utils/string.cc","msat/utils/string.h"],[("codecs","encode_*/decode_*")],["returned strings"])

with open(os.path.join(os.path.dirname(__file__),'..','properties.jsonl'),'w') as f:
    for x in P: f.write(json.dumps(x)+"\n")
