NOTE.update({
'C02':"Number of quality lines symbolic; %f conversion of the projection text uninterpreted.",
'C03':"Any byte string, any length; termination included.",
'C04':"Any stream contents; string runtime by contract.",
'C05':"Any line length below 2^29 samples.",
'C06':"Calendar through contracts on gmtime/timegm; four-digit years 1900-2200 in texts.",
'C07':"Every count and channel; log uninterpreted.",
'C08':"All arguments.",
'C09':"IEEE rounding included by relative error analysis.",
'C10':"Formulas modulo real-arithmetic normal form (rounding ignored there, named so in the evidence).",
'C11':"scan() is proved for 0-3 segment files (bounded), everything else for any geometry.",
'C12':"Inductive step from every state of the cache.",
'C13':"Component texts of symbolic length; glob and string runtime by contract.",
'C14':"Byte-order primitives and every record class; stream by contract.",
'C15':"Symbolic number of records and lines.",
'C16':"All bit patterns of the reals; rounding included for fixed-point fields.",
'C17':"Ghost image with frame conditions; every calibration table entry.",
'C18':"line_read by contract (C11), calibration by contract (C07).",
'C19':"Positions proved for blocks of 1-3 rows, add_source for up to 3 bands (both bounded); exp/pow/cos uninterpreted, rounding ignored in the formulas.",
'C20':"Any block; GDAL by contract.",
'C21':"Inverse laws over the reals; GDAL by contract.",
'C23':"Texts of symbolic length.",
})
REASON.update({'C22':"What the writer and reader guarantee is entirely the meaning of grib_api keys (aliases, scaled units, century/year keys, packing, sample templates). No source of grib_api is under contract here, so every obligation would follow from assumed key semantics: a contract proof would establish the assumption, not the code."})
