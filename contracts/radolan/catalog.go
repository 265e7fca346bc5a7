//go:build verif

package radolan

// Catalogued units and dimensions: the reference the properties are stated against. The
// dimension tables list only labels whose value differs from the default.

//@ table unit_of int default Unit_unknown {
//@   "CH": Unit_mm, "CX": Unit_dBZ, "D2": Unit_mm, "D3": Unit_mm, "EA": Unit_dBZ, "EB": Unit_mm, "EC": Unit_mm, "EH": Unit_mm,
//@   "EM": Unit_mm, "EW": Unit_mm, "EX": Unit_dBZ, "EY": Unit_mm, "EZ": Unit_mm, "FX": Unit_dBZ, "FZ": Unit_dBZ, "HX": Unit_dBZ,
//@   "OL": Unit_dBZ, "OX": Unit_dBZ, "PA": Unit_dBZ, "PC": Unit_dBZ, "PD": Unit_mps, "PE": Unit_km, "PF": Unit_dBZ, "PG": Unit_dBZ,
//@   "PH": Unit_mm, "PI": Unit_dBZ, "PK": Unit_dBZ, "PL": Unit_dBZ, "PM": Unit_dBZ, "PN": Unit_dBZ, "PR": Unit_mps, "PU": Unit_mps,
//@   "PV": Unit_mps, "PX": Unit_dBZ, "PY": Unit_mm, "PZ": Unit_dBZ, "RA": Unit_mm, "RB": Unit_mm, "RE": Unit_mm, "RH": Unit_mm,
//@   "RK": Unit_mm, "RL": Unit_mm, "RM": Unit_mm, "RN": Unit_mm, "RQ": Unit_mm, "RR": Unit_mm, "RU": Unit_mm, "RW": Unit_mm,
//@   "RX": Unit_dBZ, "RY": Unit_mm, "RZ": Unit_mm, "S2": Unit_mm, "S3": Unit_mm, "SF": Unit_mm, "SH": Unit_mm, "SQ": Unit_mm,
//@   "TB": Unit_mm, "TH": Unit_mm, "TW": Unit_mm, "TX": Unit_dBZ, "TZ": Unit_mm, "W1": Unit_mm, "W2": Unit_mm, "W3": Unit_mm,
//@   "W4": Unit_mm, "WN": Unit_dBZ, "WX": Unit_dBZ, "YW": Unit_mm }

//@ table cat_py int default 0 {
//@   "OL": 224, "OX": 224, "PD": 224, "PE": 224, "PF": 224, "PH": 224, "PL": 224, "PM": 224,
//@   "PR": 224, "PU": 2400, "PV": 224, "PX": 224, "PY": 224, "PZ": 2400 }
//@ table cat_res float64 default 0.0 {
//@   "OL": 2.0, "OX": 1.0, "PD": 1.0, "PE": 2.0, "PF": 1.0, "PH": 1.0, "PL": 2.0, "PM": 2.0,
//@   "PR": 1.0, "PU": 1.0, "PV": 1.0, "PX": 1.0, "PY": 1.0, "PZ": 2.0 }

//@ pure catalogued(l) = in_cat_py(l)
