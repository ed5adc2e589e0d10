SPECIFICATION GSpec
CONSTANTS
  Algs = {"neutral", "isc_voc", "ivcurve", "cv", "mppt_opt"}
  Big2 = FALSE
