SPECIFICATION TSpec
CONSTANTS
  BUF = 10000
  DEFIV = 10000
  TOLDIV = 200000
