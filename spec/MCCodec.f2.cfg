SPECIFICATION Spec
CONSTANTS Ctrl1s <- R255
 Ctrl2s <- R255
 Apcis <- R1023
 Datas <- ManyData
 Adds = {0, 1, 2, 3, 4, 100}
 Deep = "frames"
 Emit = FALSE
CHECK_DEADLOCK FALSE
INVARIANTS C01 C02 C03 C04 C04n C05 C06 C07 C08 C09 C10 C11 C22 C22e Trip Untouched
