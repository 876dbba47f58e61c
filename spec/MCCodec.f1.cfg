SPECIFICATION Spec
CONSTANTS Ctrl1s <- FewCtrl
 Ctrl2s <- FewCtrl
 Apcis <- FewApcis
 Datas <- FewData
 Adds = {0, 3}
 Deep = "frames"
 Emit = TRUE
CHECK_DEADLOCK FALSE
INVARIANTS C01 C02 C03 C04 C04n C05 C06 C07 C08 C09 C10 C11 C22 C22e Trip Untouched
