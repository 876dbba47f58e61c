SPECIFICATION Fair
CONSTANTS Work <- WorkQuick
 Room = 1
 Pieces = {}
CHECK_DEADLOCK FALSE
PROPERTIES Ends
