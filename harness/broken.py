"""Broken specifications: (module, configuration of the model it extends, law, definition replaced, by what).

Each must violate its law, which shows that the law is not vacuous and that the model reaches what it speaks about.
The properties name the checks whose thorough tier asks for it."""

F, O = "MCCodec.f1.cfg", "MCCodec.o1.cfg"
BROKEN = [
    ("BadCodec", F, "C01", "Receivers", "BadReceivers", ["C01"]),
    ("BadCodec", F, "C01", "Receivers", "BadUntyped", ["C01"]),
    ("BadCodec", F, "C03", "Significant", "BadSignificant", ["C03"]),
    ("BadCodec", F, "C03", "Significant", "BadFront", ["C03"]),
    ("BadCodec", F, "C04", "GroupService", "BadGroupService", ["C04"]),
    ("BadCodec", F, "C04n", "GroupService", "BadLowService", ["C04"]),
    ("BadCodec", F, "C04", "PropService", "BadPropService", ["C04", "C11"]),
    ("BadCodec", F, "C05", "Negative", "BadNegative", ["C05"]),
    ("BadCodec", F, "C07", "PlainData", "BadStandard", ["C07"]),
    ("BadCodec", F, "C07", "DecodeCemi", "BadDecodeCemi", ["C07"]),
    ("BadCodec", F, "C08", "PlainData", "BadPlainData", ["C08"]),
    ("BadCodec", F, "C08", "DecodeCemi", "BadCodes", ["C08"]),
    ("BadCodec", F, "C11", "PropMsgs", "BadPropMsgs", ["C11"]),
    ("BadCodec", F, "C11", "DecodeCemi", "BadDecodeCemi", ["C11"]),
    ("BadCodec", O, "C09", "FeatureMsgs", "BadFeatureMsgs", ["C09"]),
    ("BadCodec", O, "C22", "Ip4", "BadIp4", ["C22"]),
    ("BadCodec", O, "C22", "ConnectStatuses", "BadConnectStatuses", ["C22"]),
    ("BadCodec", O, "C02", "AddressesOf", "BadAddressesOf", ["C02"]),
    ("BadCodec", O, "C02", "LengthFits", "BadLengthFits", ["C02", "C06"]),
    ("BadCodec", O, "C02", "LinkFrame", "BadLinkFrame", ["C02"]),
    ("BadCodec", O, "C06", "LinkFrame", "BadLength", ["C06"]),
    ("BadCodec", O, "C06", "WrapUsb", "BadWrapUsb", ["C06"]),
    ("BadCodec", O, "C06", "WrapIp", "BadWrapIp", ["C06"]),
    ("BadCodec", O, "C06", "LengthFits", "BadLengthFits", ["C06"]),
    ("BadCodec", O, "C10", "PropHeader", "BadPropHeader", ["C10"]),
    ("BadCodec", O, "C22e", "Hpai", "BadHpai", ["C22"]),
    ("BadCodec", O, "C37", "LinkFrame", "BadLength", ["C37"]),
    ("BadCodec", O, "Trip", "GroupApdu", "BadGroupApdu", ["C03"]),
    ("BadCodec", O, "Untouched", "EncRes", "BadEncRes", ["C20"]),
    ("BadTables", "MCTables.quick.cfg", "Inv", "InsertSorted", "BadInsertSorted", ["C12"]),
    ("BadTables", "MCTables.quick.cfg", "Inv", "TableAdd", "BadAdd", ["C12"]),
    ("BadTables", "MCTables.quick.cfg", "FailedKeeps", "TableAdd", "BadTableAdd", ["C14"]),
    ("BadTables", "MCTables.quick.cfg", "FailedKeeps", "Disassociate", "BadPartly", ["C14"]),
    ("BadTables", "MCTables.quick.cfg", "Relation", "TableRemove", "BadTableRemove", ["C13"]),
    ("BadTables", "MCTables.quick.cfg", "Relation", "AppendNew", "BadAppendNew", ["C13"]),
    ("BadTables", "MCTables.quick.cfg", "Contents", "Disassociate", "BadDisassociate", ["C12", "C13"]),
    ("BadTables", "MCTables.quick.cfg", "Others", "Disassociate", "BadDisassociate", ["C13"]),
    ("BadTables", "MCTables.quick.cfg", "Contents", "Disassociate", "BadKeeps", ["C12"]),
    ("BadTables", "MCTables.quick.cfg", "Lookups", "AsapsOf", "BadAsapsOf", ["C13"]),
    ("BadTables", "MCTables.quick.cfg", "Lookups", "TsapsOf", "BadTsapsOf", ["C13"]),
    ("BadTables", "MCTables.quick.cfg", "Inv", "FreeAsap", "BadFreeAsap", ["C15"]),
    ("BadSession", "MCSession.all.cfg", "Expected", "AckSent", "BadAckSent", ["C19"]),
    ("BadSession", "MCSession.all.cfg", "AdvancesByOne", "AckSent", "BadJump", ["C19"]),
    ("BadSession", "MCSession.all.cfg", "AdvancesByOne", "Inc", "BadInc", ["C19", "C20"]),
    ("BadSession", "MCSession.all.cfg", "AckNames", "Encode", "BadEncode", ["C19"]),
    ("BadSession", "MCSession.all.cfg", "SendCounter", "AckReceived", "BadAckReceived", ["C20"]),
    ("BadSession", "MCSession.all.cfg", "SendCounter", "AckReceived", "BadAnyAck", ["C20"]),
    ("BadSession", "MCSession.all.cfg", "RequestCounter", "WrapIp", "BadWrapIp", ["C20"]),
    ("BadSession", "MCSession.all.cfg", "Channel", "Decode", "BadDecode", ["C21"]),
    ("BadSession", "MCSession.all.cfg", "Granted", "Decode", "BadFirst", ["C21"]),
    ("BadSession", "MCSession.all.cfg", "CoreChannel", "Encode", "BadCore", ["C21"]),
    ("BadSession", "MCSession.all.cfg", "Delivery", "Classify", "BadClassify", ["C18"]),
    ("BadLink", "MCLink.quick.cfg", "Bitwise", "SetBits", "BadSetBits", ["C38"]),
    ("BadLink", "MCLink.quick.cfg", "Leaves", "PutField", "BadPutField", ["C38"]),
    ("BadLink", "MCLink.quick.cfg", "Kinds", "SetUnit", "BadSetUnit", ["C38"]),
    ("BadLink", "MCLink.quick.cfg", "Reads", "PutField", "BadPutField", ["C38"]),
    ("BadLink", "MCLink.quick.cfg", "Again", "PutField", "BadCount", ["C38"]),
    ("BadLink", "MCLink.quick.cfg", "Twice", "PutField", "BadCount", ["C38"]),
    ("BadLink", "MCLink.quick.cfg", "Shape", "PutField", "BadShort", ["C38"]),
    ("BadReader", "MCReader.quick.cfg", "Whole", "Take", "BadTake", ["C33"]),
    ("BadReader", "MCReader.quick.cfg", "Same", "BlockSays", "BadBlockSays", ["C33"]),
    ("BadReader", "MCReader.quick.cfg", "Endpoint", "BlockSays", "BadBlockSays", ["C33"]),
    ("BadReader", "MCReader.quick.cfg", "Same", "Says", "BadSays", ["C33"]),
    ("BadReader", "MCReader.quick.cfg", "Left", "Drop", "BadDrop", ["C33"]),
    ("BadStack", "MCStack.sim.cfg", "Reach", "Receivers", "BadReceivers", ["C01"]),
    ("BadStack", "MCStack.sim.cfg", "Reach", "AsapsOf", "BadAsapsOf", ["C01", "C16"]),
    ("BadStack", "MCStack.sim.cfg", "AsNew", "AsapsOf", "BadAsapsOf", ["C16"]),
    ("BadStack", "MCStack.sim.cfg", "Goes", "AddressesOf", "BadAddressesOf", ["C02", "C16"]),
    ("BadStack", "MCStack.sim.cfg", "Counters", "AckSent", "BadAckSent", ["C19"]),
    ("BadStack", "MCStack.sim.cfg", "Counters", "AckReceived", "BadAckReceived", ["C20"]),
    ("BadStack", "MCStack.sim.cfg", "Inv", "TableAdd", "BadTableAdd", ["C12"]),
    ("BadStack", "MCStack.sim.cfg", "Own", "Step", "BadStep", ["C23"]),
    ("BadStack", "MCStack.sim.cfg", "Own", "Step", "BadShared", ["C23"]),
    ("BadClient", "MCClient.quick.cfg", "Connects", "React", "BadReact", ["C24"]),
    ("BadClient", "MCClient.quick.cfg", "OnGrant", "React", "BadKeeps", ["C24"]),
    ("BadClient", "MCClient.quick.cfg", "Acks", "React", "BadAcks", ["C26"]),
    ("BadClient", "MCClient.quick.cfg", "NoOtherAcks", "React", "BadOther", ["C26"]),
    ("BadClient", "MCClient.quick.cfg", "Quiet", "NextMessage", "BadNextMessage", ["C24", "C25"]),
    ("BadClient", "MCClient.quick.cfg", "InOrder", "SendNext", "BadSendNext", ["C25"]),
    ("BadClient", "MCClient.quick.cfg", "OnlyTicks", "TReceive", "BadReceive", ["C25"]),
    ("BadLines", "MCLines.quick.cfg", "Inv", "UReceive", "BadReceive", ["C27"]),
    ("BadLines", "MCLines.quick.cfg", "Inv", "UReceive", "BadPieces", ["C27"]),
    ("BadLines", "MCLines.quick.cfg", "Inv", "UReceive", "BadRest", ["C27"]),
    ("BadLines", "MCLines.quick.cfg", "Counted", "HexDigit", "BadHexDigit", ["C27"]),
    ("BadLines", "MCLines.quick.cfg", "Apart", "UWrite", "BadWrite", ["C27"]),
    ("BadDiscovery", "MCDiscovery.quick.cfg", "Asks", "Hpai", "BadHpai", ["C28"]),
    ("BadDiscovery", "MCDiscovery.quick.cfg", "Exactly", "MSearchRes", "BadSearchRes", ["C28"]),
    ("BadDiscovery", "MCDiscovery.quick.cfg", "Understands", "Heard", "BadHeard", ["C28"]),
    ("BadHeld", "MCHeld.quick.cfg", "Stays", "CellOf", "KeptCellOf", ["C41"]),
    ("BadHeld", "MCHeld.quick.cfg", "Stays", "CellOf", "SharedCellOf", ["C41"]),
    ("BadHeld", "MCHeld.quick.cfg", "TablesOwn", "CellOf", "OwnCellOf", ["C43"]),
    ("BadHeld", "MCHeld.quick.cfg", "TablesOwn", "CellOf", "ListCellOf", ["C43"]),
    ("BadHeld", "MCHeld.quick.cfg", "Apart", "CellOf", "KeptCellOf", ["C43"]),
    ("BadNumber", "MCNumber.quick.cfg", "Made", "NumParts", "BadNumParts", ["C44"]),
    ("BadNumber", "MCNumber.quick.cfg", "Given", "NumWith", "BadNumWith", ["C44"]),
    ("BadNumber", "MCNumber.quick.cfg", "Value16", "NumParts", "BadNumParts", ["C44"]),
    ("BadNumber", "MCNumber.quick.cfg", "Shown", "HexText", "BadHexText", ["C44"]),
    ("BadSystem", "MCSystem.quick.cfg", "Delivered", "Classify", "BadClassify", ["C18"]),
    ("BadSystem", "MCSystem.quick.cfg", "Delivered", "Receivers", "BadReceivers", ["C01"]),
    ("BadSystem", "MCSystem.cut.cfg", "Complete", "UReceive", "BadReceive", ["C27"]),
    ("BadSystem", "MCSystem.two.cfg", "Complete", "UWrite", "BadWriteOf", ["C27"]),
    ("BadThreads", "MCThreads.quick.cfg", "Alone", "Cell", "BadCell", ["C45"]),
    ("BadThreads", "MCThreads.quick.cfg", "Alone", "ShownAs", "BadShownAs", ["C45"]),
    ("BadThreads", "MCThreads.quick.cfg", "Whole", "ShownAs", "BadShownAs", ["C45"]),
    ("BadValues", "MCValues.quick.cfg", "Address", "Two", "BadTwo", ["C32"]),
    ("BadValues", "MCValues.quick.cfg", "Address", "Three", "BadThree", ["C32"]),
    ("BadValues", "MCValues.quick.cfg", "Fields", "SetField", "BadSetField", ["C29"]),
    ("BadValues", "MCValues.quick.cfg", "Fields", "GetField", "BadGetField", ["C29"]),
    ("BadValues", "MCValues.quick.cfg", "Described", "FieldSays", "BadFieldSays", ["C30"]),
    ("BadValues", "MCValues.quick.cfg", "Described", "Build", "BadBuild", ["C30"]),
    ("BadValues", "MCValues.quick.cfg", "Float16", "F16Dec", "BadF16Dec", ["C31"]),
    ("BadValues", "MCValues.quick.cfg", "Float16", "F16Limit", "BadF16Limit", ["C31"]),
    ("BadValues", "MCValues.quick.cfg", "Nearest", "F16Exp", "BadF16Exp", ["C31"]),
    ("BadValues", "MCValues.quick.cfg", "Halfway", "F32Enc", "BadF32Enc", ["C31"]),
    ("BadValues", "MCValues.quick.cfg", "Float32", "F32Dec", "BadF32Dec", ["C31"]),
    ("BadValues", "MCValues.quick.cfg", "Texts", "HexUpper", "BadHexUpper", ["C33"]),
    ("BadValues", "MCValues.quick.cfg", "Codec", "Significant", "BadSignificant", ["C03"]),
]


def config(text, law, name, by):
    """the configuration of the model with one definition replaced and one law left"""
    out, kind = [], "INVARIANT"
    for line in text.splitlines():
        words = line.split()
        if words and words[0] in ("INVARIANTS", "PROPERTIES"):
            if law in words[1:]:
                kind = "INVARIANT" if words[0] == "INVARIANTS" else "PROPERTY"
            continue
        out.append(line.replace("Emit = TRUE", "Emit = FALSE"))
    return "\n".join(out + ["%s %s" % (kind, law), "CONSTANT %s <- %s" % (name, by), ""])
