---------------------------- MODULE KnxDptTypes ----------------------------
(* The datapoint types: octets occupied, whether the value is shorter than an
   octet (and then travels inside the APCI octet), the significant bits of such
   a value, and the layout of the named fields (position and width in bits,
   names of the enumerated values). *)
EXTENDS KnxOctets

Fld(nm, lo, n, en) == [name |-> nm, lo |-> lo, n |-> n, enum |-> en]
\* enum: sequence of [nm, v]; <<>> = a plain number
En2(a, b) == <<[nm |-> a, v |-> 0], [nm |-> b, v |-> 1]>>
Funz == <<[nm |-> "off", v |-> 0], [nm |-> "forced_off", v |-> 1], [nm |-> "off_a_tempo", v |-> 2],
          [nm |-> "antigelo", v |-> 3], [nm |-> "riduzione_notturna", v |-> 4],
          [nm |-> "riduzione_notturna_a_tempo", v |-> 5], [nm |-> "manuale", v |-> 6],
          [nm |-> "manuale_a_tempo", v |-> 7], [nm |-> "automatico", v |-> 8],
          [nm |-> "automatico_invio_temperatura_abilitato", v |-> 8],
          [nm |-> "automatico_invio_temperatura_disabilitato", v |-> 14]>>
OnOff == <<Fld("action", 0, 1, En2("off", "on"))>>

\* size in octets, sub = shorter than an octet, bits = significant bits
Ty(sz, sub, bits, kind, flds) == [size |-> sz, sub |-> sub, bits |-> bits, kind |-> kind, flds |-> flds]
DptType ==
  [ DPT_Switch |-> Ty(1, TRUE, 1, "fields", OnOff),
    DPT_Info_Switch |-> Ty(1, TRUE, 1, "fields", OnOff),
    DPT_Alarm |-> Ty(1, TRUE, 1, "fields", <<Fld("action", 0, 1, En2("no_alarm", "alarm"))>>),
    DPT_UpDown |-> Ty(1, TRUE, 1, "fields", <<Fld("direction", 0, 1, En2("up", "down"))>>),
    DPT_Start |-> Ty(1, TRUE, 1, "fields", <<Fld("action", 0, 1, En2("stop", "start"))>>),
    DPT_Control_Dimming |-> Ty(1, TRUE, 4, "fields", <<Fld("step", 0, 3, <<>>), Fld("direction", 3, 1, En2("down", "up"))>>),
    DPTVimarScene |-> Ty(1, FALSE, 8, "fields",
        <<Fld("index", 0, 6, <<>>),
          Fld("command", 6, 2, <<[nm |-> "attiva", v |-> 0], [nm |-> "cancella", v |-> 1],
                                 [nm |-> "memorizza", v |-> 2], [nm |-> "identifica", v |-> 3]>>)>>),
    DPT_SceneControl |-> Ty(1, FALSE, 8, "fields",
        <<Fld("number", 0, 6, <<>>), Fld("command", 7, 1, En2("activate", "learn"))>>),
    DPT_Brightness |-> Ty(1, FALSE, 8, "raw", <<>>),
    DPTSetupClima |-> Ty(4, FALSE, 32, "fields",
        <<Fld("temporizzazione", 0, 8, <<>>), Fld("setpoint", 8, 8, <<>>), Fld("differenziale", 16, 5, <<>>),
          Fld("variazione_setpoint", 21, 2, <<>>), Fld("unita_misura", 23, 1, En2("celsius", "farenheit")),
          Fld("funzionamento", 24, 4, Funz), Fld("centralizzato", 28, 1, <<>>),
          Fld("stagione", 29, 1, En2("inverno", "estate")), Fld("terziario", 30, 1, <<>>)>>),
    \* temperatura is in tenths, bits 0..8
    DPTInfoClimaReport |-> Ty(4, FALSE, 32, "fields",
        <<Fld("temperatura", 0, 9, <<>>), Fld("setpoint", 16, 8, <<>>), Fld("funzionamento", 24, 4, Funz),
          Fld("stagione", 29, 1, En2("inverno", "estate"))>>),
    DPT_Float_16 |-> Ty(2, FALSE, 16, "f16", <<>>),
    DPT_Value_Wsp |-> Ty(2, FALSE, 16, "f16", <<>>),
    DPT_Value_Temp |-> Ty(2, FALSE, 16, "f16", <<>>),
    DPT_Value_Lux |-> Ty(2, FALSE, 16, "f16", <<>>),
    DPT_Float_32 |-> Ty(4, FALSE, 32, "f32", <<>>),
    DPT_Value_Power |-> Ty(4, FALSE, 32, "f32", <<>>) ]
DptNames == DOMAIN DptType
\* the significant part of a raw value given as octets (big endian)
Significant(d, o) == LET ty == DptType[d] IN
                     IF ty.sub THEN <<LastN(o, 1)[1] % Pow2(ty.bits)>> ELSE LastN(o, ty.size)
=============================================================================
