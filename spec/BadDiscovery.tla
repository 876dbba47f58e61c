------------------------------ MODULE BadDiscovery ------------------------------
(* Wrong definitions for MCDiscovery (see BadCodec).                           *)
EXTENDS MCDiscovery

BadHpai(ip, port) == <<8, 1>> \o ip \o <<Lo(port), Hi(port)>>
BadSearchRes(ip, port, ia) == [k |-> "searchres", ip |-> ip, port |-> port, ia |-> ia % 256]
BadHeard(d) == Decode(Ip, NewTables(0, <<>>, 255), Sess(0, 0, 0), Gram(d)).msgs
=============================================================================
