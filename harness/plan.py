"""Which models and which recorded suites decide which property."""

from broken import BROKEN

KNX = dict(judge="KnxTrace")
SUITES = {
    s: dict(KNX) for s in (
        "tables", "failed", "telegrams", "reach", "media", "foreign", "features",
        "properties_in", "sending", "orders", "reconfig", "everywhere", "values", "tunnel", "core", "isolation", "shown", "links", "names", "owned", "large", "asked", "kept", "mangled", "lists", "soak",
        "octets", "proctets", "requests", "shownlarge", "numbered", "threads", "sweeps")
}

SUITES["m_tables"] = dict(judge="KnxTrace", graph="g_tables")
SUITES["m_objects"] = dict(judge="KnxTrace", graph="g_objects")
SUITES["m_shown"] = dict(judge="KnxTrace", graph="g_objects")
SUITES["m_names"] = dict(judge="KnxTrace", graph="g_tables")
SUITES["m_held"] = dict(judge="KnxTrace", graph="g_held")
SUITES["m_codec"] = dict(judge="KnxTrace", graph="g_codec")
SUITES["m_other"] = dict(judge="KnxTrace", graph="g_other")
SUITES["m_stack"] = dict(judge="KnxTrace", graph="g_stack")
SUITES["m_link"] = dict(judge="KnxTrace", graph="g_link")
SUITES["m_session"] = dict(judge="KnxTrace", graph="g_session")
for _s in ("tunnelling", "gateway", "usbclient", "discovery", "longrun", "together"):
    SUITES[_s] = dict(judge="ClientTrace")
SUITES["m_tunnel"] = dict(judge="KnxTrace", graph="g_tunnel")
SUITES["m_gateway"] = dict(judge="ClientTrace", graph="g_tunnel")
SUITES["m_lines"] = dict(judge="ClientTrace", graph="g_lines")
SUITES["m_discovery"] = dict(judge="ClientTrace", graph="g_discovery")
SUITES["m_client"] = dict(judge="ClientTrace", graph="g_client")

for _s in ("addresses", "fields", "described", "float16", "float32", "texts", "wires", "numbers"):
    SUITES[_s] = dict(judge="ValueTrace")

SUITES["m_number"] = dict(judge="ValueTrace", graph="g_number")
SUITES["m_reader"] = dict(judge="ValueTrace", graph="g_reader")

for _s in ("reports", "crowd", "lines", "faults", "stalled", "longday"):
    SUITES[_s] = dict(judge="DaemonTrace")

SUITES["m_daemon"] = dict(judge="DaemonTrace", graph="g_daemon")

# models: "emit" ones print their transitions, which the m_ suites replay
MODELS = {
    "MCTables": dict(module="MCTables", cfg=dict(quick="MCTables.quick.cfg", thorough="MCTables.thorough.cfg")),
    "g_tables": dict(module="MCTables", emit=True, cfg=dict(quick="MCTables.g1.cfg", thorough="MCTables.g2.cfg")),
    "MCCodec": dict(module="MCCodec", cfg=dict(quick="MCCodec.f1.cfg", thorough="MCCodec.f2.cfg"), workers=8, heap="6g", tiers=["thorough"]),
    "g_codec": dict(module="MCCodec", emit=True, cfg=dict(quick="MCCodec.f1.cfg", thorough="MCCodec.f3.cfg"), heap="6g"),
    "g_other": dict(module="MCCodec", emit=True, cfg=dict(quick="MCCodec.o1.cfg")),
    # a simulated model: TLC walks it at random, `walks` times, and checks its laws on the way
    "g_stack": dict(module="MCStack", emit=True, cfg=dict(quick="MCStack.sim.cfg", thorough="MCStack.sim2.cfg"), walks=dict(quick=120, thorough=1500), depth=400),
    "g_link": dict(module="MCLink", emit=True, cfg=dict(quick="MCLink.quick.cfg", thorough="MCLink.thorough.cfg"), workers=4),
    "g_reader": dict(module="MCReader", emit=True, cfg=dict(quick="MCReader.quick.cfg", thorough="MCReader.thorough.cfg")),
    "g_held": dict(module="MCHeld", emit=True, cfg=dict(quick="MCHeld.quick.cfg", thorough="MCHeld.thorough.cfg")),
    "g_number": dict(module="MCNumber", emit=True, cfg=dict(quick="MCNumber.quick.cfg")),
    "MCSession": dict(module="MCSession", cfg=dict(quick="MCSession.all.cfg", thorough="MCSession.full.cfg")),
    "g_session": dict(module="MCSession", emit=True, cfg=dict(quick="MCSession.quick.cfg", thorough="MCSession.thorough.cfg")),
    "MCTunnel": dict(module="MCTunnel", cfg=dict(quick="MCTunnel.safety.cfg", thorough="MCTunnel.thorough.cfg"), workers=8, heap="6g"),
    "MCTunnelLive": dict(module="MCTunnel", cfg=dict(quick="MCTunnel.live.cfg", thorough="MCTunnel.live2.cfg")),
    "g_tunnel": dict(module="MCTunnel", emit=True, cfg=dict(quick="MCTunnel.graph.cfg", thorough="MCTunnel.graph2.cfg")),
    "g_client": dict(module="MCClient", emit=True, cfg=dict(quick="MCClient.quick.cfg", thorough="MCClient.thorough.cfg")),
    "g_lines": dict(module="MCLines", emit=True, cfg=dict(quick="MCLines.quick.cfg", thorough="MCLines.thorough.cfg")),
    "g_discovery": dict(module="MCDiscovery", emit=True, cfg=dict(quick="MCDiscovery.quick.cfg")),
    "MCTunnel.bug1": dict(module="MCTunnel", tiers=["thorough"], expect="violated", cfg=dict(thorough="MCTunnel.bug1.cfg")),
    "MCTunnel.bug2": dict(module="MCTunnel", tiers=["thorough"], expect="violated", cfg=dict(thorough="MCTunnel.bug2.cfg")),
    "MCTunnel.bug3": dict(module="MCTunnel", tiers=["thorough"], expect="violated", cfg=dict(thorough="MCTunnel.bug3.cfg")),
    "MCTunnel.bug4": dict(module="MCTunnel", tiers=["thorough"], expect="violated", cfg=dict(thorough="MCTunnel.bug4.cfg")),
    "MCTunnel.bug5": dict(module="MCTunnel", tiers=["thorough"], expect="violated", cfg=dict(thorough="MCTunnel.bug5.cfg")),
    # proved by Apalache: the invariant is inductive, whatever the counters and however many telegrams
    "ProofTunnel": dict(module="ProofTunnel", uses=["KnxCounters"], tiers=["thorough"], proof=[("Init", "Inv", 0), ("IndInit", "Laws", 0), ("IndInit", "Inv", 1)]),
    "ProofTunnel.no_wrap": dict(module="ProofTunnel", uses=["KnxCounters"], tiers=["thorough"], expect="violated", proof=[("IndInit", "Inv", 1)],
                                breaks=[("KnxCounters", "Inc(n) == (n + 1) % 256", "Inc(n) == n + 1")]),
    "ProofTunnel.any_ack": dict(module="ProofTunnel", uses=["KnxCounters"], tiers=["thorough"], expect="violated", proof=[("IndInit", "Inv", 1)],
                                breaks=[("KnxCounters", "ctr = s.lc /\\ st = 0 THEN", "st = 0 THEN")]),
    "MCThreads": dict(module="MCThreads", cfg=dict(quick="MCThreads.quick.cfg", thorough="MCThreads.two.cfg")),
    # the clients, the daemon, a gateway and the bus together
    "MCSystem": dict(module="MCSystem", cfg=dict(quick="MCSystem.quick.cfg", thorough="MCSystem.two.cfg"), workers=4),
    "MCSystemLive": dict(module="MCSystem", cfg=dict(quick="MCSystem.live.cfg")),
    "MCSystemCut": dict(module="MCSystem", tiers=["thorough"], cfg=dict(thorough="MCSystem.cut.cfg"), workers=4),
    "MCSystemTunnel": dict(module="MCSystem", tiers=["thorough"], cfg=dict(thorough="MCSystem.tunnel.cfg"), workers=4),
    "MCValues": dict(module="MCValues", cfg=dict(quick="MCValues.quick.cfg", thorough="MCValues.thorough.cfg")),
    "MCDaemon": dict(module="MCDaemon", cfg=dict(quick="MCDaemon.quick.cfg", thorough="MCDaemon.thorough.cfg"), workers=8, heap="6g"),
    "MCDaemonStall": dict(module="MCDaemon", tiers=["thorough"], cfg=dict(thorough="MCDaemon.stall.cfg")),
    "MCDaemonLive": dict(module="MCDaemon", cfg=dict(quick="MCDaemon.live.cfg")),
    "g_daemon": dict(module="MCDaemonRun", emit=True, cfg=dict(quick="MCDaemonRun.quick.cfg", thorough="MCDaemonRun.thorough.cfg")),
    **{"MCDaemon." + b: dict(module="MCDaemon", tiers=["thorough"], expect="violated", cfg=dict(thorough="MCDaemon.%s.cfg" % b))
       for b in ("bug_sigpipe", "bug_abort", "bug_blocks", "bug_slot", "bug_stale", "bug_shared")},
    "g_objects": dict(module="MCTables", emit=True, cfg=dict(quick="MCTables.o1.cfg", thorough="MCTables.o2.cfg")),
}

# broken specifications, which must violate the law named: asked for by the thorough tier
for _m, _cfg, _law, _name, _by, _ids in BROKEN:
    MODELS["%s.%s.%s" % (_m, _law, _by)] = dict(module=_m, tiers=["thorough"], expect="violated", law=_law, replaced=(_name, _by), workers=1, heap="2g", cfg=dict(thorough=_cfg),
                                                **(dict(walks=dict(thorough=120), depth=400) if ".sim." in _cfg else {}))

CHECKS = {
    "C01": dict(models=["MCCodec"], suites=["m_codec", "telegrams", "reach", "tables", "everywhere", "reconfig", "m_stack", "large", "mangled", "octets"]),
    "C02": dict(suites=["sending", "tables", "orders", "everywhere", "m_other", "m_stack", "large", "requests"]),
    "C03": dict(models=["MCCodec", "MCSystem"], suites=["values", "wires", "sending", "telegrams", "m_other", "m_codec", "octets", "requests"]),
    "C04": dict(models=["MCCodec"], suites=["telegrams", "properties_in", "m_codec", "mangled", "octets", "proctets"]),
    "C05": dict(models=["MCCodec"], suites=["telegrams", "properties_in", "reach", "m_codec", "mangled", "octets", "proctets"]),
    "C06": dict(suites=["sending", "values", "everywhere", "m_other", "m_stack", "requests"]),
    "C07": dict(models=["MCCodec"], suites=["media", "m_codec", "mangled", "octets", "proctets"]),
    "C08": dict(models=["MCCodec"], suites=["foreign", "m_codec", "m_stack", "mangled", "octets", "proctets"]),
    "C09": dict(suites=["features", "m_other", "mangled", "proctets"]),
    "C10": dict(suites=["sending", "isolation", "everywhere", "m_other", "m_stack", "requests"]),
    "C11": dict(models=["MCCodec"], suites=["properties_in", "telegrams", "m_codec", "mangled", "proctets"]),
    "C12": dict(models=["MCTables"], suites=["tables", "failed", "m_tables", "m_stack", "large", "numbered"]),
    "C13": dict(models=["MCTables"], suites=["tables", "failed", "m_tables", "orders", "m_stack", "large", "numbered"]),
    "C14": dict(models=["MCTables"], suites=["failed", "tables", "m_tables", "m_stack", "numbered"]),
    "C15": dict(models=["MCTables"], suites=["tables", "m_tables", "m_stack", "large", "numbered"]),
    "C16": dict(suites=["m_stack", "tables", "isolation", "m_objects", "m_tables", "reconfig", "orders", "large", "soak", "numbered"]),
    "C18": dict(models=["ProofTunnel", "ProofTunnel.no_wrap", "MCSession", "MCTunnel", "MCTunnel.bug1", "MCTunnel.bug2", "MCTunnel.bug3", "MCTunnel.bug4", "MCTunnel.bug5"], suites=["m_tunnel", "tunnel", "m_session", "m_stack", "mangled", "soak"]),
    "C19": dict(models=["MCSession"], suites=["m_tunnel", "tunnel", "m_session", "m_stack", "soak"]),
    "C20": dict(models=["ProofTunnel", "ProofTunnel.any_ack", "MCSession", "MCTunnel"], suites=["m_tunnel", "tunnel", "sending", "m_session", "m_stack", "mangled", "soak", "proctets", "requests"]),
    "C21": dict(models=["MCSession"], suites=["core", "tunnel", "m_session", "m_stack", "m_other", "mangled", "proctets", "requests"]),
    "C22": dict(suites=["core", "m_other", "mangled", "proctets", "requests"]),
    "C24": dict(suites=["tunnelling", "longrun", "together", "m_client"]),
    "C25": dict(models=["MCSystemTunnel"], suites=["tunnelling", "longrun", "together", "m_client"]),
    "C26": dict(models=["ProofTunnel", "MCTunnelLive", "MCTunnel.bug1", "MCTunnel.bug2", "MCTunnel.bug3", "MCTunnel.bug4", "MCTunnel.bug5"], suites=["tunnelling", "longrun", "together", "gateway", "m_client", "m_gateway"]),
    "C27": dict(models=["MCSystemCut", "MCSystemLive"], suites=["usbclient", "longrun", "together", "m_lines"]),
    "C28": dict(suites=["discovery", "longrun", "together", "m_discovery"]),
    "C17": dict(models=["MCValues"], suites=["addresses"]),
    "C29": dict(models=["MCValues"], suites=["fields", "described"]),
    "C30": dict(models=["MCValues"], suites=["described", "fields"]),
    "C31": dict(models=["MCValues"], suites=["float16"]),
    "C32": dict(models=["MCValues"], suites=["float32"]),
    "C33": dict(models=["MCValues"], suites=["texts", "m_reader"]),
    "C34": dict(models=["MCDaemon", "MCDaemon.bug_slot"], suites=["m_daemon", "reports", "crowd", "longday", "faults", "stalled"]),
    "C35": dict(models=["MCDaemon", "MCSystemCut", "MCDaemonLive", "MCDaemon.bug_stale", "MCDaemon.bug_shared"], suites=["m_daemon", "lines", "faults", "crowd", "longday"]),
    "C36": dict(models=["MCDaemon", "MCDaemonStall", "MCDaemonLive", "MCDaemon.bug_sigpipe", "MCDaemon.bug_abort", "MCDaemon.bug_blocks"], suites=["m_daemon", "faults", "crowd", "longday", "reports", "stalled"]),
    "C37": dict(suites=["sending", "isolation", "everywhere", "m_other", "m_stack", "requests"]),
    "C38": dict(suites=["links", "m_link"]),
    "C39": dict(suites=["shown", "shownlarge", "described", "m_shown"]),
    "C40": dict(suites=["names", "m_names"]),
    "C41": dict(suites=["owned", "m_held", "lists"]),
    "C42": dict(suites=["asked", "m_stack", "m_objects"]),
    "C43": dict(suites=["kept", "m_held"]),
    "C44": dict(suites=["numbers", "m_number"]),
    "C45": dict(models=["MCThreads"], suites=["threads", "sweeps"]),
    "C23": dict(suites=["m_stack", "isolation", "tunnel", "tables", "soak"]),
}

for _m, _cfg, _law, _name, _by, _ids in BROKEN:
    for _i in _ids:
        CHECKS[_i]["models"] = CHECKS[_i].get("models", []) + ["%s.%s.%s" % (_m, _law, _by)]

COMMON = [
    "TLC evaluates the specification correctly",
    "the recorder of harness/ writes down what the public interface did",
]


def assumptions(pid):
    return COMMON + CHECKS[pid].get("assumptions", [])


def note(pid):
    c = CHECKS[pid]
    models = list(dict.fromkeys([m for m in c.get("models", []) if "law" not in MODELS[m]] + [SUITES[s]["graph"] for s in c["suites"] if "graph" in SUITES[s]]))
    broken = sum("law" in MODELS[m] for m in c.get("models", []))
    return ("Decided by TLC: %severy recorded call of the suites %s is judged against the specification. It shows the property on the "
            "enumerated, random and model generated histories of the run, not on all inputs. Trusted: TLC, the specification's reading of "
            "the property, the recorder. %s" % (
                ("the models %s are checked within their bounds%s; " % (", ".join(models), " and the thorough tier sees %d broken specifications violate their laws" % broken if broken else "")) if models else "",
                ", ".join(c["suites"]), " ".join(c.get("assumptions", [])))).strip()
