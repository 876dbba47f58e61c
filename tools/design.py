#!/usr/bin/env python3
"""writes DESIGN.md from DESIGN.in.md, the plan, the seeded bugs and the known findings"""
import json
import os
import re
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(HERE, "harness"))
import plan  # noqa: E402

# what is compared with what, and over which domain, beyond the models' own bounds
ORACLE = {
    "C01": "messages of each decoded group telegram = KnxStack's fan-out over the recorded tables; 1-60 objects sharing 1-40 addresses, devices of 250-420 addresses, numbers up to 2^31-1, whole 16 bit destination range in steps, after random and model-walk histories of table operations; every value of every octet of group frames",
    "C02": "destination octets of encode_msg = first address of the object in association order; every order of 3 associations and disassociations, addresses swept over both octets",
    "C03": "octets of the sender and value at the receiver; all 256 values of one-octet types, both octets of two-octet types swept, corners and random four-octet values, each datapoint type, three media",
    "C04": "message types; 256 message codes, all transport controls x 1024 application services, group and individual",
    "C05": "status; 256 values of each control field x six services x fan-out",
    "C06": "whole frames octet for octet; each kind of message, property data 0..225 octets, all channels and counters in steps; every value of every field sent",
    "C07": "messages of one link frame in many envelopes; additional information 0..170, padding, all ignored bits",
    "C08": "nothing delivered, tables and session unchanged, the next good frame decoded; every value of each header octet, every truncation",
    "C09": "messages of feature reports; every service, feature, value octet; every value of every octet",
    "C10": "property octets; every object index, property id, count, start in steps, data 0..40, readdressed stacks",
    "C11": "messages and their fields; sources/destinations equal and unequal to the individual address, group addresses numerically equal to it; every value of every octet of property telegrams",
    "C12": "public lookups after each call of random histories and of walks covering every transition of MCTables",
    "C13": "as C12, for associations",
    "C14": "lookups and traffic before and after operations which must fail",
    "C15": "the number offered after each table operation",
    "C16": "full rounds of traffic in both directions between changes; walks over two worlds (MCStack)",
    "C17": "all 65536 addresses in every notation (thorough; in steps quick), parts assigned, text and hashing",
    "C18": "deliveries, counters; random sessions, all (expected, received) differences, gateway/client walks of MCTunnel",
    "C19": "acknowledgement octets; as C18",
    "C20": "counter and messages after acknowledgements of every status and counter",
    "C21": "channel after every core service and status, interleaved with traffic",
    "C22": "octets and fields of the core services, every status, endpoint octets swept, truncated ones refused; every value of every octet of responses and of every field of requests",
    "C23": "each call repeated on a fresh stack brought to the same tables and session; two interleaved stacks",
    "C24": "connected flag and datagrams in virtual time; random good and bad gateways, walks covering MCClient",
    "C25": "datagrams in virtual time; as C24; equal messages and the same message object several times",
    "C26": "acknowledgements; lossy, duplicating, reordering gateways past the counter's wrap, walks covering MCTunnel",
    "C27": "stream octets written and frames decoded; random fragmentation, walks covering MCLines",
    "C28": "datagrams and decodes of both services; random answers, walks covering MCDiscovery",
    "C29": "every field of every type, prior value all/stratified, orders of assignments, undefined names",
    "C30": "descriptions and rebuilt datapoints, all one- and two-octet raw values (in steps quick)",
    "C31": "all 65536 raw values of each class decoded and each representable value encoded back (both tiers), hundredths around every boundary, in exact integer arithmetic",
    "C32": "stratified raw values and doubles needing rounding, exact",
    "C33": "every octet at every position, random messages, every reading of messages of MCReader (numbers and blocks, taken and too short)",
    "C34": "lines each client got; up to 64 clients, slots reused, several events ready at once; equal reports, bursts longer than a read",
    "C35": "reports the device got; random splitting of several clients' streams, every kind of invalid line; bursts over several reads",
    "C36": "survival, closes, other clients' traffic; every fault at each step of walks of MCDaemonRun and random schedules",
    "C37": "octets of every encode call (Encode of KnxCodec); MCCodec's requests in every configuration and medium, random histories with address changes not followed by any lookup",
    "C38": "KnxLink: LinkView and PutField, laws checked by MCLink, whose walks are replayed; every value of every octet, every kind on every transport octet",
    "C39": "KnxText: the lines of every text; after every step of random histories and of walks covering MCTables' states; texts of values against KnxValues",
    "C40": "the events of two devices with the same history compared by TLC, one with changing names; random histories and walks of MCTables",
    "C42": "SessionAnswers of KnxJudge over the tables of KnxTables; random histories, walks of MCStack and MCTables",
    "C43": "walks of MCHeld (everything a program holds, made and changed in every order) and random histories: snapshots before and after the program changed its lists, compared by TLC; the spec's tables for both devices",
    "C45": "MCThreads (the steps of calls at the same time, exhaustively); the real calls interleaved line by line by a seeded scheduler (suite `threads`), judged by the tables' and codec's operators and against each call made alone",
    "C44": "NumParts, NumWith and HexText of KnxValues, laws checked by MCNumber, whose walks are replayed; every octet at every place",
    "C41": "walks of MCHeld and random histories: values read again after every step, at the end of the history and after others were changed, compared by TLC; the lists returned for telegrams of every kind, most of them giving nothing, spoiled by their receiver and the telegrams decoded again",
}


def esc(s):
    return s.replace("|", "\\|").replace("\n", " ")


def main():
    props = [json.loads(l) for l in open(os.path.join(HERE, "properties.jsonl"))]
    rows = ["| | decided by models | and suites | judged, and over what |", "|---|---|---|---|"]
    for p in props:
        c = plan.CHECKS.get(p["id"])
        if not c:
            continue
        graphs = {plan.SUITES[s]["graph"] for s in c["suites"] if "graph" in plan.SUITES[s]}
        models = sorted({(plan.MODELS[m]["module"] + (" (broken variants)" if plan.MODELS[m].get("expect") and "law" not in plan.MODELS[m] else "")) for m in list(graphs) + c.get("models", [])})
        rows.append("| %s %s | %s | %s | %s |" % (p["id"], esc(p["title"]), ", ".join(models), ", ".join(c["suites"]), esc(ORACLE[p["id"]])))
    seeds = ["| bug | property | what it breaks; needs | caught by |", "|---|---|---|---|"]
    results = {}
    rp = os.path.join(HERE, "tools", "seeded_results.json")
    if os.path.exists(rp):
        results = json.load(open(rp))
    for i in sorted(os.listdir(os.path.join(HERE, "seeded"))):
        m = json.load(open(os.path.join(HERE, "seeded", i, "meta.json")))
        seeds.append("| %s | %s | %s; needs: %s | %s |" % (i, m["property"], esc(m["what_it_breaks"]), esc(m["needs"]), results.get(i, "")))
    fixed = json.load(open(os.path.join(HERE, "known_findings.json")))["fixed"]
    text = open(os.path.join(HERE, "tools", "DESIGN.in.md")).read()
    text = text.replace("PROPERTYTABLE", "\n".join(rows)).replace("SEEDTABLE", "\n".join(seeds))
    text = text.replace("FIXCOUNT", str(len({f.split()[2] for f in fixed})) + " commits,").replace("entries", "%d entries" % len(fixed), 1)
    open(os.path.join(HERE, "DESIGN.md"), "w").write(text)


main()
