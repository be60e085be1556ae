#!/usr/bin/env python3
# Writes MANIFEST.json from the table below.
import json
MON = "runtime monitoring: "
T = {
 "C01": (MON+"scripted TSSC publisher with a reference encoder, delivered batches compared online with the published sequence", 'exploration'),
 "C02": (MON+"scripted compact-format publisher, delivered measurements compared online with the published ones", 'exploration'),
 "C03": (MON+"event trace of a perturbed mixed workload checked for order, conservation and exactly-once delivery", 'exploration'),
 "C04": (MON+"fault injection (loss, duplication, delay) on a monitored compressed stream with a restart-aware reference model", 'exploration'),
 "C05": (MON+"hostile byte streams against a live subscriber, panic, hang, allocation and liveness monitors", 'exploration'),
 "C06": (MON+"offline checker on the bytes captured at the publisher from concurrent senders", 'exploration'),
 "C07": (MON+"captured command frames compared with an independent rendering of the requested settings", 'exploration'),
 "C08": (MON+"cache contents and confirmations monitored against the published cache sequence under injected damage", 'exploration'),
 "C09": (MON+"delivery and confirmation trace of buffer blocks checked against a reordering reference model", 'exploration'),
 "C10": (MON+"receiver calls and confirmations compared with the sent notice sequence", 'exploration'),
 "C11": (MON+"delivered data sets, registry records and request order compared with the published documents", 'exploration'),
 "C12": (MON+"connection-event, state, goroutine and socket monitors over histories of connects and ends with injected delays", 'exploration'),
 "C13": (MON+"fault injection on the publisher with every connection attempt observed through name lookups", 'exploration'),
 "C14": (MON+"connection, delivery, socket and port monitors on a listening subscriber against publishers, intruders and foreign peers", 'exploration'),
 "C15": ("race detector on a perturbed storm of public calls against all kinds of incoming traffic and connection losses", 'exploration'),
 "C16": (MON+"receipts checked offline against recorded assignment and send times", 'exploration'),
 "C17": ("race detector plus identity monitor on concurrent record lookups", 'exploration'),
 "C28": (MON+"numbered measurements handed to reader consumers checked for exactly-once, order and retention", 'exploration'),
 "C18": (MON+"loaded data sets monitored field by field against the model their documents were written from", 'exploration'),
 "C19": (MON+"operation histories on live tables and rows monitored step by step against a reference model", 'exploration'),
 "C20": ("race detector plus value monitor: results of repeated and concurrent evaluation compared with an independent evaluator", 'exploration'),
 "C21": (MON+"panic, hang and empty-result monitors over hostile expression texts and extreme table contents", 'exploration'),
 "C22": (MON+"selected rows and signal IDs compared with an independent evaluation of the same filter", 'exploration'),
 "C23": (MON+"generated documents, tree invariants and selections monitored against the generating model", 'exploration'),
 "C24": (MON+"operation histories on live sets monitored step by step against a reference set model", 'exploration'),
 "C25": (MON+"conversion and ordering assertions monitored on generated values", 'exploration'),
 "C26": (MON+"conversion and flag assertions monitored against calendar arithmetic", 'exploration'),
 "C27": (MON+"race detector plus start/join history monitor with injected delays", 'exploration'),
 "C29": (MON+"formatted text monitored against an independent grouping of the plain form", 'exploration'),
 "C30": (MON+"parsed references and code texts monitored against independent tables", 'exploration'),
 "C31": (MON+"trees of parsed expressions walked through the public accessors and compared with the generating syntax tree", 'exploration'),
 "C32": (MON+"compact fields written, decoded and compared with an independent rendering of the wire format", 'exploration'),
 "C33": (MON+"refused calls interleaved with live sessions; connections, frames, errors and later behaviour monitored at the publisher", 'exploration'),
 "C34": (MON+"histories of UDP subscriptions with port, socket and datagram delivery monitors", 'exploration'),
 "C35": ("race detector plus per-subscriber delivery monitors over several sessions in one process", 'exploration'),
 "C36": ("race detector plus answer monitor: concurrent readers of a fresh copy compared with a lone reader of another", 'exploration'),
 "C37": ("resource monitors over repeated activity: memory after collection, goroutines, sockets and release of closed subscribers", 'exploration'),
 "C38": (MON+"calls from every receiver with return, frame, delivery and connection report monitors", 'exploration'),
}
NOTE = {}
exec(open('manifest_more.py').read()) if __import__('os').path.exists('manifest_more.py') else None
checks = []
for i in sorted(T):
    tech, level = T[i]
    checks.append({"property": i, "quick_cmd": f"VERIF_TIER=quick ./run.sh {i}", "thorough_cmd": f"VERIF_TIER=thorough ./run.sh {i}",
        "evidence_file": f"evidence/{i}.json", "technique": tech, "level": level,
        "level_note": NOTE.get(i, "seeded list of generated cases and schedules; nothing outside the generated cases is shown")})
json.dump({"version": 1, "setup_cmd": "bash run.sh --setup",
  "hooks": {"guard": "verif", "enable": "no hooks in /repo; run.sh adds schedule points to copies of the sources through go build -overlay", "source_commits": []},
  "checks": checks, "not_applicable": []}, open("MANIFEST.json", "w"), indent=1)
