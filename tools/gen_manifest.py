#!/usr/bin/env python3
"""Write MANIFEST.json. Properties without a check yet are listed in PENDING."""
import json, pathlib
root = pathlib.Path(__file__).resolve().parent.parent
T = {
 "C01": "model-based runtime monitoring: every answer and every object after every step of random histories is compared with a sequential reference model",
 "C02": "model-based runtime monitoring of metadata over histories of overwrites, copies, multipart uploads and deletions",
 "C03": "runtime monitoring of range reads against the slice of the stored bytes",
 "C04": "model-based runtime monitoring of listings over random histories",
 "C05": "model-based runtime monitoring of single and bulk deletes over random histories",
 "C06": "model-based runtime monitoring of bucket existence and isolation, and linearizability checking of concurrent histories of buckets that come and go, under random delays of file-system calls",
 "C07": "model-based runtime monitoring of copies over random histories",
 "C14": "runtime monitoring with a recording storage: mutation of validly signed requests, judged by which storage calls happen",
 "C15": "runtime monitoring with a recording storage and an independent implementation of Signature Version 4 as the signer",
 "C17": "runtime monitoring of presigned URLs over a grid of ages and validities, and of live URLs across their expiry",
 "C19": "runtime monitoring with a recording storage against an independent dispatch table over methods, path levels, sub-resources, parameters and headers",
 "C20": "runtime monitoring with a storage returning generated results: answers are parsed back and compared with what was returned",
 "C16": "runtime monitoring of aws-chunked uploads: every split, every truncation, altered bytes and chunks, judged by what is delivered to the storage",
 "C18": "runtime monitoring of POST forms: adversarial files, every split, truncations and defects, judged by what is delivered to the storage",
 "C25": "runtime monitoring of POST forms against an independent evaluator of their policies",
 "C23": "runtime monitoring against an independent implementation of the naming rules",
 "C24": "runtime monitoring of the real program: started over a matrix of directories, addresses and keys, killed and restarted, and driven over many concurrent and pipelined connections",
 "C09": "runtime monitoring of every file-system call of the real program, run as an unprivileged user among canary files: each path touched is compared with what the request names, and everything else with snapshots",
 "C10": "runtime monitoring of concurrent histories on the real program under random delays of its file-system calls, checked for linearizability offline; reads, uploads and listings in progress while objects change",
 "C21": "runtime monitoring under hostile requests and raw bytes in a child process with a panic hook; canary requests compared before and after",
 "C11": "runtime monitoring of the whole directory tree: refused requests of every kind, reads, uploads broken off at every chosen byte and requests abandoned at every wait, judged by comparing snapshots",
 "C12": "crash injection at every file-changing call of every mutating request (and of concurrent workloads), with the real program killed inside the call; restart and judgement of the whole store against the states before and after",
 "C13": "fault injection: every file-system call of every kind of request fails (several error codes, once or persistently, torn or short), the answer and the store afterwards judged against the states before and after",
 "C22": "runtime monitoring of every allocation, descriptor, thread and temporary file of the real program: large transfers with fast and slow sides, repeated rounds of completed, refused and abandoned requests; bodies held back by a storage or a client that waits",
 "C26": "runtime monitoring of histories spread over time: every time in an answer is compared with the interval, on the monitor's clock, in which the object or bucket came into being, and with what was said before",
 "C27": "runtime monitoring of the real program at all log levels: every answer and all output are searched for pieces of the secrets in many encodings, under valid, forged, hostile requests and injected file-system failures",
 "C08": "model-based runtime monitoring of multipart uploads, including malformed completions",
}
LEVEL = {"C12": "fault_enumeration", "C13": "fault_enumeration"}
NOTE = {
 "C12": "for each scenario every file-changing system call is a crash point (exhaustive per scenario, torn writes and second crashes sampled); scenarios are random; process death only, no loss of what the kernel has accepted",
 "C13": "for each scenario every file-system call up to the 40th is failed, later ones sampled; errno, persistence and torn writes sampled; scenarios are random",
}
exec((root / "tools" / "manifest_more.py").read_text()) if (root / "tools" / "manifest_more.py").exists() else None
props = [json.loads(l)["id"] for l in (root / "properties.jsonl").read_text().splitlines() if l.strip()]
m = {
 "version": 1,
 "setup_cmd": "./setup.sh",
 "checks": [
  {"property": p, "quick_cmd": f"./check.sh {p} quick", "thorough_cmd": f"./check.sh {p} thorough",
   "technique": T[p], "level": LEVEL.get(p, "exploration"),
   "level_note": NOTE.get(p, "random and enumerated executions of the real code, judged by an independent oracle; no completeness claim beyond what the evidence counts")}
  for p in props if p in T],
 "not_applicable": [{"property": p, "reason": "the check is being built"} for p in props if p not in T],
 "notes": "All checks are black-box: no hooks in /repo. See DESIGN.md.",
}
(root / "MANIFEST.json").write_text(json.dumps(m, indent=1) + "\n")
