#!/usr/bin/env python3
"""Appends the fix: commits of /repo that known-findings.jsonl does not list yet (by hash)."""
import json, os, subprocess
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
MAP = {  # commit -> property
 "3046131":"C09","4e65619":"C29","b6a6ff7":"C28","6ca62ac":"C07","ea7d18e":"C08","5f256d7":"C28","644126a":"C30",
 "9f3feb2":"C13","dd0dff3":"C13","8fde603":"C03","02121e6":"C27","e2a2a93":"C11","05c3d87":"C10","5b62473":"C10",
 "c04054c":"C06","fa82a31":"C12","f68bbe5":"C01","75ac9af":"C14","08cad65":"C14","4e6540c":"C14","5c24423":"C18",
 "08e8673":"C16","8e875e9":"C16","d48b7ae":"C19","0c42062":"C20","9082c88":"C20","ee74411":"C22","05ee21f":"C22",
 "907521e":"C22","f9bfa55":"C23","86bb5c8":"C23","a34b620":"C21","2229b4d":"C21","fe9c7c7":"C21","29ff814":"C22",
 "69c11da":"C21","30d9b53":"C26","ba59cb8":"C26","66a9044":"C25","1ca53c3":"C25","85877ef":"C25","180ce5b":"C25",
 "222118b":"C25","8b0000a":"C22","d21339e":"C11","5c67bf6":"C17","a3e0cda":"C27","3bb5b29":"C02","4294a29":"C11"}
path = os.path.join(HERE, "known-findings.jsonl")
have = open(path).read() if os.path.exists(path) else ""
log = subprocess.check_output(["git", "-C", "/repo", "log", "--reverse", "--format=%h %s"], text=True).splitlines()
with open(path, "a") as f:
    for l in log:
        h, s = l.split(" ", 1)
        if s.startswith("fix:") and h not in have:
            p = MAP.get(h, "?")
            f.write(json.dumps({"status": "fixed", "property": p, "commit": h,
                                "what": "fixed: property=%s %s %s" % (p, h, s[5:])}) + "\n")
