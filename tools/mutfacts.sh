#!/bin/bash
# mutfacts.sh NAME: leave the facts of one development change in /tmp/mut.jsonl
cd "$(dirname "$0")"; KEEP=1 python3 mutate.py "$1" >/dev/null; ls -la /tmp/mut.jsonl
