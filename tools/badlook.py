"""python3 tools/badlook.py C06 N : print short form of first N bad events (debug aid)"""
import sys, json, glob
for f in sorted(glob.glob('/verif/replays/%s_*.json' % sys.argv[1]))[:10]:
    d = json.load(open(f))
    print(d['clauses'], d['events_with_these_clauses'])
    print(json.dumps(d['event'])[:int(sys.argv[2]) if len(sys.argv) > 2 else 1500])
