#!/usr/bin/env python3
# prints the table of planted changes for DESIGN.md; detections in tools/detected.json (written by tools/detect.sh)
import json,os
here=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
d=json.load(open(here+'/tools/detected.json')) if os.path.exists(here+'/tools/detected.json') else {}
print('| change | needs | breaks | caught by |\n|---|---|---|---|')
for s in sorted(os.listdir(here+'/seeded')):
    m=json.load(open(f'{here}/seeded/{s}/meta.json'))
    print(f"| {s} | {m['needs']} | {m['what_it_breaks']} | {', '.join(d.get(s,[])) or 'none'} |")
