#!/bin/bash
# detect_all.sh [BUG...]: runs each planted bug's own check against it and records the outcome in detected.txt.
cd /verif; touch detected.txt
for b in ${@:-$(ls seeded)}; do
  r=$(tools/detect.sh $b | grep -m1 "^$b"); echo "$r" | cut -c1-200
  p=$(echo "$r" | awk '{print $2}'); x=$(echo "$r" | awk '{print $3}')
  grep -v "^$b " detected.txt > /tmp/det.$$; echo "$b $p $x" >> /tmp/det.$$; sort /tmp/det.$$ > detected.txt; rm /tmp/det.$$
done
