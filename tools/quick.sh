#!/bin/bash
# all checks (or those named), two at a time; result lines only
cd "$(dirname "$0")/.."
ids=${@:-$(seq -f C%02g 1 40)}
for i in $ids; do [ -f pv/props/${i,,}.py ] && echo $i; done | PV_PROCS=${PV_PROCS:-4} PV_EVIDENCE=${PV_EVIDENCE:-/tmp/ev} xargs -P ${JOBS:-2} -I{} sh -c './run.sh {} > /tmp/q.{} 2>&1; echo {} rc=$? $(grep -o "wall=.*" /tmp/q.{} | tail -1) $(grep -c UNDECIDED /tmp/q.{}) $(grep "NOT EXPL\|INCONC\|VIOL" /tmp/q.{} | head -2 | cut -c1-200)'
