# fxa.sh NAME...: run ALL on /tmp/fx/NAME in parallel
for n in "$@"; do echo $n; done | xargs -P 6 -I{} sh -c 'cd ${V:-/verif}; VP_FACTS=/tmp/fx/{} python3 sa/check.py --dev ${P:-ALL} $G > /tmp/fx/{}.out 2>&1; echo "== {}"; grep -E "^(BAD|UND|  *BAD)|obligations|Traceback|Error" /tmp/fx/{}.out | cut -c1-220 | grep -v feature-set | head -12'
