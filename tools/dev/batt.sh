# batt.sh DIFF...: facts then rules, quiet ones not shown
export G="g_core g_kinds g_targets g_items g_defaults g_entry g_derive g_static g_alloc g_panics"
for f in "$@"; do bash /tmp/fx.sh $f; done
for f in "$@"; do basename $f .diff; done | xargs -P 7 -I{} sh -c 'cd /verif; VP_FACTS=/tmp/fx/{} python3 sa/check.py --dev ALL $G > /tmp/fx/{}.out 2>&1; echo "== {} $(grep -c "^BAD" /tmp/fx/{}.out) bad $(grep -c "^UND" /tmp/fx/{}.out) und: $(grep -hE "^(BAD|UND)" /tmp/fx/{}.out | cut -c1-130 | head -3 | tr "\n" ";") $(grep -hE "Traceback" /tmp/fx/{}.out|head -1)"'
