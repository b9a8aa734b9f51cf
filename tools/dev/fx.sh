# fx.sh DIFF...: facts of patched scratch trees in /tmp/fx/NAME (use: VP_FACTS=/tmp/fx/NAME python3 sa/check.py --dev ALL)
d=/tmp/fx; mkdir -p $d
for f in "$@"; do
  n=$(basename $f .diff); rm -rf $d/repo $d/corpus; mkdir -p $d/repo; git -C /repo archive HEAD | tar xm -C $d/repo; cp /repo/Cargo.lock $d/repo/
  (cd $d/repo; patch -s -p1 < $f) || echo "PATCH $n"
  cp -r /verif/corpus $d/corpus; sed -i "s#/repo/#$d/repo/#" $d/corpus/Cargo.toml
  rm -rf $d/$n; python3 /verif/sa/check.py --facts $d/$n $d/corpus $d/ft > $d/$n.log 2>&1 || { echo "FACTS $n"; tail -20 $d/$n.log; }
done
