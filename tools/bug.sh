#!/bin/bash
# bug.sh ID PROP : with a change applied in /repo's working tree and /verif/seeded/ID/demo_test.go (+ pkg file) written,
# stores the change as patch.diff, confirms it, runs the check, and undoes the change.
ID=$1; PROP=$2; D=/verif/seeded/$ID
mkdir -p $D
git -C /repo diff > /tmp/$ID.diff
if [ -s /tmp/$ID.diff ]; then cp /tmp/$ID.diff $D/patch.diff; git -C /repo checkout -q -- .; fi
[ -s $D/patch.diff ] || { echo "no patch"; exit 1; }
if [ ! -e $D/demo.sh ]; then
  PKG=$(head -1 $D/demo_test.go | sed 's,^// pkg ,,')
  cat > $D/demo.sh <<EOF
#!/bin/bash
# runs demo_test.go inside package $PKG of the repository in the current directory
here=\$(cd "\$(dirname "\$0")" && pwd)
t=\$(mktemp -d); trap 'rm -rf "\$t"' EXIT
echo "{\"Replace\":{\"\$(pwd)/$PKG/zz_demo_test.go\":\"\$here/demo_test.go\"}}" > "\$t/o.json"
go test $RACEFLAG -overlay "\$t/o.json" -vet=off -count=1 -timeout 120s -run '^TestDemo' ./$PKG
EOF
fi
cd /repo; bash $D/demo.sh >/tmp/$ID.clean 2>&1; a=$?
git -C /repo apply $D/patch.diff || exit 1
bash /opt/vp/build.sh || { echo BUILD FAILS; git -C /repo checkout -q -- .; exit 1; }
tst=$(bash /opt/vp/test.sh /tmp/$ID.json 2>&1 | tail -1)
bash $D/demo.sh >/tmp/$ID.bug 2>&1; b=$?
echo "demo clean=$a bug=$b tests: $tst"
[ $a = 0 ] || tail -5 /tmp/$ID.clean
[ $b != 0 ] || tail -5 /tmp/$ID.bug
cd /verif
for p in $PROP; do ./check.sh $p quick > /tmp/$ID.check 2>&1; echo "check $p rc=$?"; grep -E "^not discharged|VIOLATION" /tmp/$ID.check | cut -c1-200; done
git -C /repo checkout -q -- .
