#!/bin/bash
# mkseed.sh ID PROPERTY: makes /verif/seeded/ID from the uncommitted change in /repo and the demo source given on
# stdin (a main() returning 0 when the behaviour is right).  Env: LIBS (object libraries), NEEDS, BREAKS.
# The change is confirmed: builds, stable tests pass, demo 0 without and nonzero with it.
set -eu
ID=$1; PROP=$2; ROOT=/verif; D=$ROOT/seeded/$ID
mkdir -p "$D"
cat > "$D/demo.${EXT:-cpp}"
[ -s "$D/demo.${EXT:-cpp}" ] || { echo no demo; exit 1; }
git -C /repo diff > "$D/patch.diff"
[ -s "$D/patch.diff" ] || { echo no change; exit 1; }
git -C /repo checkout -- .
if [ "${EXT:-cpp}" = cpp ]; then
  tar czf "$D/kit.tar.gz" --sort=name --mtime=@0 --owner=0 --group=0 -C $ROOT CMakeLists.txt stubs tools/gen_msgs.py tools/gen_params.py
  cat > "$D/demo.sh" <<X
#!/bin/bash
# run in the repository: builds the sources named below with the stand-ins beside this file and runs demo.cpp
here=\$(cd "\$(dirname "\$0")" && pwd); repo=\$(pwd)
T=\$(mktemp -d) || exit 2
trap 'rm -rf "\$T"' EXIT
mkdir -p "\$T/kit/harness"
tar xzf "\$here/kit.tar.gz" -C "\$T/kit" || exit 2
cp "\$here/demo.cpp" "\$T/kit/harness/demo.cpp"
cat > "\$T/kit/harness/targets.cmake" <<'Y'
add_executable(demo EXCLUDE_FROM_ALL \${CMAKE_SOURCE_DIR}/harness/demo.cpp$(for l in ${LIBS:-}; do printf ' $<TARGET_OBJECTS:%s>' "$l"; done))
target_link_libraries(demo stubs \${EXT})
Y
cmake -S "\$T/kit" -B "\$T/b" -G Ninja -DREPO="\$repo" ${CMAKE_ARGS:-} > "\$T/log" 2>&1 && ninja -C "\$T/b" demo >> "\$T/log" 2>&1 || { tail -20 "\$T/log"; exit 2; }
timeout ${DEMO_TIMEOUT:-120} "\$T/b/demo"
X
else
  cat > "$D/demo.sh" <<X
#!/bin/bash
here=\$(cd "\$(dirname "\$0")" && pwd)
exec timeout 120 python3 "\$here/demo.py" "\$(pwd)"
X
fi
chmod +x "$D/demo.sh"
python3 - "$D" "$PROP" <<'X'
import json,os,sys
json.dump({"property":sys.argv[2],"needs":os.environ.get("NEEDS",""),"what_it_breaks":os.environ.get("BREAKS","")},open(sys.argv[1]+"/meta.json","w"),indent=1)
X
cd /repo
rc=0; "$D/demo.sh" > /tmp/demo0.log 2>&1 || rc=$?
[ $rc = 0 ] || { echo "demo fails on the unchanged tree ($rc)"; tail -20 /tmp/demo0.log; exit 1; }
git apply "$D/patch.diff"
rc=0; "$D/demo.sh" > /tmp/demo1.log 2>&1 || rc=$?
brc=0; bash /opt/vp/build.sh > /tmp/seedbuild.log 2>&1 || brc=$?
trc=0; bash /opt/vp/test.sh /tmp/seedtest.json > /tmp/seedtest.log 2>&1 || trc=$?
if [ "${CHECK:-1}" = 1 ]; then
  cmd=$(python3 -c "import json,sys
for c in json.load(open('/verif/MANIFEST.json'))['checks']:
  if c['property']==sys.argv[1]: print(c['quick_cmd'])" "$PROP")
  crc=0; (cd /verif && bash -c "$cmd") > /tmp/seedcheck.log 2>&1 || crc=$?
  echo "check exit $crc: $(grep -m1 VIOLATION /tmp/seedcheck.log) $(grep -m1 '^violation' /tmp/seedcheck.log | cut -c1-300)"
fi
git checkout -- .
[ $brc = 0 ] || { echo "does not build"; tail /tmp/seedbuild.log; exit 1; }
python3 - <<'X'
import json
b=json.load(open('/opt/vp/BASELINE.json')); t=json.load(open('/tmp/seedtest.json'))
def passed(d): 
    for k in ('passed','stable','tests'):
        if k in d: return set(d[k])
print("baseline missing:", sorted(passed(b)-passed(t))[:5])
X
[ $rc != 0 ] && [ $rc != 124 ] && echo "OK demo exit with patch: $rc ($(tail -1 /tmp/demo1.log | cut -c1-200))" || { echo "demo does not fail with the patch ($rc)"; exit 1; }
