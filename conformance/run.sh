#!/bin/bash
# usage: run.sh BUILD_DIR : run the repository's own gtests built against the stubs
B=$1; export STUB_PLUGIN_XML=$(find /repo -path '*/_build' -prune -o -name '*.xml' -print | xargs grep -l '<class' | tr '\n' ':')
mkdir -p $B/rt; fail=0
ls $B | grep ^rt_ | xargs -P 6 -I{} bash -c "timeout 300 $B/{} \$( [ {} = rt_test_joint_saturation_limiter ] && echo --ros-args --params-file /repo/joint_limits/test/joint_saturation_limiter_param.yaml ) > $B/rt/{}.log 2>&1; echo \"{} rc=\$? \$(grep -oE '^\[  PASSED  \] [0-9]+|^\[  FAILED  \] [0-9]+ tests?' $B/rt/{}.log | tr '\n' ' ')\""
