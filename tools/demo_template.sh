#!/bin/bash
# Builds demo.cc against the library in /repo/_build and runs it.
here=$(cd "$(dirname "$0")" && pwd)
tmp=$(mktemp -d /tmp/demo.XXXXXX)
cleanup() { rm -rf "$tmp"; }
trap cleanup EXIT
g++ -std=gnu++17 -O1 -mavx -w -DNDEBUG -DEIGEN_MAX_ALIGN_BYTES=64 \
  -I"$here" -I/repo -I/repo/_build/gen -I/opt/reverb-deps/overlay \
  -I/opt/reverb-deps/tf/include -I/opt/reverb-deps/tf/include/external/snappy \
  "$here/demo.cc" -o "$tmp/demo" \
  -L/opt/reverb-deps/tf -L/opt/reverb-deps/lib \
  -Wl,-rpath,/opt/reverb-deps/tf:/opt/reverb-deps/lib:/repo/_build \
  /repo/_build/libreverb_testing.a /repo/_build/libreverb.so \
  -lgtest -lgmock -ltensorflow_framework -lgrpc++ -lgrpc -lgpr \
  -labsl_random_lts -labsl_random_seed_sequences \
  -labsl_random_internal_pool_urbg -labsl_random_internal_randen \
  -labsl_random_internal_randen_hwaes -labsl_random_internal_randen_hwaes_impl \
  -labsl_random_internal_randen_slow -labsl_random_internal_seed_material \
  -labsl_random_seed_gen_exception \
  -lpthread -ldl -lrt -lm > "$tmp/build.log" 2>&1 || { tail -20 "$tmp/build.log"; exit 3; }
cd "$tmp"
timeout -k 5 ${DEMO_T:-150} ./demo "$tmp"
rc=$?
echo "demo exit status $rc"
exit $rc
