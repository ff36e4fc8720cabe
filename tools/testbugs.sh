#!/bin/bash
# tools/testbugs.sh ID... : applies all the patches together in a scratch copy, runs the repository's tests there and compares with the baseline,
V="$(cd "$(dirname "$0")/.." && pwd)"
# then runs every demo alone against the unchanged tree and against its own patch.
rm -rf /tmp/scr/_all; mkdir -p /tmp/scr; git clone -q /repo /tmp/scr/_all
for id in "$@"; do git -C /tmp/scr/_all apply $V/seeded/$id/patch.diff || echo "APPLY FAILED $id"; done
for id in "$@"; do
  rm -rf /tmp/scr/_one /tmp/scr/_demo; git clone -q /repo /tmp/scr/_one; mkdir -p /tmp/scr/_demo; cp $V/seeded/$id/* /tmp/scr/_demo/; rm -f /tmp/scr/_demo/*.diff /tmp/scr/_demo/meta.json
  (cd /tmp/scr/_one && PYTHONPATH=/tmp/scr/_one bash /tmp/scr/_demo/demo.sh >/tmp/scr/demo.log 2>&1); a=$?
  git -C /tmp/scr/_one apply $V/seeded/$id/patch.diff
  (cd /tmp/scr/_one && PYTHONPATH=/tmp/scr/_one bash /tmp/scr/_demo/demo.sh >/tmp/scr/demo2.log 2>&1); b=$?
  echo "$id demo: clean=$a patched=$b"; [ $a = 0 ] || tail -5 /tmp/scr/demo.log; tail -2 /tmp/scr/demo2.log
done
[ -n "$NOTESTS" ] && exit 0
cd /tmp/scr/_all
export PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 JAX_PLATFORMS=cpu OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1 XLA_FLAGS=--xla_cpu_multi_thread_eigen=false PYTHONPATH=/tmp/scr/_all
/opt/venv/bin/python -c "import jaxopt; assert jaxopt.__file__.startswith('/tmp/scr/_all'), jaxopt.__file__" || exit 1
/opt/venv/bin/python -m pytest -q --tb=line -n 8 -p no:cacheprovider --timeout=400 --timeout-method=thread tests 2>&1 | grep -E "^FAILED|^ERROR|passed|failed"
