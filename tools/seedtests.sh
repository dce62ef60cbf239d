#!/bin/bash
# seedtests.sh ID...: run the test suite of /repo with the given planted bugs applied together, in a scratch copy
rm -rf /tmp/w/st; cp -a /repo /tmp/w/st; cd /tmp/w/st || exit 1
for i in "$@"; do git apply /verif/seeded/$i/patch.diff || exit 1; done
export MPLBACKEND=Agg PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1 MALLOC_MMAP_THRESHOLD_=4294967296 MALLOC_TRIM_THRESHOLD_=8589934592 MALLOC_TOP_PAD_=67108864
/opt/venv/bin/python -c 'import falco; print(falco.__file__)'
/opt/venv/bin/python -m pytest -q -p no:cacheprovider -n 8 --dist worksteal --timeout=600 --ignore=tests/functional/test_wfsc_flc.py tests 2>&1 | tail -15
rm -rf /tmp/w/st
