#!/bin/bash
# tools/mk_seed.sh ID: after editing the scratch copy /tmp/mk (made by 'mk_seed.sh --new'), stores the diff as seeded/ID/patch.diff
if [ "$1" = --new ]; then
  rm -rf /tmp/mk; mkdir -p /tmp/mk; cd /repo && git archive HEAD | tar x -C /tmp/mk; cd /tmp/mk && git init -q . && git add -A && git -c user.email=a@b -c user.name=x commit -qm base; exit 0
fi
mkdir -p /verif/seeded/$1; cd /tmp/mk && git diff >/verif/seeded/$1/patch.diff; git checkout -q -- .; wc -l /verif/seeded/$1/patch.diff
