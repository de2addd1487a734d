#!/bin/bash
# seedtry.sh ID...: confirm planted changes in a scratch copy of /repo: builds, passes the tests, demo discriminates.
SR=/tmp/sr
export PATH="/root/.cargo/bin:$PATH" RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never
export CARGO_INCREMENTAL=1 CARGO_PROFILE_DEV_DEBUG=line-tables-only CARGO_PROFILE_DEV_OPT_LEVEL=1 CARGO_TARGET_DIR=$SR/target
if [ ! -d $SR ]; then cp -a /repo $SR; fi
cd $SR && git checkout -q -- . && git fetch -q /repo HEAD && git reset -q --hard FETCH_HEAD
for id in "$@"; do
  s=/verif/seeded/$id
  git checkout -q -- .
  ( env -u CARGO_TARGET_DIR bash $s/demo.sh >/tmp/demo0.log 2>&1 ); r0=$?
  git apply $s/patch.diff || { echo "$id: APPLY FAILED"; continue; }
  ( env -u CARGO_TARGET_DIR bash $s/demo.sh >/tmp/demo1.log 2>&1 ); r1=$?
  t=skipped
  if [ $r0 = 0 ] && [ $r1 != 0 ]; then
    SLOW_TESTS=1 cargo nextest run --workspace --offline --tool-config-file vp:/opt/vp/nextest.toml --profile vp >/tmp/st.log 2>&1
    t="rc=$? $(grep -E '^ +Summary' /tmp/st.log) $(grep -E '^ +(FAIL|SIGABRT|TIMEOUT)' /tmp/st.log | sort -u | head -5 | tr '\n' ';')"
  fi
  git checkout -q -- .
  echo "$id: demo clean=$r0 patched=$r1 tests: $t"
  [ $r0 = 0 ] || tail -5 /tmp/demo0.log
done
