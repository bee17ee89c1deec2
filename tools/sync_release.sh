#!/bin/bash
# Carries an edit of the sources in /repo over to the committed amalgamations (release/, cee-json/release/):
# generates them before and after the edit and applies the difference.  Used when writing "fix:" commits.
set -eu
T=$(mktemp -d /tmp/syncrel.XXXX)
gen() { mkdir -p $2/cee-utils; (cd $1 && tar cf - --exclude=.git --exclude=_build --exclude=release .) | tar xf - -C $2; mkdir -p $2/cee-utils; make -C $2 CC=gcc -j8 release >/dev/null 2>&1; }
mkdir $T/old_src $T/old $T/new
git -C /repo archive HEAD | tar xf - -C $T/old_src
gen $T/old_src $T/old; gen /repo $T/new
for f in release/cee.c release/cee.h cee-json/release/cee-json.c cee-json/release/cee-json.h; do
  cmp -s $T/old/$f $T/new/$f || python3 /verif/tools/merge3.py $T/old/$f $T/new/$f /repo/$f
  [ "$(clang -E -P -w -I$T/new/release -I$T/new -I$T/new/cee-json $T/new/$f | tr -s "[:space:]" " " | md5sum)" = "$(clang -E -P -w -I/repo/release -I/repo -I/repo/cee-json /repo/$f | tr -s "[:space:]" " " | md5sum)" ] || echo "WARNING $f differs in more than blanks"
done
rm -rf $T
