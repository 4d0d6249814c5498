#!/bin/bash
# Runs in /repo: builds the server's sources with test.c and runs it; exit 0 if the property holds.
D=$(cd "$(dirname "$0")" && pwd)
T=$(mktemp -d /tmp/dXXXXXX) || exit 2
trap 'rm -rf "$T"' EXIT
mkdir "$T/s"
CC="gcc -std=gnu99 -g -w -O0 -pthread @FLAGS@ -I. -I$D"
$CC -Dmain=wayuu_main -c main.c -o "$T/main.o" || exit 2
W=
for f in fopen fclose open mkdir stat access remove unlink rename recv send close listen bind accept getpeername pthread_mutex_lock pthread_mutex_unlock pthread_cond_wait; do W="$W,--wrap=$f"; done
$CC -Wl$W -o "$T/test" "$D/test.c" "$T/main.o" $(ls *.c | grep -v '^main\.c$') -lssl -lcrypto -lpthread -lm || exit 2
SCRATCH="$T/s" timeout -k 5 200 "$T/test"
