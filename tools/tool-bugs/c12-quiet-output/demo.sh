#!/bin/bash
# Runs the inspection tool on prepared captures
repo=$PWD
t=$(mktemp -d) || exit 3
trap 'rm -rf "$t"' EXIT
CARGO_TARGET_DIR="$t/target" cargo build --offline -q --bin test_parse || exit 4
tool=$t/target/debug/test_parse
cd "$t" || exit 3
printf 'E5\n' > ack.hex
"$tool" ack.hex > out || exit 5
grep -q Ack out || exit 5
cat > full.c <<'EOF'
#define _GNU_SOURCE
#include <errno.h>
#include <sys/syscall.h>
#include <unistd.h>
/* room for the first line only */
static int n;
ssize_t write(int fd, const void *b, size_t k)
{
	if (fd == 1 && n++ > 0) {
		errno = ENOSPC;
		return -1;
	}
	return syscall(SYS_write, fd, b, k);
}
EOF
gcc -shared -fPIC -O1 -o full.so full.c || exit 3
if LD_PRELOAD="$t/full.so" "$tool" ack.hex > out 2>&1; then echo "ended successfully: $(cat out)"; exit 1; fi
