#!/bin/sh
# Compiles the library under simulation and its driver with a callback on every control flow edge
# (the seam through which the scheduler preempts and counts steps) and every comparison (which the
# steered search goes by); everything else unchanged.
rustc="$1"
shift
case " $* " in
*" --crate-name libmbus "* | *" --crate-name mbdrive "*)
	exec "$rustc" "$@" -Cpasses=sancov-module \
		-Cllvm-args=-sanitizer-coverage-level=3 \
		-Cllvm-args=-sanitizer-coverage-trace-pc-guard \
		-Cllvm-args=-sanitizer-coverage-trace-compares \
		-Cllvm-args=-max-loads-per-memcmp=0
	;;
*" --crate-name mbsim "*)
	exec "$rustc" "$@" -Clink-arg=-Wl,--wrap=bcmp -Clink-arg=-Wl,--wrap=memcmp
	;;
esac
exec "$rustc" "$@"
