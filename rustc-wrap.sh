#!/bin/bash
# Compiles the code under test, and the generic code of it that ends up in the simulator, with a call at every branch
# (a point where the simulator may let another thread go on).
rustc=$1
shift
prev=
level=
for a in "$@"; do
    if [ "$prev" = --crate-name ]; then
        case $a in
        saber)
            # its inner loops have too many branches: functions only
            level=1
            ;;
        sim | latke | pqcrypto_dilithium | pqcrypto_internals | pqcrypto_traits)
            level=3
            ;;
        esac
    fi
    prev=$a
done
if [ -n "$level" ]; then
    set -- "$@" -Cpasses=sancov-module -Cllvm-args=-sanitizer-coverage-level=$level -Cllvm-args=-sanitizer-coverage-trace-pc
fi
exec "$rustc" "$@"
