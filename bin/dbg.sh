#!/bin/bash
# dbg.sh <driver> args...: runs a driver under gdb and prints the backtrace of a crash (own process only)
d=$1; shift; gdb -q -batch -ex run -ex bt --args /verif/build/${V:-plain}/d/$d "$@" 2>&1 | grep -v '^\[' | tail -${L:-25}
