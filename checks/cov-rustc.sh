#!/bin/bash
# rustc for checks/fuzz.py: coverage feedback only from the library and the harness
case " $* " in
*" --crate-name ros_pointcloud2 "*|*" --crate-name rpcl2_harness "*)
  exec "$@" -Cpasses=sancov-module -Cllvm-args=-sanitizer-coverage-level=3 -Cllvm-args=-sanitizer-coverage-inline-8bit-counters -Cllvm-args=-sanitizer-coverage-pc-table -Cllvm-args=-sanitizer-coverage-trace-compares ;;
*) exec "$@" ;;
esac
