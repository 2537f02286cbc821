#!/bin/sh
# Which builds of the workload a check runs.
case "$1" in
  C25) echo "checked asan tsan" ;;
  *) echo "checked release" ;;
esac
