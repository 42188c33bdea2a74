#!/bin/sh
# RUSTC_WRAPPER: adds the load/store callbacks (the simulator's preemption points) to the crates whose
# interleavings the simulator explores.  $1 is rustc.
name=
prev=
for a in "$@"; do
  [ "$prev" = "--crate-name" ] && { name=$a; break; }
  prev=$a
done
case "$name" in
  fenris|fenris_paradis|fenris_nested_vec|fenris_sparse|fenris_optimize|fenris_geometry|fenris_quadrature|fenris_solid|fenris_traits|rayon|rayon_core|crossbeam_deque|crossbeam_epoch|crossbeam_utils|thread_local|davenport|parking_lot|lock_api|dst)
    exec "$@" -C passes=sancov-module -C llvm-args=-sanitizer-coverage-level=3 -C llvm-args=-sanitizer-coverage-trace-loads -C llvm-args=-sanitizer-coverage-trace-stores ;;
  *) exec "$@" ;;
esac
