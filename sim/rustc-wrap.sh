#!/bin/bash
# RUSTC_WRAPPER: compiles the code under simulation (the library, rayon and the catalogue of calls) with
# memory-access callbacks, which the simulator supplies, and /repo's hook switched on.
rc="$1"; shift
case " $* " in
 *" --crate-name imgproc_rs "*|*" --crate-name imgpar "*|*" --crate-name imgplain "*|*" --crate-name opcat "*\
 |*" --crate-name rayon "*|*" --crate-name rayon_core "*|*" --crate-name crossbeam_deque "*\
 |*" --crate-name crossbeam_epoch "*|*" --crate-name crossbeam_utils "*|*" --crate-name jpeg_decoder "*)
  RUSTC_BOOTSTRAP=1 exec "$rc" "$@" -Zsanitizer=thread -Zexternal-clangrt -Cunsafe-allow-abi-mismatch=sanitizer --cfg imgproc_sim;;
 *" --crate-name simdriver "*)
  RUSTC_BOOTSTRAP=1 exec "$rc" "$@" -Cunsafe-allow-abi-mismatch=sanitizer -Crelocation-model=static -Clink-arg=-no-pie -Clink-arg=-Wl,--export-dynamic;;
 *" --crate-name build_script_build "*|*" --crate-type proc-macro "*|*" --crate-name ___ "*) ;;
 *" --crate-name "*)
  RUSTC_BOOTSTRAP=1 exec "$rc" "$@" -Cunsafe-allow-abi-mismatch=sanitizer;;
esac
exec "$rc" "$@"
