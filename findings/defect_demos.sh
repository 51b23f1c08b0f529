#!/bin/bash
# bash defect_demos.sh [REPO]   (default /repo): runs every demonstration, prints ok/DEFECT per case
repo=${1:-/repo}; here=$(cd "$(dirname "$0")" && pwd); out=$(mktemp -d)
gcc -g -DUNIT_TEST -fsanitize=address,undefined -I$repo/src -I$repo/src/common -I$repo/src/master_internall -I$repo/src/slave_internall -I$repo/test/modbus \
  $here/defect_demos.c $repo/src/*.c $repo/src/*/*.c -o $out/d || exit 2
rc=0
for c in leak timeout_tick t15_t35_before_poll master_tx_done_in_send slave_tx_done_in_send early_response resp_fc exc_fc byte_count resp_len write_echo silent_drop stale_frame_error timeout_report_fc comm_report single_write_qty slave_short_frame slave_deaf slave_old_t35 master_old_t35 slave_init_again; do
  m=$($out/d $c 2>&1); r=$?; if [ $r = 0 ]; then echo "ok      $c"; else echo "DEFECT  $c  ${m%%$'\n'*}"; rc=1; fi
done
# no 16 bit target at hand: the verifier shows the failing input (address 65535, quantity 1) with its 16 bit machine model
if cbmc --16 --function harness --drop-unused-functions -I$here/../proof/i16 -I$repo/src -I$repo/src/common -I$repo/src/slave_internall -I$repo/test/modbus -DFC=3 \
  $here/../proof/slave_16bit.c $repo/src/slave_internall/modbus_slave_PDU.c $repo/src/common/buf_rw.c $repo/src/common/modbus_PDU_common.c \
  --no-standard-checks --bounds-check --slice-formula --unwind 130 2>&1 | grep -q 'C9: .*FAILURE'; then echo "DEFECT  range_check_16bit"; rc=1; else echo "ok      range_check_16bit"; fi
rm -rf "$out"; exit $rc
