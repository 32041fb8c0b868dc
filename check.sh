#!/bin/bash
# check.sh ID [quick|thorough]   decide one property (rebuilds from /repo's working tree)
# check.sh replay FILE           execute a replay file again
# check.sh selftest [ID] [RUNS]  determinism of the simulator itself
export VERIF_DIR="$(cd "$(dirname "$0")" && pwd)"
cd "$VERIF_DIR" || exit 2
./build.sh || { echo "build failed"; exit 2; }
D="$VERIF_DIR/target/cargo/release/dsim"
case "$1" in
  replay) exec "$D" replay "$2" ;;
  selftest) exec "$D" selftest ${2:+--prop "$2"} ${3:+--runs "$3"} ;;
  *) exec "$D" check --prop "$1" --tier "${2:-${VERIF_TIER:-quick}}" ;;
esac
