. /opt/vp/env.sh
export CARGO_TARGET_DIR=/verif/target
