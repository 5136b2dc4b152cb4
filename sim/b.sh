source /opt/vp/env.sh; cd /verif/sim; cargo build --release --offline --message-format short 2>&1 | grep -E '(^src/.*(error|warning)|^error|^warning.*bmsim)' | head -${1:-40}
