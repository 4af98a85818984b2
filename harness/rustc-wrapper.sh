#!/bin/bash
# cargo RUSTC_WRAPPER: compiles the program under test (and the two pinocchio helper crates that
# switch on it) with the on-chain code paths enabled, i.e. target_os="solana" in addition to the host.
rustc="$1"; shift
name=""; prev=""
for a in "$@"; do [ "$prev" = "--crate-name" ] && name="$a"; prev="$a"; done
case "$name" in
  xorca_staking_program|pinocchio_pubkey|pinocchio_log)
    exec "$rustc" "$@" --cfg 'target_os="solana"' -A explicit_builtin_cfgs_in_flags ;;
  *) exec "$rustc" "$@" ;;
esac
