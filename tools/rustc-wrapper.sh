#!/bin/bash
# RUSTC_WRAPPER of the checks: compiles aberic/starry and the harness with the observation hooks on.
# All other crates are compiled exactly as they are without it, so their build products are shared.
rustc="$1"
shift
case " $* " in
*" --crate-name starry "* | *" --crate-name starry_verif "*) exec "$rustc" "$@" --cfg starry_verif ;;
esac
exec "$rustc" "$@"
