# Sourced: toolchain, build folder, and how to build one harness binary.
export PATH="/root/.cargo/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin:${PATH:-}"
export HOME="${HOME:-/root}"
export RUSTUP_TOOLCHAIN=1.82.0 CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never RUSTC_WRAPPER=
export RUSTFLAGS=-Awarnings RUST_BACKTRACE=0
export CARGO_TARGET_DIR="$VERIF_ROOT/.build/target"

bin_of() { # PROPERTY -> harness binary
    case "$1" in
        B0[1-4]) echo mc-bidi ;;
        C0[1-4]) echo mc-char ;;
        N0[1-3]) echo mc-normal ;;
        S0[1-4]) echo mc-segment ;;
        I01|I03|I04) echo mc-idna ;;
        G0[12]) echo mc-gen ;;
        A01) echo mc-cli ;;
        U0?|U1?|I02|C05|C06|C07|H01|V01) echo mc-ucd ;;
        *) return 1 ;;
    esac
}

all_bins() { echo mc-bidi mc-char mc-ucd mc-normal mc-segment mc-idna mc-unicgen mc-gen unic-cli mc-cli; }

build_one() { # BIN PROFILE
    # A change to the dependencies among the repo's crates makes the lock file stale: build without it then.
    (cd "$VERIF_ROOT/mc" && { cargo build --offline --locked -q --profile $2 -p "$1" ||
        { cp Cargo.lock "$VERIF_ROOT/.build/lock" && cargo build --offline -q --profile $2 -p "$1"; r=$?; cp "$VERIF_ROOT/.build/lock" Cargo.lock; [ $r = 0 ]; }; })
}

build_gen() { # PROFILE: the generator as a package of the repository, for when its dependencies have changed
    (cd "$REPO_ROOT/gen" && cargo build --offline -q --profile $1 --config 'profile.mc.inherits="release"' --config 'profile.mc.debug-assertions=true' \
        --config 'profile.mc.overflow-checks=true' --config 'profile.mcr.inherits="release"' &&
        cp "$CARGO_TARGET_DIR/$1/unic-gen" "$CARGO_TARGET_DIR/$1/mc-unicgen")
}

build_bin() { # BIN [PROFILE]
    local profile=${2:-mc}
    mkdir -p "$VERIF_ROOT/.build"
    # Never trust timestamps: when the code differs from what was built last, rebuild the repo's crates.
    local h
    h=$(cd "$REPO_ROOT" && find . \( -name target -o -name .git \) -prune -o -type f \
        \( -name '*.rs' -o -name '*.rsv' -o -name '*.rsd' -o -name '*.toml' \) -print0 | sort -z | xargs -0 sha256sum | sha256sum)
    if [ "$(cat "$VERIF_ROOT/.build/stamp-$1-$profile" 2>/dev/null)" != "$h" ]; then
        rm -f "$VERIF_ROOT/.build/stamp-$1-$profile"
        find "$CARGO_TARGET_DIR/$profile/.fingerprint" -maxdepth 1 \( -name 'unic*' -o -name 'mc-*' \) \
            -exec rm -rf {} + 2>/dev/null
    fi
    build_one "$1" "$profile" || { [ "$1" = mc-unicgen ] && build_gen "$profile"; } || return 1
    echo "$h" > "$VERIF_ROOT/.build/stamp-$1-$profile"
}
