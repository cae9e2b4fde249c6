#!/bin/bash
# Builds the harness against /repo's working tree and runs the check of one property.
# usage: run.sh ID [cv run options]     run.sh replay FILE     run.sh --build
# Exit: 0 held, 1 violation (with a VIOLATION line), 2 the check itself failed.
#
# The harness has six parts (cargo features), so that a check compiles only what it needs. A
# binary is reused only if every file of /repo and of the harness has the contents it was built
# from; otherwise it is rebuilt.
here=$(cd "$(dirname "$0")" && pwd)
[ "$1" = replay ] && file=$(realpath "$2")
cd "$here/harness" || exit 2
export CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never
unset RUSTFLAGS CARGO_TARGET_DIR CARGO_BUILD_TARGET
repo=/repo

group_of() {
    case $1 in
    C10 | C11 | C12 | C15 | C17 | C18 | C24 | C27) echo misc ;;
    C19 | C20 | C23) echo groups ;;
    C16 | C25) echo codec ;;
    C21 | C22) echo cross ;;
    C26) echo life ;;
    *) echo maps ;;
    esac
}

contents() {
    (cd $repo && find . \( -path ./target -o -path ./.git \) -prune -o -type f -print0 | LC_ALL=C sort -z | xargs -0 sha256sum) || exit 2
    (find src Cargo.toml Cargo.lock -type f -print0 | LC_ALL=C sort -z | xargs -0 sha256sum) || exit 2
    rustc -V
}

build() { # GROUP -> path of the binary
    local key bin log
    mkdir -p "$here/harness/target"
    exec 9>"$here/harness/target/run.lock"
    flock 9
    key=$(contents | sha256sum | cut -c1-32)
    bin=$here/harness/target/bins/$1-$key
    if [ ! -x "$bin" ]; then
        # cargo decides by time stamps whether /repo has changed; never trust an old build of it
        rm -rf "$here"/harness/target/release/.fingerprint/certified-vars-*
        mkdir -p "$here/harness/target/bins"
        log=$(mktemp)
        if ! cargo build --release --offline --locked --no-default-features --features "$1" >"$log" 2>&1; then
            grep -A12 '^error' "$log" | head -60 >&2
            rm -f "$log"
            echo "the harness does not build against $repo" >&2
            exit 2
        fi
        rm -f "$log"
        rm -rf "$here/harness/target/bins/$1"-*
        if [ "$1" = life ]; then
            # the programs of C26 are compiled against the library as it was just built
            mkdir -p "$bin.d/lib"
            cp "$(ls -t target/release/deps/libcertified_vars-*.rlib | head -1)" "$bin.d/lib/libcertified_vars.rlib" || exit 2
        fi
        cp target/release/cv "$bin.tmp.$$" && mv "$bin.tmp.$$" "$bin" || exit 2
    fi
    echo "$bin"
}

case $1 in
--build)
    for g in maps misc codec groups cross life; do
        build $g >/dev/null || exit 2
    done
    exit 0
    ;;
--bin)
    # prints the path of the binary of a part
    build "$2"
    exit
    ;;
replay)
    id=$(sed -n 's/.*"property": *"\(C[0-9]*\)".*/\1/p' "$file" | tail -1)
    bin=$(build "$(group_of "$id")") || exit 2
    exec "$bin" replay "$file"
    ;;
esac
id=$1
shift
bin=$(build "$(group_of "$id")") || exit 2
exec "$bin" run "$id" "$@"
