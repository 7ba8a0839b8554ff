# build_demo SRC OUT : compile a program against the crates built by build.sh
DEPS=/repo/target/debug/deps
newest() { ls -t $DEPS/lib$1-*.rlib 2>/dev/null; }
build_demo() {
  . /opt/vp/shadow/env.sh
  for p in $(newest cairo_m_compiler_parser); do
    for s in $(newest salsa); do
      if rustc --edition 2021 "$1" -o "$2" -L dependency=$DEPS --cap-lints allow \
        --extern salsa=$s --extern cairo_m_compiler_parser=$p \
        --extern cairo_m_compiler_semantic=$(newest cairo_m_compiler_semantic | head -1) \
        --extern cairo_m_compiler_diagnostics=$(newest cairo_m_compiler_diagnostics | head -1) \
        --extern cairo_m_project=$(newest cairo_m_project | head -1) \
        --extern cairo_m_formatter=$(newest cairo_m_formatter | head -1) 2>"$2.log"; then return 0; fi
    done
  done
  cat "$2.log"; return 1
}
# build_init OUT : the cargo-cairo-m command
build_init() {
  . /opt/vp/shadow/env.sh
  CARGO_PKG_VERSION=0.1.0 CARGO_PKG_NAME=x CARGO_PKG_DESCRIPTION=x CARGO_PKG_AUTHORS=x rustc --edition 2021 \
    /repo/crates/cargo-cairo-m/src/main.rs -o "$1" -L dependency=$DEPS --cap-lints allow \
    --extern clap=$(newest clap | head -1) --extern anyhow=$(newest anyhow | head -1) || return 1
}
