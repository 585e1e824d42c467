# checks whose harness is built with the race detector
RACE_IDS="C25"

# ui/bindata.go embeds ui/.build/ui (ignored by git); keep it in step with ui/assets
refresh_ui() {
  if ! diff -rq /repo/ui/assets /repo/ui/.build/ui >/dev/null 2>&1; then
    rm -rf /repo/ui/.build/ui && mkdir -p /repo/ui/.build/ui && cp -r /repo/ui/assets/* /repo/ui/.build/ui/ || exit 3
  fi
}

# checks whose build has delays injected before the statements of /repo (instr/)
SCHED_IDS="C08 C09 C12 C14 C15 C17 C25 C26 C27"

# make_overlay DIR: write DIR/overlay.json
make_overlay() {
  mkdir -p "$1" && (cd instr && go run . /repo "$1" "$PWD/sched/sched.go")
}
