# Sourced by run.sh with $ID, $V, $W set: builds what the check of $ID needs.
vbuild() {
	(cd "$V/harness" && go build -o "$W/vh" .) || return 1
	case $ID in
	C01|C17|C08|C09|C11|C18|C19|C21|C22|C23|C24|C25|C27|C30|C32|C14|C28|C33|C34|C35|C36|C37|C38|C40|C41|C43|C44)
		(cd /repo && go build -o "$W/bin/" ./cmd/cgrep ./cmd/cindex ./cmd/csearch) || return 1 ;;
	esac
	case $ID in
	C19|C30|C33|C38|C43)
		(cd /repo && go build -o "$W/bin/" ./cmd/csweb) || return 1 ;;
	C20)
		(cd /repo && go build -o "$W/bin/" ./cmd/cindex ./cmd/csearch && CGO_ENABLED=1 go build -race -o "$W/bin/" ./cmd/csweb) || return 1 ;;
	C39)
		mkdir "$W/bin" "$W/bin64"
		(cd /repo && go build -o "$W/bin64/" ./cmd/cindex ./cmd/csearch ./cmd/cgrep) || return 1
		(cd /repo && GOARCH=386 go build -o "$W/bin/" ./cmd/cindex ./cmd/csearch ./cmd/cgrep) 2>"$W/386.log" || {
			mkdir -p "$V/evidence"
			{ echo "builds for this processor, but not with GOARCH=386:"; cat "$W/386.log"; } >"$V/evidence/replay-C39-build.txt"
			cat "$V/evidence/replay-C39-build.txt"
			echo "VIOLATION property=C39 replay=$V/evidence/replay-C39-build.txt"
			exit 1
		}
		(cd "$V/harness" && GOARCH=386 go build -o "$W/vh" .) || return 1 ;;
	C28)
		(cd "$V/harness" && CGO_ENABLED=1 go build -race -o "$W/vh" .) || return 1 ;;
	esac
	case $ID in
	C12|C13|C24|C27|C34|C36|C41)
		# cindex/csearch on a standard library whose system calls can be
		# traced and made to fail or to kill the process (see faultlib).
		(cd "$V/harness" && go run ./faultlib "$W/overlay" &&
		 cd /repo && go build -overlay "$W/overlay/overlay.json" -o "$W/fault/" ./cmd/cindex ./cmd/csearch ./cmd/cgrep) || return 1
		(cd /repo && go build -o "$W/bin/" ./cmd/cindex ./cmd/csearch) || return 1 ;;
	esac
}
vbuild
