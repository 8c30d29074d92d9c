module verif/harness

go 1.26.2

require (
	github.com/ngicks/go-fsys-helper/fsutil v0.0.0-20260816154526-c6c8f4c0c36f
	github.com/ngicks/go-fsys-helper/stream v0.2.0
	github.com/ngicks/go-fsys-helper/vroot v0.0.0-20260816141707-f9a55a9b10e0
)
