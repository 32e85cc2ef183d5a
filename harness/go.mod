module verif/harness

go 1.24.0

require github.com/pjbgf/sha1cd v0.0.0

require (
	github.com/klauspost/cpuid/v2 v2.4.0 // indirect
	golang.org/x/sys v0.41.0 // indirect
)

replace github.com/pjbgf/sha1cd => /repo
