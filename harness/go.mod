module verif/harness

go 1.24

godebug default=go1.20

require github.com/hound-search/hound v0.0.0

require (
	github.com/blang/semver/v4 v4.0.0 // indirect
	golang.org/x/mod v0.10.0 // indirect
)

replace github.com/hound-search/hound => /repo
