module verifsim

go 1.25

require (
	github.com/direct-connect/go-dc v0.0.0
	golang.org/x/text v0.3.2
)

require github.com/cxmcc/tiger v0.0.0-20170524142333-bde35e2713d7

replace github.com/direct-connect/go-dc => /repo
