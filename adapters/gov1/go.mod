module verif/adapters/gov1

go 1.23

require (
	github.com/loopholelabs/polyglot v1.0.0
	verif/harness v0.0.0
)

replace github.com/loopholelabs/polyglot => /repo

replace verif/harness => ../../harness
