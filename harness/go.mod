module verifharness

go 1.23

require github.com/tendermint/go-amino v0.0.0

require (
	github.com/davecgh/go-spew v1.1.1 // indirect
	github.com/pkg/errors v0.9.1 // indirect
)

replace github.com/tendermint/go-amino => /repo
