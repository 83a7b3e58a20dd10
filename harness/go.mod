module verif/harness

go 1.26.0

require (
	github.com/bwesterb/go-ristretto v1.1.0
	github.com/dusk-network/bn256 v0.5.1-lattices
	github.com/dusk-network/dusk-crypto v0.0.0
	pgregory.net/rapid v1.3.0
)

require (
	github.com/OneOfOne/xxhash v1.2.5 // indirect
	github.com/pkg/errors v0.8.1 // indirect
	golang.org/x/crypto v0.0.0-20200128174031-69ecbb4d6d5d // indirect
	golang.org/x/sys v0.0.0-20200124204421-9fbb57f87de9 // indirect
)

replace github.com/dusk-network/dusk-crypto => /repo
