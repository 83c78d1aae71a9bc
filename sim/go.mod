module verif/sim

go 1.24.11

require github.com/apache/datasketches-go v0.0.0

require (
	github.com/cespare/xxhash/v2 v2.3.0 // indirect
	github.com/twmb/murmur3 v1.1.8 // indirect
	golang.org/x/exp v0.0.0-20250408133849-7e4ce0ab07d0 // indirect
)

replace github.com/apache/datasketches-go => /repo
