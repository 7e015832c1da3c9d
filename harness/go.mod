module verifharness

go 1.27

require github.com/perlin-network/noise v0.0.0

require (
	github.com/VictoriaMetrics/fastcache v1.5.7 // indirect
	github.com/cespare/xxhash/v2 v2.1.1 // indirect
	github.com/golang/snappy v0.0.1 // indirect
	github.com/oasislabs/ed25519 v0.0.0-20200302143042-29f6767a7c3e
	go.uber.org/atomic v1.5.1 // indirect
	go.uber.org/multierr v1.3.0 // indirect
	go.uber.org/zap v1.13.0
	golang.org/x/crypto v0.0.0-20191119213627-4f8c1d86b1ba
)

replace github.com/perlin-network/noise => /repo
