module verif.local/gofercheck

go 1.26.0

require (
	github.com/anishathalye/porcupine v1.3.1
	github.com/donnie4w/gofer v0.0.0
	github.com/apache/thrift v0.22.0
	github.com/chai2010/webp v1.4.0
	github.com/disintegration/imaging v1.6.2
	github.com/donnie4w/gothrift v0.0.3
	github.com/donnie4w/ico v0.0.1
	github.com/edsrzf/mmap-go v1.2.0
	github.com/golang/groupcache v0.0.0-20241129210726-2c02b8208cf8
	github.com/golang/snappy v1.0.0
	github.com/google/btree v1.1.3
	github.com/klauspost/compress v1.18.0
	golang.org/x/crypto v0.40.0
	golang.org/x/exp v0.0.0-20250718183923-645b1fa84792
	golang.org/x/image v0.30.0
	golang.org/x/net v0.42.0
	golang.org/x/sys v0.35.0
	google.golang.org/protobuf v1.36.7
	pgregory.net/rapid v1.3.0
)

replace github.com/donnie4w/gofer => /repo

replace github.com/donnie4w/ico => ./stubs/ico
