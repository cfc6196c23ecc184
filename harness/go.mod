module oureaverif

go 1.23

require (
	github.com/akhenakh/oureadb v0.0.0
	github.com/boltdb/bolt v1.3.1
	github.com/dgraph-io/badger v1.6.0
	github.com/golang/geo v0.0.0-20200730024412-e86565bf3f35
	github.com/golang/protobuf v1.3.2
	github.com/gorilla/mux v1.7.3
	github.com/syndtr/goleveldb v1.0.0
	github.com/twpayne/go-geom v1.3.6
	pgregory.net/rapid v1.3.0
)

require (
	github.com/AndreasBriese/bbloom v0.0.0-20190306092124-e2d15f34fcf9 // indirect
	github.com/dgryski/go-farm v0.0.0-20190423205320-6a90982ecee2 // indirect
	github.com/dustin/go-humanize v1.0.0 // indirect
	github.com/golang/snappy v0.0.0-20180518054509-2e65f85255db // indirect
	github.com/pkg/errors v0.9.1 // indirect
	github.com/steveyen/gtreap v0.0.0-20150807155958-0abe01ef9be2 // indirect
	golang.org/x/net v0.0.0-20191003171128-d98b1b443823 // indirect
	golang.org/x/sys v0.0.0-20200121082415-34d275377bf9 // indirect
)

replace github.com/akhenakh/oureadb => /repo
