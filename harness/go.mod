module geoqlcheck

go 1.23

require (
	github.com/mmadfox/go-geoql-parser v0.0.0
	pgregory.net/rapid v1.3.0
)

replace github.com/mmadfox/go-geoql-parser => /repo
