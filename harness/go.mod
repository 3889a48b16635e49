module svbverif

go 1.21

require (
	github.com/theMPatel/streamvbyte-simdgo v0.0.0
	golang.org/x/sys v0.0.0-20210510120138-977fb7262007
)

require (
	github.com/mmcloughlin/avo v0.2.0 // indirect
	github.com/pkg/errors v0.9.1 // indirect
	golang.org/x/mod v0.4.2 // indirect
	golang.org/x/tools v0.1.5 // indirect
	golang.org/x/xerrors v0.0.0-20200804184101-5ec99f83aff1 // indirect
)

replace github.com/theMPatel/streamvbyte-simdgo => /repo
