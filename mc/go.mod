module verif/mc

go 1.19

require github.com/shellyln/go-open-soql-parser v0.0.0

replace github.com/shellyln/go-open-soql-parser => /repo

require (
	github.com/shellyln/go-nameutil v0.0.2 // indirect
	github.com/shellyln/takenoco v0.0.13 // indirect
)
