module verif/harness

go 1.18

require (
	github.com/mitch000001/go-hbci v0.0.0
	golang.org/x/text v0.14.0
)

require (
	github.com/pkg/errors v0.9.1 // indirect
	github.com/wildducktheories/go-csv v0.0.0-20210709120223-87450005fe47 // indirect
	golang.org/x/crypto v0.17.0 // indirect
	gopkg.in/yaml.v3 v3.0.0 // indirect
)

replace github.com/mitch000001/go-hbci => /repo
