module example.com/verif

go 1.25

require (
	github.com/braintree/manners v0.0.0-00010101000000-000000000000
	github.com/gocraft/health v0.0.0
	shop v0.0.0
)

require github.com/gocraft/web v0.0.0-00010101000000-000000000000 // indirect

replace github.com/gocraft/health => /repo

replace github.com/gocraft/web => ./shim/web

replace github.com/braintree/manners => ./shim/manners

replace shop => ./dotless
