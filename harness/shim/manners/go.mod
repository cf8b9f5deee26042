module github.com/braintree/manners

go 1.23
