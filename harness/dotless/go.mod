module shop

go 1.25
