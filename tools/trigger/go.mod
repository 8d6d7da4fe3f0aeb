module trigger

go 1.21
