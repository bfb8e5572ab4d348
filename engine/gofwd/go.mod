module gofwd

go 1.21
