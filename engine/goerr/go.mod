module goerr

go 1.21
