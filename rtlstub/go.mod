module github.com/samuel/go-rtlsdr

go 1.24
