module verif/sim

go 1.24

require (
	github.com/samuel/go-dsp v0.0.0
	github.com/samuel/go-rtlsdr v0.0.0
)

replace (
	github.com/samuel/go-dsp => /repo
	github.com/samuel/go-rtlsdr => ../rtlstub
)
