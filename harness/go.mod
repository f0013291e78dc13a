module verif

go 1.21

require (
	github.com/spiegel-im-spiegel/errs v1.0.2
	github.com/spiegel-im-spiegel/fetch v0.2.3
	github.com/spiegel-im-spiegel/gocli v0.10.4
	github.com/spiegel-im-spiegel/gpgpdump v0.0.0
)

replace github.com/spiegel-im-spiegel/gpgpdump => /repo
