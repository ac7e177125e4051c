module vh

go 1.16

require (
	github.com/spiegel-im-spiegel/gpgpdump v0.0.0
	github.com/spiegel-im-spiegel/fetch v0.2.3
	github.com/spiegel-im-spiegel/gocli v0.10.4
	golang.org/x/crypto v0.0.0-20210220033148-5ea612d1eb83
)

replace github.com/spiegel-im-spiegel/gpgpdump => /repo
