module verif/mc

go 1.23

require (
	aaa.test/seam v0.0.0
	github.com/aureleoules/btc v0.0.0
)

require (
	github.com/aureleoules/ecdsa v0.0.0-20191021220258-b559fa2a83d4 // indirect
	github.com/mr-tron/base58 v1.1.2 // indirect
	golang.org/x/crypto v0.0.0-20191011191535-87dc89f01550 // indirect
)

replace github.com/aureleoules/btc => /repo

replace aaa.test/seam => ./seam
