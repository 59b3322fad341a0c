module aaa.vmon

go 1.21

require (
	github.com/binance-chain/tss-lib v0.0.0
	gitlab.com/alephledger/core-go v0.0.0
	gitlab.com/alephledger/threshold-ecdsa v0.0.0
	golang.org/x/crypto v0.9.0
)

require (
	github.com/ethereum/go-ethereum v1.10.3 // indirect
	github.com/rs/zerolog v0.0.0 // indirect
)

replace gitlab.com/alephledger/threshold-ecdsa => /repo

replace gitlab.com/alephledger/core-go => ../stubs/core-go

replace github.com/binance-chain/tss-lib => ../stubs/tss-lib

replace github.com/rs/zerolog => ../stubs/zerolog
