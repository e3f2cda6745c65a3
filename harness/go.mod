module verif/harness

go 1.13

require (
	github.com/ElrondNetwork/arwen-wasm-vm/v1_3 v0.0.0-00010101000000-000000000000
	github.com/ElrondNetwork/big-int-util v0.1.0
	github.com/ElrondNetwork/elrond-go-logger v1.0.4
	github.com/ElrondNetwork/elrond-vm-common v1.0.1-0.20210713105939-b6bc55e23cc0
	github.com/btcsuite/btcd v0.21.0-beta
	github.com/gin-gonic/gin v1.7.1
	github.com/gogo/protobuf v1.3.2
	github.com/golang/protobuf v1.5.2
	github.com/herumi/bls-go-binary v0.0.0-20200324054641-17de9ae04665
	github.com/mitchellh/mapstructure v1.4.1
	github.com/pelletier/go-toml v1.9.0
	github.com/stretchr/testify v1.7.0
	github.com/urfave/cli v1.22.5
	golang.org/x/crypto v0.0.0-20200622213623-75b288015ac9
)

replace github.com/ElrondNetwork/arwen-wasm-vm/v1_3 => /repo
