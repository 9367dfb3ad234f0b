module simharness

go 1.24

require github.com/aceld/zinx v0.0.0

replace github.com/aceld/zinx => /repo


require (
	github.com/gorilla/websocket v1.5.0
	github.com/stretchr/testify v1.8.1
	github.com/xtaci/kcp-go v5.4.20+incompatible
	golang.org/x/net v0.33.0 // indirect
	google.golang.org/protobuf v1.33.0 // indirect
)

require github.com/golang/protobuf v1.5.0

require (
	github.com/davecgh/go-spew v1.1.1 // indirect
	github.com/klauspost/cpuid/v2 v2.1.1 // indirect
	github.com/klauspost/reedsolomon v1.11.8 // indirect
	github.com/pkg/errors v0.9.1 // indirect
	github.com/pmezard/go-difflib v1.0.0 // indirect
	github.com/templexxx/cpufeat v0.0.0-20180724012125-cef66df7f161 // indirect
	github.com/templexxx/xor v0.0.0-20191217153810-f85b25db303b // indirect
	github.com/tjfoc/gmsm v1.4.1 // indirect
	github.com/xtaci/lossyconn v0.0.0-20200209145036-adba10fffc37 // indirect
	golang.org/x/crypto v0.31.0 // indirect
	golang.org/x/sys v0.28.0 // indirect
	gopkg.in/yaml.v3 v3.0.1 // indirect
)
