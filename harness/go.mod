module verifharness

go 1.14

require (
	github.com/consensys/gnark v0.3.6-0.20201210201156-81e1c73d407c
	github.com/consensys/gurvy v0.3.6-0.20201201225406-c45cdb55aaef
	github.com/pkg/profile v1.5.0
	github.com/stretchr/testify v1.6.1
)

require gkr-mimc v0.0.0
replace gkr-mimc => /repo
