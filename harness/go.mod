module verifharness

go 1.23.0

require (
	github.com/hansthienpondt/nipam v0.0.5
	github.com/henderiw/idxtable v0.0.0
	k8s.io/apimachinery v0.31.0
)

require (
	github.com/davecgh/go-spew v1.1.2-0.20180830191138-d8f796af33cc // indirect
	github.com/go-logr/logr v1.4.2 // indirect
	github.com/google/go-cmp v0.6.0 // indirect
	github.com/kentik/patricia v1.2.0 // indirect
	github.com/pmezard/go-difflib v1.0.1-0.20181226105442-5d4384ee4fb2 // indirect
	github.com/stretchr/testify v1.9.0 // indirect
	github.com/tj/assert v0.0.3 // indirect
	go4.org/netipx v0.0.0-20231129151722-fdeea329fbba // indirect
	gopkg.in/yaml.v3 v3.0.1 // indirect
	k8s.io/klog/v2 v2.130.1 // indirect
	k8s.io/utils v0.0.0-20240711033017-18e509b52bc8 // indirect
)

replace github.com/henderiw/idxtable => /repo
