module verif/harness

go 1.23.0
require (
	github.com/anchore/go-struct-converter v0.2.1
	github.com/google/go-cmp v0.7.0
	github.com/spdx/gordf v0.0.0-20250128162952-000978ccd6fb
	github.com/stretchr/testify v1.11.1
	sigs.k8s.io/yaml v1.6.0
)

require (
	github.com/davecgh/go-spew v1.1.1 // indirect
	github.com/pmezard/go-difflib v1.0.0 // indirect
	go.yaml.in/yaml/v2 v2.4.2 // indirect
	gopkg.in/yaml.v3 v3.0.1 // indirect
)

require github.com/spdx/tools-golang v0.0.0

replace github.com/spdx/tools-golang => /repo
