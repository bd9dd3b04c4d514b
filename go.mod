module verif.local/mc

go 1.20

require (
	github.com/Aize-Public/forego v0.0.0
	github.com/google/uuid v1.5.0
	golang.org/x/net v0.19.0
)

require golang.org/x/sys v0.15.0 // indirect

replace github.com/Aize-Public/forego => /repo
