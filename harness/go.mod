module verif/harness

go 1.26.0

require (
	github.com/thoas/go-funk v0.9.3
	github.com/weedbox/pokercompetition v0.0.0
	github.com/weedbox/pokerface v0.1.10
	github.com/weedbox/pokertable v0.1.83
	pgregory.net/rapid v1.3.0
)

require (
	github.com/google/uuid v1.3.1 // indirect
	github.com/weedbox/syncsaga v0.0.0-20230821071725-a634f0872340 // indirect
	github.com/weedbox/timebank v0.0.0-20230713013837-bd7a6f808e3e // indirect
)

replace github.com/weedbox/pokercompetition => /repo
