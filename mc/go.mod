module verifmc

go 1.25

require (
	github.com/vorlif/spreak v0.0.0
	golang.org/x/text v0.28.0
)

replace github.com/vorlif/spreak => /repo
