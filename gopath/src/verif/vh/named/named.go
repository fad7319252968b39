// Package named has types called like those of package time without being them.
package named

type (
	Duration int64
	Time     string
	Month    int
	Weekday  uint8
	Seconds  float64
)
