// Package run holds the test binary that runs one property's exploration.
package runsched
