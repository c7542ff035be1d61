// Package data stands in for the unavailable static assets package
// (sourcegraph.com/sourcegraph/appdash-data). The web UI only serves its
// files under /static/, which no property here is about.
package data

import (
	"errors"
	"net/http"
)

type empty struct{}

func (empty) Open(name string) (http.File, error) {
	return nil, errors.New("no such file: " + name)
}

// Data is the (empty) static file system.
var Data http.FileSystem = empty{}
