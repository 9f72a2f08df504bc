//go:build !verifhook

package main

import "net/http"

const hooked = false

func capture(f func(http.Handler)) {}

func uncapture() {}
