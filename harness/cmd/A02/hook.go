//go:build verifhook

package main

import "net/http"

const hooked = true

// capture makes http.Server hand us its handler instead of listening.
func capture(f func(http.Handler)) {
	http.VerifServe = func(s *http.Server) error { f(s.Handler); return nil }
}

func uncapture() { http.VerifServe = nil }
