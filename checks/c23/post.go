package main

import (
	"bytes"
	gohttp "net/http"
	"net/http/httptest"

	"github.com/Aize-Public/forego/ctx"
	"github.com/Aize-Public/forego/http"
)

func post(c ctx.C, s *http.Server, path, body string) (int, string) {
	r, err := gohttp.NewRequestWithContext(c, "POST", path, bytes.NewBufferString(body))
	if err != nil {
		panic(err)
	}
	w := httptest.NewRecorder()
	s.Mux().ServeHTTP(w, r)
	return w.Code, w.Body.String()
}
