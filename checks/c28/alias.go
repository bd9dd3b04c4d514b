package main

import "net/http"

type nethttp = http.Request
type respw = http.ResponseWriter
