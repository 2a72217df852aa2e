package main

import "strconv"

func appendInt(b []byte, n int64) []byte { return strconv.AppendInt(b, n, 10) }
