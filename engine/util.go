package main

import "sort"

type unsupErr struct{ msg string }

func unsupported(m string) unsupErr { return unsupErr{m} }

func sortI32(a []int32) { sort.Slice(a, func(i, j int) bool { return a[i] < a[j] }) }
