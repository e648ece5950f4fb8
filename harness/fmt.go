package main

import "fmt"

func fmtRow(v []float64) string { return fmt.Sprintf("%v", v) }
func fmtInts(v []int) string    { return fmt.Sprintf("%v", v) }
