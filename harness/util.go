package main

import (
	"math/big"
	"net/url"
	"os"
)

// floorMul returns floor(p*n) of the exact product.
func floorMul(p float64, n int) int {
	r := new(big.Rat).SetFloat64(p)
	r.Mul(r, new(big.Rat).SetInt64(int64(n)))
	q := new(big.Int).Quo(r.Num(), r.Denom())
	return int(q.Int64())
}

func selfExe() string {
	p, err := os.Executable()
	if err != nil {
		panic(err)
	}
	return p
}

func urlQ(s string) string { return url.QueryEscape(s) }
