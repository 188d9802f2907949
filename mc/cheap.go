//go:build cheapscrypt

package main

import "golang.org/x/crypto/scrypt"

func init() { limitScrypt = func(n int) { scrypt.MaxN = n } }
