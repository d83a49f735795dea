package main

import "syscall"

func limitMemory(n int64) {
	_ = syscall.Setrlimit(syscall.RLIMIT_AS, &syscall.Rlimit{Cur: uint64(n), Max: uint64(n)})
}
