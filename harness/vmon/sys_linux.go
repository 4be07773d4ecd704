package main

import "syscall"

func mkfifo(p string) { syscall.Mkfifo(p, 0o644) }
