package main

import (
	"debug/elf"
	"fmt"
	"os"
	"syscall"
	"unsafe"
)

func die(f string, a ...interface{}) {
	fmt.Fprintf(os.Stderr, "mips: "+f+"\n", a...)
	os.Exit(126)
}

func main() {
	if len(os.Args) < 2 {
		die("usage: mips program args...")
	}
	f, err := elf.Open(os.Args[1])
	if err != nil {
		die("%v", err)
	}
	if f.Machine != elf.EM_MIPS || f.Class != elf.ELFCLASS32 {
		die("not a 32-bit MIPS program")
	}
	mem, err := syscall.Mmap(-1, 0, 1<<31, syscall.PROT_READ|syscall.PROT_WRITE, syscall.MAP_ANON|syscall.MAP_PRIVATE|syscall.MAP_NORESERVE)
	if err != nil {
		die("%v", err)
	}
	m := &machine{big: f.ByteOrder.String() == "BigEndian", mem: mem, base: unsafe.Pointer(&mem[0]), perm: make([]byte, 1<<19),
		next: 0x40000000, tid: 1000, trace: os.Getenv("MIPS_TRACE") != "", brk: 0x10000000}
	for _, p := range f.Progs {
		if p.Type != elf.PT_LOAD {
			continue
		}
		if _, err := p.ReadAt(mem[p.Vaddr:p.Vaddr+p.Filesz], 0); err != nil && p.Filesz > 0 {
			die("%v", err)
		}
		q := byte(pUsed)
		if p.Flags&elf.PF_R != 0 {
			q |= pRead
		}
		if p.Flags&elf.PF_W != 0 {
			q |= pWrite
		}
		if p.Flags&elf.PF_X != 0 {
			q |= pExec
		}
		m.setPerm(uint32(p.Vaddr), uint32(p.Memsz), q)
		if end := (uint32(p.Vaddr+p.Memsz) + 0xfffff) &^ 0xfffff; end > m.brk {
			m.brk = end
		}
	}
	// li v0, rt_sigreturn; syscall
	m.setPerm(trampAt, 4096, pUsed|pRead|pWrite)
	m.st32(trampAt, 0x24020000|4193)
	m.st32(trampAt+4, 0x0000000c)
	m.setPerm(trampAt, 4096, pUsed|pRead|pExec)

	// stack: strings, then argc, argv, envp, auxv
	const top = 0x7fff0000 - 0x2000
	m.setPerm(top-1<<20, 1<<20, pUsed|pRead|pWrite)
	sp := uint32(top - 64)
	push := func(s string) uint32 {
		sp -= uint32(len(s) + 1)
		copy(mem[sp:], s+"\x00")
		return sp
	}
	var argv, envp []uint32
	for _, a := range os.Args[1:] {
		argv = append(argv, push(a))
	}
	for _, e := range os.Environ() {
		if len(e) > 7 && e[:8] == "GODEBUG=" {
			continue
		}
		envp = append(envp, push(e))
	}
	envp = append(envp, push("GODEBUG=asyncpreemptoff=1"))
	rnd := (sp - 16) &^ 15
	for i := uint32(0); i < 16; i++ {
		mem[rnd+i] = byte(i*37 + 11)
	}
	words := []uint32{uint32(len(argv))}
	words = append(append(words, argv...), 0)
	words = append(append(words, envp...), 0)
	words = append(words, 6, 4096, 25, rnd, 16, 0, 0, 0)
	sp = (rnd - uint32(4*len(words))) &^ 15
	for i, w := range words {
		m.st32(sp+uint32(4*i), w)
	}
	t := &thread{pc: uint32(f.Entry), npc: uint32(f.Entry) + 4, tid: m.tid}
	t.r[29] = sp
	m.thr = []*thread{t}
	limit := uint64(400e9)
	m.loop(limit)
}
