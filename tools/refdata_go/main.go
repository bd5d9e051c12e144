package main

import (
	"fmt"
	"os"
	"bufio"
	"golang.org/x/text/idna"
	"golang.org/x/text/unicode/bidi"
	"golang.org/x/text/unicode/norm"
	"golang.org/x/text/unicode/runenames"
)

func hex(s string) string {
	o := ""
	for _, r := range s {
		if o != "" { o += " " }
		o += fmt.Sprintf("%04X", r)
	}
	return o
}

func main() {
	mk := func(n string) (*os.File, *bufio.Writer) { f, _ := os.Create("/tmp/rg/go_" + n + ".txt"); return f, bufio.NewWriter(f) }
	_, name := mk("name"); _, bc := mk("bidi"); _, ccc := mk("ccc"); _, nfd := mk("nfd"); _, nfkd := mk("nfkd"); _, nfc := mk("nfc"); _, id := mk("idna")
	for r := rune(0); r <= 0x10FFFF; r++ {
		if r >= 0xD800 && r < 0xE000 { continue }
		s := string(r)
		fmt.Fprintf(name, "%04X;%s\n", r, runenames.Name(r))
		p, _ := bidi.LookupRune(r)
		fmt.Fprintf(bc, "%04X;%v\n", r, p.Class())
		fmt.Fprintf(ccc, "%04X;%d\n", r, norm.NFD.PropertiesString(s).CCC())
		fmt.Fprintf(nfd, "%04X;%s\n", r, hex(norm.NFD.String(s)))
		fmt.Fprintf(nfkd, "%04X;%s\n", r, hex(norm.NFKD.String(s)))
		fmt.Fprintf(nfc, "%04X;%s\n", r, hex(norm.NFC.String(s)))
		a, b := idna.Dump(r)
		fmt.Fprintf(id, "%04X;%s;%s\n", r, a, hex(b))
	}
	for _, w := range []*bufio.Writer{name, bc, ccc, nfd, nfkd, nfc, id} { w.Flush() }
}
