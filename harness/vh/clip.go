package main

import (
	"bytes"
	"context"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"strings"
	"time"

	"verif/gen"
)

// --- C26

// The clipboard is a stand-in for the programs that give access to it; it notes how it was called.
const clipScript = `#!/bin/sh
echo "$0 $*" >>"$CLIP_LOG"
case "$*" in *-in*) exit 0 ;; esac
[ -f "$CLIP_TEXT" ] && /bin/cat "$CLIP_TEXT"
[ -n "$CLIP_SAY" ] && echo "$CLIP_SAY" >&2
exit $CLIP_RC
`

func init() {
	checks["C26"] = &Check{
		Rule: "the real binary runs with a stand-in for xclip, xsel or wl-paste on its PATH: armored texts of every kind, binary data, plain text, nothing at all in the clipboard; a clipboard program that fails with or without having written something; none at all; together with --file, other options and something else on standard input; the result must be the one for the same text on standard input with --armor, a failing clipboard is a failure, the clipboard is not written to and not read without being asked; non-trivial: clipboard contents, distinct by octets and arguments",
		Need: []string{"clipboard equal to standard input", "binary data in the clipboard refused", "failing clipboard refused", "missing clipboard refused", "clipboard and file refused", "clipboard not asked for", "long clipboard"},
		Run: func(c *Ctx) {
			dir := filepath.Join(c.Dir, fmt.Sprintf("clip%d", c.Shard))
			kinds := map[string][]string{"xclip": {"xclip"}, "xsel": {"xsel"}, "both": {"xclip", "xsel"}, "wayland": {"wl-copy", "wl-paste"}, "none": nil}
			for k, ps := range kinds {
				must(os.MkdirAll(filepath.Join(dir, k), 0o700))
				for _, p := range ps {
					must(os.WriteFile(filepath.Join(dir, k, p), []byte(clipScript), 0o700))
				}
			}
			text, log := filepath.Join(dir, "text"), filepath.Join(dir, "log")
			bin := func(kind string, stdin []byte, rc string, args ...string) (o Obs, calls string) {
				os.Remove(log)
				ctx, cancel := context.WithTimeout(context.Background(), 120*time.Second)
				defer cancel()
				cmd := exec.CommandContext(ctx, binPath(), args...)
				cmd.Dir = dir
				cmd.Env = []string{"PATH=" + filepath.Join(dir, kind), "HOME=" + dir, "TZ=Asia/Kolkata", "CLIP_LOG=" + log, "CLIP_TEXT=" + text, "CLIP_RC=" + rc}
				if kind == "wayland" {
					cmd.Env = append(cmd.Env, "WAYLAND_DISPLAY=x")
				}
				if rc != "0" {
					cmd.Env = append(cmd.Env, "CLIP_SAY=Error: target STRING not available")
				}
				cmd.Stdin = bytes.NewReader(stdin)
				var out, errw bytes.Buffer
				cmd.Stdout, cmd.Stderr = &out, &errw
				cmd.Run()
				b, _ := os.ReadFile(log)
				return Obs{Exit: cmd.ProcessState.ExitCode(), Out: out.Bytes(), Err: errw.Bytes()}, string(b)
			}
			content := func(g *gen.G) []byte {
				switch g.Intn(12) {
				case 0:
					return g.Stream(1+g.Intn(2), 1, nil)
				case 1:
					return nil
				case 2:
					return g.Text(200)
				case 3:
					return g.Damage(g.Armoring().Write(g.Stream(1, 1, nil)))
				case 4:
					return gen.Cat(g.Armoring().Write(g.Stream(1, 1, nil)), g.Armoring().Write(g.Stream(1, 1, nil)))
				case 5:
					b := g.Armoring().Write(g.Stream(1, 1, nil))
					return b[:g.Intn(len(b)+1)]
				case 6:
					return gen.Cat([]byte(g.Strs[g.Intn(len(g.Strs))]+"\n"), g.Armoring().Write(g.Stream(1, 1, nil)))
				}
				g.BigOne = 4
				return g.Armoring().Write(g.Stream(1+g.Intn(3), 1, nil))
			}
			refused := func(o Obs, debug bool) bool {
				if debug { // shown on standard output
					_, err := tree(o.Out)
					return err != nil && len(o.Out)+len(o.Err) > 0
				}
				return o.Exit != 0 && len(o.Out) == 0 && len(o.Err) > 0 && !bytes.Contains(o.Err, []byte("Panic:"))
			}
			one := func(g *gen.G, data []byte) {
				os.Remove(text)
				if data != nil {
					must(os.WriteFile(text, data, 0o600))
				}
				o := opts(g)
				args := append(flags(g, o), "-j")
				if g.One(4) {
					args[len(args)-1] = "--indent=2"
				}
				plain := append([]string{}, args...)
				kind := []string{"xclip", "xclip", "xsel", "both", "wayland"}[g.Intn(5)]
				stdin := []byte("\xcd\x03abc") // a user ID that is not asked for
				switch g.Intn(4) {
				case 0:
					stdin = nil
				case 1:
					stdin = g.Armoring().Write(gen.Plain(13, []byte("not asked for")))
				case 2:
					stdin = data
				}
				switch mode := g.Intn(12); mode {
				case 0: // the clipboard fails, perhaps after some output
					got, _ := bin(kind, stdin, []string{"1", "2", "127"}[g.Intn(3)], append(args, "--clipboard", "-j")...)
					if !refused(got, o.Debug) {
						c.FailIn("the program reading the clipboard fails, and that is not reported: "+got.String(), data)
						return
					}
					c.Count("failing clipboard refused")
				case 1:
					got, _ := bin("none", stdin, "0", append(args, "--clipboard", "-j")...)
					if !refused(got, o.Debug) {
						c.FailIn("there is no clipboard, and that is not reported: "+got.String(), data)
						return
					}
					c.Count("missing clipboard refused")
				case 2:
					name := filepath.Join(dir, "f")
					must(os.WriteFile(name, gen.Plain(13, []byte("x")), 0o600))
					f := []string{"--file=" + name, "-f" + name, "--file=f", "-f" + filepath.Join(dir, "missing")}[g.Intn(4)]
					a := append(args, "-j", "--clipboard", f)
					g.Shuffle(len(a), func(i, j int) { a[i], a[j] = a[j], a[i] })
					got, _ := bin(kind, stdin, "0", a...)
					if !refused(got, o.Debug) {
						c.FailIn("--clipboard and --file together are not refused: "+got.String(), data)
						return
					}
					c.Count("clipboard and file refused")
				case 3: // not asked for
					if g.One(2) {
						args = append(args, "--clipboard=false")
					}
					got, calls := bin(kind, data, "0", args...)
					if ref := runB(data, plain...); calls != "" || !ref.same(got) || (len(ref.Err) == 0) != (len(got.Err) == 0) {
						c.FailIn("without --clipboard: "+got.String()+" instead of "+ref.String()+"; clipboard programs called: "+calls, data)
						return
					}
					c.Count("clipboard not asked for")
				default:
					a := append(args, []string{"--clipboard", "--clipboard=true"}[g.Intn(2)])
					if g.One(4) {
						a = append(a, "-a")
					}
					g.Shuffle(len(a), func(i, j int) { a[i], a[j] = a[j], a[i] })
					got, calls := bin(kind, stdin, "0", a...)
					ref := runB(data, append(plain, "-a")...)
					if !ref.same(got) || (len(ref.Err) == 0) != (len(got.Err) == 0) {
						c.FailIn("from the clipboard: "+got.String()+"; the same text on standard input with --armor: "+ref.String(), data, "arguments", strings.Join(a, " "))
						return
					}
					if strings.Count(calls, "\n") == 0 || strings.Contains(calls, "-in") || strings.Contains(calls, "wl-copy") {
						c.FailIn("the clipboard is not just read: "+calls, data)
						return
					}
					c.Count("clipboard equal to standard input")
					if len(data) > 100000 {
						c.Count("long clipboard")
					}
					if !bytes.Contains(data, []byte("-----BEGIN PGP")) {
						if !refused(got, o.Debug) {
							c.FailIn("what is not armored is taken from the clipboard: "+got.String(), data)
							return
						}
						c.Count("binary data in the clipboard refused")
					}
					if c.WantSample() && len(data) < 300 && got.Exit == 0 {
						c.Sample("%v with %q in the clipboard (%s): %d octets of output, as with --armor on standard input", a, data, kind, len(got.Out))
					}
				}
				c.Seen(data, []byte(strings.Join(args, " ")))
			}
			c.Cases("contents", c.N(3000, 60000), func(g *gen.G) { one(g, content(g)) })
			c.Cases("long", c.N(64, 400), func(g *gen.G) {
				n := g.Near(1000, 20<<20, g.PickI(49000, 98000, 200000, 1000000, 4000000))
				one(g, gen.Armor{Type: "MESSAGE", Line: 64, EOL: "\n", Sum: true}.Write(gen.Cat(gen.Plain(60, g.Bytes(n)), gen.Plain(13, []byte("last")))))
			})
		},
	}
}
