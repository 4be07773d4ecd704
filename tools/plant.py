#!/usr/bin/env python3
"""Dev tool: plant.py BUGFILE.py -- writes and validates a planted bug.

BUGFILE defines: id, property, needs, breaks, edits=[(file, old, new)], and
either demo (Go statements that call fail(...) ) or demo_sh (script text).
The bug is validated in a scratch copy: builds, tests pass, the demo passes
without and fails with it. Only then it is stored in /verif/seeded/<id>/."""
import json, os, shutil, subprocess, sys, tempfile

TEMPLATE = '''package main

import (
	"bytes"
	"context"
	"errors"
	"fmt"
	"io"
	"os"
	"regexp"
	"runtime"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"

	"github.com/JohannesKaufmann/dom"
	htmltomarkdown "github.com/JohannesKaufmann/html-to-markdown/v2"
	"github.com/JohannesKaufmann/html-to-markdown/v2/collapse"
	"github.com/JohannesKaufmann/html-to-markdown/v2/converter"
	"github.com/JohannesKaufmann/html-to-markdown/v2/plugin/base"
	"github.com/JohannesKaufmann/html-to-markdown/v2/plugin/commonmark"
	"github.com/JohannesKaufmann/html-to-markdown/v2/plugin/strikethrough"
	"github.com/JohannesKaufmann/html-to-markdown/v2/plugin/table"
	"golang.org/x/net/html"
)

var (
	_ = bytes.Equal
	_ = context.Background
	_ = errors.New
	_ = io.EOF
	_ = regexp.MustCompile
	_ = runtime.GC
	_ = sort.Strings
	_ = strconv.Itoa
	_ = strings.Repeat
	_ sync.Mutex
	_ = time.Second
	_ = dom.NodeName
	_ = htmltomarkdown.ConvertString
	_ = collapse.Collapse
	_ = strikethrough.NewStrikethroughPlugin
	_ = table.NewTablePlugin
	_ = html.Parse
)

func fail(format string, args ...any) {
	fmt.Printf("FAIL: "+format+"\\n", args...)
	os.Exit(1)
}

// conv makes a converter with the base and commonmark plugins and more.
func conv(more ...converter.Plugin) *converter.Converter {
	return converter.NewConverter(converter.WithPlugins(append([]converter.Plugin{base.NewBasePlugin(), commonmark.NewCommonmarkPlugin()}, more...)...))
}

// expect fails unless the conversion gives exactly that.
func expect(c *converter.Converter, in, want string, opts ...converter.ConvertOptionFunc) {
	got, err := c.ConvertString(in, opts...)
	if err != nil {
		fail("%q: %v", in, err)
	}
	if got != want {
		fail("%q gives %q, want %q", in, got, want)
	}
}

func main() {
@BODY@
	fmt.Println("ok")
}
'''
SH = '''#!/bin/bash
# exit 0: the property holds for this case, otherwise it is broken
D=$(cd "$(dirname "$0")" && pwd)
export HOME="${HOME:-/root}" PATH=/opt/veriftools/go1.27.3/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin
export GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod GOWORK=off
'''

def sh(cmd, cwd, **kw):
    return subprocess.run(cmd, shell=True, cwd=cwd, capture_output=True, text=True, **kw)

def main(path):
    ns = {}
    exec(open(path).read(), ns)
    bid = ns['id']
    env = dict(os.environ, PATH='/opt/veriftools/go1.27.3/bin:' + os.environ['PATH'], GOTOOLCHAIN='local', GOPROXY='off', GOFLAGS='-mod=mod', GOWORK='off')
    scratch = tempfile.mkdtemp(prefix='plant-', dir='/tmp')
    try:
        sh(f'git -C /repo worktree prune; git -C /repo archive HEAD | tar x -C {scratch}', '/')
        sh('git init -q . && git add -A && git -c user.email=a@b -c user.name=x commit -qm base', scratch)
        d = os.path.join(scratch + '-demo'); os.makedirs(d)
        if 'demo' in ns:
            open(d + '/main.go', 'w').write(TEMPLATE.replace('@BODY@', ns['demo']))
            sh('gofmt -w ' + d + '/main.go', d, env=env)
            race = '-race ' if ns.get('race') else ''
            text = SH + f'go run {race}"$D/main.go"\n'
        else:
            text = SH + ns['demo_sh']
            for k, v in ns.get('files', {}).items():
                open(d + '/' + k, 'w').write(v)
        open(d + '/demo.sh', 'w').write(text); os.chmod(d + '/demo.sh', 0o755)
        r = sh('bash ' + d + '/demo.sh', scratch, env=env, timeout=300)
        if r.returncode != 0:
            print(bid, 'DEMO FAILS ON BASE', r.stdout[-1500:], r.stderr[-1500:]); return 1
        for f, old, new in ns['edits']:
            p = os.path.join(scratch, f); s = open(p).read()
            if s.count(old) != 1:
                print(bid, 'EDIT DOES NOT MATCH', f, s.count(old), old); return 1
            open(p, 'w').write(s.replace(old, new))
        sh('gofmt -l -w ' + ' '.join({f for f, _, _ in ns['edits']}), scratch, env=env)
        r = sh('go build ./...', scratch, env=env)
        if r.returncode != 0:
            print(bid, 'BUILD', r.stdout, r.stderr[-2000:]); return 1
        r = sh('go test -vet=off -count=1 ./... 2>&1 | grep -E "^(---|FAIL|panic|    ---)" | head -20', scratch, env=env)
        if r.stdout.strip():
            print(bid, 'TESTS CATCH IT', r.stdout); return 1
        r = sh('bash ' + d + '/demo.sh', scratch, env=env, timeout=300)
        if r.returncode == 0:
            print(bid, 'DEMO PASSES WITH BUG', r.stdout); return 1
        out = '/verif/seeded/' + bid
        shutil.rmtree(out, ignore_errors=True); shutil.copytree(d, out)
        open(out + '/patch.diff', 'w').write(sh('git diff', scratch).stdout)
        json.dump({'property': ns['property'], 'needs': ns['needs'], 'what_it_breaks': ns['breaks']}, open(out + '/meta.json', 'w'), indent=1)
        print(bid, 'OK:', r.stdout.strip()[-300:], r.stderr.strip()[-100:])
        return 0
    finally:
        shutil.rmtree(scratch, ignore_errors=True); shutil.rmtree(scratch + '-demo', ignore_errors=True)

sys.exit(max(main(p) for p in sys.argv[1:]))
