id='c33-close-error'
id='c33-close-error'
property='C33'
needs='a file that can not be written completely because the disk is full'
breaks='the error of the write is replaced by that of the close'
edits=[('cli/html2markdown/cmd/io_output.go','	if err1 := f.Close(); err1 != nil && err == nil {\n		err = err1\n	}\n','	if err1 := f.Close(); err1 != nil || !override {\n		err = err1\n	}\n')]
demo_sh='''T=$(mktemp -d); trap 'rm -rf "$T"' EXIT
go build -o $T/h ./cli/html2markdown || exit 1
head -c 200000 /dev/zero | tr '\\0' a > $T/in.html
cat > $T/r.sh <<X
ulimit -f 10; trap '' XFSZ
exec $T/h --input $T/in.html --output $T/o.md
X
bash $T/r.sh; [ $? = 1 ]'''
