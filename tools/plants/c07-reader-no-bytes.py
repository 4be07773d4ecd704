id='c07-reader-no-bytes'
property='C07'
needs='a reader that fails before it has delivered a single byte'
breaks='the error of the reader is swallowed and an empty document is returned'
edits=[('converter/convert.go','''	doc, err := html.Parse(r)
	if err != nil {
		return nil, err
	}
''','''	content, err := io.ReadAll(r)
	if err != nil && len(content) > 0 {
		return nil, err
	}
	doc, err := html.Parse(bytes.NewReader(content))
	if err != nil {
		return nil, err
	}
''')]
demo='''_, err := conv().ConvertReader(readerFunc(func(p []byte) (int, error) { return 0, errors.New("broken") }))
if err == nil { fail("no error") }
}

type readerFunc func(p []byte) (int, error)

func (f readerFunc) Read(p []byte) (int, error) { return f(p) }

func init() {'''
