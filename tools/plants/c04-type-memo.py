id='c04-type-memo'
property='C04'
needs='two goroutines that convert documents with tags of several registrations at the same time'
breaks='a data race on the sorted registrations'
race=True
edits=[('converter/register.go','''	sorted := make(prioritizedSlice[tagType], len(types))
	copy(sorted, types)
	sorted.Sort()
''','''	sorted := types
	for i := 1; i < len(sorted); i++ {
		if sorted[i].Priority < sorted[i-1].Priority {
			sorted = append(prioritizedSlice[tagType](nil), types...)
			sorted.Sort()
			conv.tagTypes[tagName] = sorted
			break
		}
	}
''')]
demo='''c := conv()
c.Register.TagType("p", converter.TagTypeInline, 500)
c.Register.TagType("p", converter.TagTypeBlock, 100)
var wg sync.WaitGroup
for i := 0; i < 8; i++ { wg.Add(1); go func() { defer wg.Done(); for k := 0; k < 50; k++ { c.ConvertString("<p>a</p>") } }() }
wg.Wait()'''
