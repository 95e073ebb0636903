ID='c37-split'; PROPERTY='C37'
NEEDS='a sample trace whose random split leaves nothing for the last span'
BREAKS='appdash send panics half way: the server gets a part of the sample data'
EDITS=[('cmd/appdash/sample_data.go', '\treturn append(segments, value-sum)\n', '\tif rest := value - sum; rest > 0 {\n\t\tsegments = append(segments, rest)\n\t}\n\treturn segments\n')]
PKG='cmd/appdash'
WEB=True
DEMO='package main\n\nimport "testing"\n\nfunc TestDemo(t *testing.T) {\n\tfor v := 0; v < 10; v++ {\n\t\tfor i := 0; i < 200; i++ {\n\t\t\tif l := randomSplit(v, 4); len(l) != 4 {\n\t\t\t\tt.Fatalf("%d is split in %v", v, l)\n\t\t\t}\n\t\t}\n\t}\n}\n'
